// C12: 3D grids store per-cell values exactly; scans update cells once.
#include <array>

#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;

namespace {

using Key = std::array<int, 3>;
Key K(const Eigen::Array3i& i) { return {i.x(), i.y(), i.z()}; }
Eigen::Array3i A(const Key& k) { return Eigen::Array3i(k[0], k[1], k[2]); }

constexpr double kTol = 6e-5;

// Cells around a random center, near the borders of the nested blocks or far
// away.
Eigen::Array3i RandomIndex(vh::Rng& rng, int reach) {
  Eigen::Array3i r;
  for (int d = 0; d < 3; ++d) {
    switch (rng.Int(0, 3)) {
      case 0: {
        static const int kBorders[] = {0, 8, 64, 128, 256, 512, 1024, 2048};
        int b = kBorders[rng.Int(0, 7)];
        while (b > reach) b /= 2;
        r[d] = (rng.Chance(0.5) ? -b : b) + rng.Int(-1, 1);
        break;
      }
      case 1:
        r[d] = rng.Int(-9, 9);
        break;
      default:
        r[d] = rng.Int(-reach, reach);
    }
    r[d] = std::max(-reach, std::min(reach - 1, r[d]));
  }
  return r;
}

template <typename Grid, typename Value, typename Same>
void CompareAll(const Grid& grid, const std::map<Key, Value>& model, Same same,
                const char* what) {
  size_t visited = 0;
  std::set<Key> seen;
  for (const auto& entry : grid) {
    const Key k = K(entry.first);
    VH_EXPECT(seen.insert(k).second, "visited-twice",
              what << " " << entry.first.transpose());
    const auto it = model.find(k);
    VH_EXPECT(it != model.end(), "stray-cell",
              what << " " << entry.first.transpose());
    VH_EXPECT(same(entry.second, it->second), "iterated-value",
              what << " " << entry.first.transpose());
    ++visited;
  }
  VH_EXPECT(visited == model.size(), "iteration-count",
            what << ": visited " << visited << " of " << model.size());
  // The explicit iterator interface.
  size_t n = 0;
  for (auto it = typename Grid::Iterator(grid); !it.Done(); it.Next(), ++n) {
    VH_EXPECT(seen.count(K(it.GetCellIndex())) == 1, "iterator-index",
              it.GetCellIndex().transpose());
  }
  VH_EXPECT(n == model.size(), "iterator-count", n << " " << model.size());
}

void CheckProbabilities(const mapping::HybridGrid& grid,
                        const std::map<Key, double>& model, const char* what,
                        vh::Rng& rng, int reach) {
  for (const auto& e : model) {
    VH_EXPECT(grid.IsKnown(A(e.first)), "lost-cell",
              what << " " << A(e.first).transpose());
    VH_EXPECT(std::abs(grid.GetProbability(A(e.first)) - e.second) < kTol,
              "cell-value",
              what << " " << A(e.first).transpose() << " is "
                   << grid.GetProbability(A(e.first)) << " expected "
                   << e.second);
  }
  for (int q = 0; q < 30; ++q) {
    // Also far outside of what was allocated.
    Eigen::Array3i i = RandomIndex(rng, q < 20 ? reach : 8191);
    if (!model.empty() && q < 10) {
      auto it = model.begin();
      std::advance(it, rng.Int(0, std::min<int>(20, model.size() - 1)));
      i = A(it->first) +
          Eigen::Array3i(rng.Int(-1, 1), rng.Int(-1, 1), rng.Int(-1, 1));
    }
    VH_EXPECT(grid.IsKnown(i) == (model.count(K(i)) == 1), "known-cell",
              what << " " << i.transpose());
  }
  CompareAll(grid, model,
             [](uint16_t v, double p) {
               return v > 0 && v < mapping::kUpdateMarker &&
                      std::abs(mapping::ValueToProbability(v) - p) < kTol;
             },
             what);
}

const std::vector<uint16_t>& Table(double p) {
  static std::map<double, std::vector<uint16_t>> tables;
  auto it = tables.find(p);
  if (it == tables.end()) {
    it = tables
             .emplace(p, mapping::ComputeLookupTableToApplyOdds(
                             mapping::Odds(static_cast<float>(p))))
             .first;
  }
  return it->second;
}

double Apply(double odds_p, const double* old) {
  const double odds =
      odds_p / (1. - odds_p) * (old != nullptr ? *old / (1. - *old) : 1.);
  return std::min(0.9, std::max(0.1, odds / (1. + odds)));
}

void Histories(vh::Rng& rng, int reach, int steps) {
  const float res = rng.Chance(0.5) ? 0.1f : rng.Real(0.02, 1.);
  mapping::HybridGrid grid(res);
  std::map<Key, double> model;
  static const double kOdds[] = {0.55, 0.7, 0.45, 0.2};
  int grown = 0;
  for (int s = 0; s < steps; ++s) {
    const int size = grid.grid_size();
    if (rng.Chance(0.4)) {
      const int n = rng.Int(1, 15);
      for (int k = 0; k < n; ++k) {
        const Eigen::Array3i i = RandomIndex(rng, reach);
        const double p = rng.Real(0.05, 0.95);
        grid.SetProbability(i, p);
        model[K(i)] = std::min(0.9, std::max(0.1, p));
      }
    } else {
      // One update sequence.
      std::set<Key> updated;
      const int n = rng.Int(1, 25);
      for (int k = 0; k < n; ++k) {
        Eigen::Array3i i = RandomIndex(rng, reach);
        if (!updated.empty() && rng.Chance(0.3)) i = A(*updated.begin());
        const double odds = kOdds[rng.Int(0, 3)];
        const bool first = updated.insert(K(i)).second;
        const bool applied = grid.ApplyLookupTable(i, Table(odds));
        VH_EXPECT(applied == first, "update-once",
                  i.transpose() << " applied " << applied);
        if (first) {
          auto it = model.find(K(i));
          // Follow the stored (rounded) value.
          const double v = Apply(odds, it == model.end() ? nullptr
                                                         : &it->second);
          model[K(i)] = v;
        }
        VH_EXPECT(std::abs(grid.GetProbability(i) - model[K(i)]) < 1e-3,
                  "value-during-update", i.transpose());
      }
      grid.FinishUpdate();
      for (const Key& k : updated) {
        const double got = grid.GetProbability(A(k));
        // One rounding of the operand is amplified by at most the odds ratio.
        VH_EXPECT(std::abs(got - model[k]) < 4 * kTol, "update-value",
                  A(k).transpose() << " " << got << " " << model[k]);
        model[k] = got;
      }
    }
    if (grid.grid_size() != size) ++grown;
    if (s % 8 == 7 || s + 1 == steps) {
      CheckProbabilities(grid, model, "grid", rng, reach);
    }
  }
  // Indexing.
  for (int q = 0; q < 20; ++q) {
    const Eigen::Array3i i = RandomIndex(rng, reach);
    const Eigen::Vector3f c = grid.GetCenterOfCell(i);
    VH_EXPECT((c - i.matrix().cast<float>() * res).norm() <
                  1e-4 * res * (1 + i.matrix().cast<float>().norm()),
              "cell-center", i.transpose() << " " << c.transpose());
    const Eigen::Vector3f p =
        c + res * Eigen::Vector3f(rng.Real(-.49, .49), rng.Real(-.49, .49),
                                  rng.Real(-.49, .49));
    VH_EXPECT((grid.GetCellIndex(p) == i).all(), "cell-index",
              p.transpose() << " in " << i.transpose());
  }
  // Storing.
  const mapping::proto::HybridGrid proto = grid.ToProto();
  mapping::proto::HybridGrid parsed;
  VH_EXPECT(parsed.ParseFromString(proto.SerializeAsString()), "parse", "");
  const mapping::HybridGrid loaded(parsed);
  VH_EXPECT(loaded.resolution() == grid.resolution(), "loaded-resolution",
            loaded.resolution());
  CheckProbabilities(loaded, model, "loaded", rng, reach);
  for (const auto& e : model) {
    VH_EXPECT(loaded.value(A(e.first)) == grid.value(A(e.first)),
              "loaded-value",
              A(e.first).transpose() << " " << loaded.value(A(e.first)) << " "
                                     << grid.value(A(e.first)));
  }
  // A grid being updated moves its ownership without loss.
  mapping::HybridGrid moved(std::move(grid));
  CheckProbabilities(moved, model, "moved", rng, reach);
  if (grown > 0 && model.size() > 10) {
    vh::Digest d;
    for (const auto& e : model) d.Add(e.first[0]).Add(e.first[2]);
    vh::Distinct(d.Get());
  }
  vh::Count("growths", grown);
  vh::Max("cells", model.size());
}

}  // namespace

VH_SCENARIO(grid_history, 800, 16000) {
  Histories(rng, rng.Chance(0.5) ? 100 : rng.Chance(0.7) ? 500 : 1000, 24);
}

// The whole addressable range.
VH_SCENARIO(addressable_range, 2, 16) {
  mapping::HybridGrid grid(0.05f);
  std::map<Key, double> model;
  for (int k = 0; k < 60; ++k) {
    Eigen::Array3i i;
    for (int d = 0; d < 3; ++d) {
      switch (rng.Int(0, 3)) {
        case 0: i[d] = -8192 + rng.Int(0, 2); break;
        case 1: i[d] = 8191 - rng.Int(0, 2); break;
        case 2: i[d] = rng.Int(-3, 3); break;
        default: i[d] = rng.Int(-8192, 8191);
      }
    }
    const double p = rng.Real(0.1, 0.9);
    grid.SetProbability(i, p);
    model[K(i)] = p;
  }
  CheckProbabilities(grid, model, "range", rng, 8191);
  for (const Eigen::Array3i& i :
       {Eigen::Array3i(8192, 0, 0), Eigen::Array3i(0, -8193, 0),
        Eigen::Array3i(0, 0, 1 << 20), Eigen::Array3i(-(1 << 24), 0, 0)}) {
    VH_EXPECT(!grid.IsKnown(i), "known-outside", i.transpose());
  }
  vh::Distinct(vh::Digest().Add(rng.U64()).Get());
}

// Grids of other cell types.
VH_SCENARIO(generic_grid, 400, 6000) {
  mapping::HybridGridBase<int> grid(0.5f);
  std::map<Key, int> model;
  const int reach = rng.Chance(0.6) ? 100 : 600;
  for (int k = rng.Int(0, 200); k > 0; --k) {
    const Eigen::Array3i i = RandomIndex(rng, reach);
    const int v = rng.Int(-1, 1000);
    *grid.mutable_value(i) = v;
    if (v == 0) {
      model.erase(K(i));
    } else {
      model[K(i)] = v;
    }
    VH_EXPECT(grid.value(i) == v, "stored-value", i.transpose());
  }
  for (const auto& e : model) {
    VH_EXPECT(grid.value(A(e.first)) == e.second, "int-value",
              A(e.first).transpose());
  }
  CompareAll(grid, model, [](int a, int b) { return a == b; }, "int grid");
  std::set<Key> octants;
  for (int i = 0; i < 8; ++i) {
    octants.insert(K(mapping::HybridGridBase<int>::GetOctant(i)));
  }
  VH_EXPECT(octants.size() == 8, "octants", "");
  vh::Distinct(vh::Digest().Add(model.size()).Add(rng.U64()).Get());
}

VH_SCENARIO(insert_scans, 800, 16000) {
  const float res = rng.Chance(0.5) ? 0.1f : rng.Real(0.05, 0.8);
  mapping::proto::RangeDataInserterOptions3D options;
  static const double kHit[] = {0.55, 0.7}, kMiss[] = {0.45, 0.49, 0.3};
  const double hit = kHit[rng.Int(0, 1)], miss = kMiss[rng.Int(0, 2)];
  const int free_voxels = rng.Chance(0.2) ? 0 : rng.Int(1, 12);
  const float threshold = rng.Real(20., 100.);
  options.set_hit_probability(hit);
  options.set_miss_probability(miss);
  options.set_num_free_space_voxels(free_voxels);
  options.set_intensity_threshold(threshold);
  const mapping::RangeDataInserter3D inserter(options);
  mapping::HybridGrid grid(res);
  mapping::IntensityHybridGrid intensity_grid(res);
  const bool with_intensity_grid = rng.Chance(0.6);
  std::map<Key, double> model;
  struct Sum {
    double sum = 0.;
    int count = 0;
  };
  std::map<Key, Sum> intensities;
  const int scans = rng.Int(1, 6);
  bool hits_and_misses = false;
  // Keep away from cell borders so that the cell of a point is not in doubt.
  auto point = [&](const Eigen::Array3i& c) {
    return Eigen::Vector3f(
        res * (c.matrix().cast<float>() +
               Eigen::Vector3f(rng.Real(-.45, .45), rng.Real(-.45, .45),
                               rng.Real(-.45, .45))));
  };
  const int reach = rng.Chance(0.5) ? 15 : rng.Chance(0.5) ? 70 : 300;
  for (int s = 0; s < scans; ++s) {
    const Eigen::Array3i o = RandomIndex(rng, reach);
    sensor::RangeData data;
    data.origin = point(o);
    std::vector<sensor::RangefinderPoint> points;
    std::vector<float> values;
    std::vector<Eigen::Array3i> cells;
    const bool with_intensities = rng.Chance(0.6);
    const int n = rng.Chance(0.1) ? 0 : rng.Int(1, 40);
    for (int k = 0; k < n; ++k) {
      Eigen::Array3i c = RandomIndex(rng, reach);
      if (!cells.empty() && rng.Chance(0.3)) c = cells[rng.Int(0, k - 1)];
      if (rng.Chance(0.05)) c = o;
      if (!cells.empty() && rng.Chance(0.2)) {
        // On the way to another return.
        c = o + (cells[0] - o) / 2;
      }
      cells.push_back(c);
      points.push_back({point(c)});
      float v = rng.Real(0., 120.);
      if (rng.Chance(0.2)) v = threshold;
      values.push_back(v);
    }
    data.returns = with_intensities
                       ? sensor::PointCloud(points, values)
                       : sensor::PointCloud(points);
    // Misses of a 3D scan are not used.
    for (int k = rng.Int(0, 3); k > 0; --k) {
      data.misses.push_back({point(RandomIndex(rng, reach))});
    }
    inserter.Insert(data, &grid,
                    with_intensity_grid ? &intensity_grid : nullptr);

    std::set<Key> hit_cells, miss_cells;
    for (const auto& c : cells) hit_cells.insert(K(c));
    for (const auto& c : cells) {
      const Eigen::Array3i d = c - o;
      const int samples = d.abs().maxCoeff();
      for (int i = std::max(0, samples - free_voxels); i < samples; ++i) {
        Key k;
        for (int a = 0; a < 3; ++a) {
          const int64_t t = static_cast<int64_t>(std::abs(d[a])) * i / samples;
          k[a] = o[a] + (d[a] < 0 ? -t : t);
        }
        if (hit_cells.count(k) == 0) miss_cells.insert(k);
      }
    }
    for (const Key& k : hit_cells) {
      auto it = model.find(k);
      model[k] = Apply(hit, it == model.end() ? nullptr : &it->second);
    }
    for (const Key& k : miss_cells) {
      auto it = model.find(k);
      model[k] = Apply(miss, it == model.end() ? nullptr : &it->second);
    }
    for (const auto* set : {&hit_cells, &miss_cells}) {
      for (const Key& k : *set) {
        VH_EXPECT(grid.IsKnown(A(k)), "cell-not-updated",
                  A(k).transpose() << (set == &hit_cells ? " hit" : " miss"));
        const double got = grid.GetProbability(A(k));
        VH_EXPECT(std::abs(got - model[k]) < 4 * kTol, "scan-update",
                  A(k).transpose() << " is " << got << " expected " << model[k]
                                   << (set == &hit_cells ? " hit" : " miss"));
        model[k] = got;
      }
    }
    CheckProbabilities(grid, model, "after scan", rng, reach);
    if (with_intensity_grid && with_intensities) {
      for (int k = 0; k < n; ++k) {
        if (values[k] > threshold) continue;
        auto& sum = intensities[K(cells[k])];
        sum.sum += values[k];
        ++sum.count;
      }
    }
    for (const auto& e : intensities) {
      const double expected = e.second.sum / e.second.count;
      VH_EXPECT(std::abs(intensity_grid.GetIntensity(A(e.first)) - expected) <
                    1e-3,
                "intensity",
                A(e.first).transpose()
                    << " is " << intensity_grid.GetIntensity(A(e.first))
                    << " expected " << expected);
    }
    for (const Key& k : hit_cells) {
      if (intensities.count(k) == 0) {
        VH_EXPECT(intensity_grid.GetIntensity(A(k)) == 0.f,
                  "stray-intensity", A(k).transpose());
      }
    }
    if (!hit_cells.empty() && !miss_cells.empty()) hits_and_misses = true;
    vh::Count("hit_cells", hit_cells.size());
    vh::Count("miss_cells", miss_cells.size());
  }
  if (hits_and_misses) {
    vh::Digest d;
    for (const auto& e : model) d.Add(e.first[0]).AddD(e.second);
    vh::Distinct(d.Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
