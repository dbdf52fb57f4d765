// C09: a scan updates each 2D cell at most once; hits win over misses.
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "ray2d.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;

namespace {

using Cell = std::pair<int, int>;  // in units of the initial grid, see below

struct Snapshot {
  std::map<Cell, float> known;
};

// Cell (gx, gy) covers x in max0 - res * [gx, gx + 1], y alike, where max0 is
// the corner of the initial grid: independent of growth.
struct World {
  double res;
  Eigen::Vector2d max0;
  Eigen::Vector2d ToCells(const Eigen::Vector2f& p) const {
    return Eigen::Vector2d((max0.x() - p.x()) / res, (max0.y() - p.y()) / res);
  }
};

Snapshot Take(const mapping::ProbabilityGrid& grid, const World& w,
              const char* when) {
  Snapshot s;
  const auto& limits = grid.limits();
  const Eigen::Vector2d shift = (limits.max() - w.max0) / w.res;
  const int sx = std::lround(shift.x()), sy = std::lround(shift.y());
  VH_EXPECT(std::abs(shift.x() - sx) < 1e-3 && std::abs(shift.y() - sy) < 1e-3,
            "grid-shifted", when << ": grid moved by a fraction of a cell");
  for (int i = 0; i < limits.cell_limits().num_x_cells; ++i) {
    for (int j = 0; j < limits.cell_limits().num_y_cells; ++j) {
      const Eigen::Array2i index(i, j);
      if (!grid.IsKnown(index)) continue;
      // The first index runs along y, the second along x.
      s.known[{j - sx, i - sy}] = grid.GetProbability(index);
    }
  }
  return s;
}

double Apply(bool known, double old, double p) {
  const double odds = p / (1. - p);
  const double r = known ? odds * old / (1. - old) : odds;
  return std::min(0.9, std::max(0.1, r / (1. + r)));
}

}  // namespace

VH_SCENARIO(scans, 1600, 40000) {
  mapping::ValueConversionTables tables;
  World w;
  w.res = rng.Chance(0.5) ? 0.05 : rng.Real(0.02, 0.6);
  const double offset = rng.Chance(0.3) ? 200. : 3.;
  w.max0 = Eigen::Vector2d(rng.Real(-offset, offset),
                           rng.Real(-offset, offset));
  if (rng.Chance(0.4)) w.max0 = Eigen::Vector2d(w.res * 4, w.res * 3);
  mapping::ProbabilityGrid grid(
      mapping::MapLimits(w.res, w.max0,
                         mapping::CellLimits(rng.Int(1, 40), rng.Int(1, 40))),
      &tables);
  mapping::proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(rng.Real(0.51, 0.89));
  options.set_miss_probability(rng.Real(0.11, 0.49));
  options.set_insert_free_space(rng.Chance(0.8));
  const mapping::ProbabilityGridRangeDataInserter2D inserter(options);
  const int scans = rng.Int(1, 5);
  vh::Digest digest;
  uint64_t hits_seen = 0, misses_seen = 0, shared = 0;
  const int spread = rng.Int(2, 45);
  for (int scan = 0; scan < scans; ++scan) {
    // Points inside cells, away from the borders.
    auto point = [&]() {
      const double cx = rng.Int(-spread, spread) + rng.Real(0.02, 0.98);
      const double cy = rng.Int(-spread, spread) + rng.Real(0.02, 0.98);
      return Eigen::Vector3f(w.max0.x() - cx * w.res, w.max0.y() - cy * w.res,
                             rng.Real(-1., 1.));
    };
    sensor::RangeData data;
    data.origin = point();
    std::vector<sensor::RangefinderPoint> returns, misses;
    const int n = rng.Int(0, rng.Chance(0.3) ? 40 : 6);
    const int m = rng.Int(0, 6);
    for (int i = 0; i < n; ++i) {
      Eigen::Vector3f p = point();
      if (i > 0 && rng.Chance(0.3)) {
        // Several returns in one cell, or along the same ray.
        p = returns[rng.Int(0, i - 1)].position;
        if (rng.Chance(0.5)) {
          p = data.origin + (p - data.origin) * static_cast<float>(
                                                    rng.Real(0.2, 1.5));
        }
      } else if (rng.Chance(0.2)) {
        p[rng.Int(0, 1)] = data.origin[rng.Int(0, 0)];
      } else if (rng.Chance(0.3)) {
        const int k = rng.Int(0, 1);
        p[k] = data.origin[k];  // along an axis
      }
      returns.push_back({p});
    }
    for (int i = 0; i < m; ++i) misses.push_back({point()});
    // Keep clear of borders so that the containing cell is unambiguous.
    auto clear = [&](const Eigen::Vector3f& p) {
      const Eigen::Vector2d c = w.ToCells(p.head<2>());
      for (int k = 0; k < 2; ++k) {
        const double f = c[k] - std::floor(c[k]);
        if (f < 0.005 || f > 0.995) return false;
      }
      return (c.array().abs() < 200.).all();
    };
    std::vector<sensor::RangefinderPoint> kept;
    for (const auto& r : returns) {
      if (clear(r.position)) kept.push_back(r);
    }
    if (!clear(data.origin)) continue;
    data.returns = sensor::PointCloud(kept);
    data.misses = sensor::PointCloud(misses);
    const Snapshot before = Take(grid, w, "before");
    inserter.Insert(data, &grid);
    const Snapshot after = Take(grid, w, "after");

    const Eigen::Vector2d a = w.ToCells(data.origin.head<2>());
    std::set<Cell> hit;
    for (const auto& r : kept) {
      const Eigen::Vector2d c = w.ToCells(r.position.head<2>());
      const Cell cell(std::floor(c.x()), std::floor(c.y()));
      shared += !hit.insert(cell).second;
      VH_EXPECT(grid.limits().Contains(
                    grid.limits().GetCellIndex(r.position.head<2>())),
                "not-grown", "a return is outside the grid");
    }
    std::vector<std::pair<Eigen::Vector2d, Eigen::Vector2d>> rays;
    if (options.insert_free_space()) {
      for (const auto& r : kept) {
        rays.push_back({a, w.ToCells(r.position.head<2>())});
      }
      for (const auto& r : misses) {
        rays.push_back({a, w.ToCells(r.position.head<2>())});
      }
    }
    std::set<Cell> certain, possible;
    for (const auto& ray : rays) {
      ray2d::NearbyCells(ray.first, ray.second, [&](int x, int y) {
        if (ray2d::Certainly(ray.first, ray.second, x, y)) {
          certain.insert({x, y});
        }
        if (ray2d::Possibly(ray.first, ray.second, x, y)) {
          possible.insert({x, y});
        }
      });
    }
    std::set<Cell> all = hit;
    all.insert(possible.begin(), possible.end());
    for (const auto& k : before.known) all.insert(k.first);
    for (const auto& k : after.known) all.insert(k.first);
    for (const Cell& c : all) {
      const auto b = before.known.find(c), x = after.known.find(c);
      const bool was = b != before.known.end(), is = x != after.known.end();
      const double old = was ? b->second : 0.;
      const double got = is ? x->second : -1.;
      const double with_hit = Apply(was, old, options.hit_probability());
      const double with_miss = Apply(was, old, options.miss_probability());
      constexpr double kTol = 6e-5;
      auto where = [&]() {
        return VH_STR("cell " << c.first << "," << c.second << " before "
                              << (was ? VH_STR(old) : "unknown") << " after "
                              << (is ? VH_STR(got) : "unknown") << " res "
                              << w.res << " origin " << a.transpose());
      };
      if (hit.count(c)) {
        VH_EXPECT(is && std::abs(got - with_hit) < kTol, "hit-update",
                  where() << ": one hit gives " << with_hit);
        ++hits_seen;
      } else if (certain.count(c)) {
        VH_EXPECT(is && std::abs(got - with_miss) < kTol, "miss-update",
                  where() << ": one miss gives " << with_miss);
        ++misses_seen;
      } else if (possible.count(c)) {
        VH_EXPECT((is == was && (!is || got == b->second)) ||
                      (is && std::abs(got - with_miss) < kTol),
                  "border-update", where());
        vh::Count("border_cells");
      } else {
        VH_EXPECT(is == was && (!is || x->second == b->second),
                  "unrelated-cell", where() << ": no ray touches it");
      }
      if (is) digest.Add(c.first * 1000 + c.second).AddD(got);
    }
  }
  vh::Count("hit_updates", hits_seen);
  vh::Count("miss_updates", misses_seen);
  vh::Count("returns_sharing_a_cell", shared);
  if (hits_seen > 0 && misses_seen > 0) vh::Distinct(digest.Get());
  vh::Sample(VH_STR(scans << " scans, " << hits_seen << " hit and "
                          << misses_seen << " miss updates, res " << w.res));
}

// Points exactly on cell borders and grid corners: whatever cell they count
// for, nothing is lost and nothing crashes.
VH_SCENARIO(borders, 3000, 60000) {
  mapping::ValueConversionTables tables;
  const double res = rng.Chance(0.5) ? 0.05
                     : rng.Chance(0.5) ? 0.1
                                       : 1. / rng.Int(3, 40);
  const int cx = rng.Int(1, 60), cy = rng.Int(1, 60);
  const int far = rng.Chance(0.5) ? 0 : rng.Int(1, 3000);
  const Eigen::Vector2d max0(res * rng.Int(-far - 3, far + 3),
                             res * rng.Int(-far - 3, far + 3));
  mapping::ProbabilityGrid grid(
      mapping::MapLimits(res, max0, mapping::CellLimits(cx, cy)), &tables);
  mapping::proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(0.55);
  options.set_miss_probability(0.49);
  options.set_insert_free_space(rng.Chance(0.9));
  const mapping::ProbabilityGridRangeDataInserter2D inserter(options);
  for (int scan = 0; scan < 2; ++scan) {
    auto point = [&]() {
      auto coordinate = [&](double max, int cells) {
        const int c = rng.Chance(0.5) ? (rng.Chance(0.5) ? 0 : cells)
                                      : rng.Int(-5, cells + 5);
        double v = max - res * c;
        float f = static_cast<float>(v);
        if (rng.Chance(0.3)) {
          f = std::nextafter(f, rng.Chance(0.5) ? 1e9f : -1e9f);
        }
        return f;
      };
      return Eigen::Vector3f(coordinate(max0.x(), cy),
                             coordinate(max0.y(), cx), 0.f);
    };
    sensor::RangeData data;
    data.origin = point();
    std::vector<sensor::RangefinderPoint> returns;
    const int n = rng.Int(1, 5);
    for (int i = 0; i < n; ++i) returns.push_back({point()});
    data.returns = sensor::PointCloud(returns);
    inserter.Insert(data, &grid);
    for (const auto& r : returns) {
      const Eigen::Array2i i = grid.limits().GetCellIndex(r.position.head<2>());
      bool any = false;
      for (int dx = -1; dx <= 1; ++dx) {
        for (int dy = -1; dy <= 1; ++dy) {
          const Eigen::Array2i j = i + Eigen::Array2i(dx, dy);
          any |= grid.IsKnown(j) && grid.GetProbability(j) > 0.5f;
        }
      }
      VH_EXPECT(any, "border-return-lost",
                "no occupied cell next to return " << r.position.transpose());
    }
    vh::Count("border_points", n + 1);
  }
}

// The update tables themselves, for every cell value.
VH_SCENARIO(tables, 6, 100) {
  const float p = rng.Chance(0.5) ? rng.Real(0.5, 0.9) : rng.Real(0.1, 0.5);
  const auto cost = mapping::ComputeLookupTableToApplyCorrespondenceCostOdds(
      mapping::Odds(p));
  const auto prob = mapping::ComputeLookupTableToApplyOdds(mapping::Odds(p));
  VH_EXPECT(cost.size() == 32768 && prob.size() == 32768, "table-size",
            cost.size());
  double last = -1.;
  for (int v = 0; v < 32768; ++v) {
    VH_EXPECT(cost[v] >= mapping::kUpdateMarker &&
                  prob[v] >= mapping::kUpdateMarker &&
                  cost[v] != mapping::kUpdateMarker &&
                  prob[v] != mapping::kUpdateMarker,
              "update-marker", v);
    const double pv = mapping::ValueToProbability(v);
    const double cv =
        1. - mapping::ValueToCorrespondenceCost(v);  // probability
    VH_EXPECT(std::abs(mapping::ValueToProbability(prob[v]) -
                       Apply(v != 0, pv, p)) < 6e-5,
              "odds-table", "value " << v);
    VH_EXPECT(std::abs(1. - mapping::ValueToCorrespondenceCost(cost[v]) -
                       Apply(v != 0, cv, p)) < 6e-5,
              "cost-odds-table", "value " << v);
    if (v > 0) {
      VH_EXPECT(pv > last && pv >= 0.1 - 1e-6 && pv <= 0.9 + 1e-6,
                "value-order", "value " << v);
      last = pv;
      VH_EXPECT(mapping::ProbabilityToValue(pv) == v, "value-round-trip", v);
      VH_EXPECT(mapping::CorrespondenceCostToValue(
                    mapping::ValueToCorrespondenceCost(v)) == v,
                "cost-round-trip", v);
    }
    for (int marker = 0; marker < 2; ++marker) {
      const int x = v + marker * 32768;
      if (v == 0 && marker == 1) continue;
      const int y = mapping::ProbabilityValueToCorrespondenceCostValue(x);
      const int z = mapping::CorrespondenceCostValueToProbabilityValue(y);
      VH_EXPECT(z == x && (y >= 32768) == (x >= 32768) && (y == 0) == (x == 0),
                "value-conversion", x << " -> " << y << " -> " << z);
    }
  }
  vh::Count("table_values", 32768);
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
