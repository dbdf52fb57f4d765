// C13: active submaps hand over on schedule; finished submaps never change.
#include <array>

#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;

namespace {

constexpr int kInitialCells = 100;

// Values of all known cells by position.
using Cells = std::map<std::array<int, 3>, std::pair<float, float>>;

struct World {
  float res;
};

Cells Known(const mapping::Grid2D& grid, const Eigen::Vector2d& anchor) {
  Cells out;
  const auto& l = grid.limits();
  const auto* p = dynamic_cast<const mapping::ProbabilityGrid*>(&grid);
  const auto* t = dynamic_cast<const mapping::TSDF2D*>(&grid);
  for (int y = 0; y < l.cell_limits().num_y_cells; ++y) {
    for (int x = 0; x < l.cell_limits().num_x_cells; ++x) {
      const Eigen::Array2i i(x, y);
      if (!grid.IsKnown(i)) continue;
      // Shift in cells against the initial map limits.
      const int sx = std::lround((l.max().x() - anchor.x()) / l.resolution());
      const int sy = std::lround((l.max().y() - anchor.y()) / l.resolution());
      std::pair<float, float> v;
      if (p != nullptr) {
        v = {p->GetProbability(i), 0.f};
      } else {
        v = t->GetTSDAndWeight(i);
      }
      out[{y - sx, x - sy, 0}] = v;
    }
  }
  return out;
}

Cells Known(const mapping::HybridGrid& grid) {
  Cells out;
  for (const auto& e : grid) {
    out[{e.first.x(), e.first.y(), e.first.z()}] = {
        mapping::ValueToProbability(e.second), 0.f};
  }
  return out;
}

// Number of cells that differ.
size_t Difference(const Cells& a, const Cells& b) {
  size_t n = 0;
  for (const auto& e : a) {
    auto it = b.find(e.first);
    if (it == b.end() || std::abs(it->second.first - e.second.first) > 2e-3 ||
        std::abs(it->second.second - e.second.second) > 2e-2) {
      ++n;
    }
  }
  for (const auto& e : b) n += a.count(e.first) == 0;
  return n;
}

void ExpectSame(const Cells& got, const Cells& expected, bool exact,
                const char* key, const std::string& what) {
  const size_t d = Difference(got, expected);
  // A point within rounding of a cell border may go either way.
  const size_t allowed =
      exact ? 0 : std::max<size_t>(8, expected.size() / 200);
  VH_EXPECT(d <= allowed, key, what << ": " << d << " of " << expected.size()
                                    << " cells differ");
}

sensor::RangeData RandomScan(vh::Rng& rng, const Eigen::Vector3f& origin,
                             bool flat, double range, bool intensities) {
  sensor::RangeData data;
  data.origin = origin;
  const int n = rng.Chance(0.05) ? 1 : rng.Int(3, 25);
  const double phase = rng.Real(-M_PI, M_PI);
  std::vector<sensor::RangefinderPoint> points;
  std::vector<float> values;
  for (int k = 0; k < n; ++k) {
    const double a = phase + 4. * k / n;
    const double r = range * (0.6 + 0.4 * std::sin(3 * a));
    points.push_back({origin + Eigen::Vector3f(
                                   r * std::cos(a), r * std::sin(a),
                                   flat ? 0. : rng.Real(-.4, .4) * range)});
    values.push_back(rng.Real(0., 100.));
  }
  data.returns = intensities ? sensor::PointCloud(points, values)
                             : sensor::PointCloud(points);
  for (int k = rng.Int(0, 4); k > 0; --k) {
    const double a = rng.Real(-M_PI, M_PI);
    data.misses.push_back({origin + Eigen::Vector3f(range * std::cos(a),
                                                    range * std::sin(a), 0.)});
  }
  return data;
}

// What one submap should be.
template <typename Submap>
struct Record {
  std::shared_ptr<const Submap> submap;
  size_t first_scan = 0;
  int scans = 0;
  bool finished = false;
  uint64_t digest = 0;  // of the content when finished
};

template <typename Submap>
uint64_t ContentDigest(const Submap& s) {
  const mapping::proto::Submap proto = s.ToProto(true);
  return vh::Digest().AddS(proto.SerializeAsString()).Get();
}

// Follows the list of active submaps.
template <typename Submap>
class Lifecycle {
 public:
  explicit Lifecycle(int n) : n_(n) {}

  // After scan number 'scan'; returns the newly created one, if any.
  Record<Submap>* Observe(
      size_t scan, const std::vector<std::shared_ptr<const Submap>>& active) {
    VH_EXPECT(!active.empty() && active.size() <= 2, "active-count",
              active.size() << " active submaps");
    Record<Submap>* created = nullptr;
    if (scan % n_ == 0) {
      for (const auto& r : records) {
        VH_EXPECT(r.submap != active.back(), "not-created",
                  "no new submap at scan " << scan << " with size " << n_);
      }
      records.emplace_back();
      records.back().submap = active.back();
      records.back().first_scan = scan;
      created = &records.back();
    }
    // The active ones are the newest records in order of creation.
    const size_t expected = std::min<size_t>(2, records.size());
    VH_EXPECT(active.size() == expected, "active-count",
              active.size() << " active, expected " << expected);
    for (size_t i = 0; i < expected; ++i) {
      auto& r = records[records.size() - expected + i];
      VH_EXPECT(r.submap == active[i], "active-order",
                "scan " << scan << " position " << i);
      VH_EXPECT(!r.finished, "finished-active", "scan " << scan);
      ++r.scans;
      VH_EXPECT(r.submap->num_range_data() == r.scans, "scan-count",
                r.submap->num_range_data() << " expected " << r.scans);
      const bool finish = r.scans == 2 * n_;
      VH_EXPECT(r.submap->insertion_finished() == finish, "finish-time",
                "submap with " << r.scans << " scans of size " << n_
                               << " finished "
                               << r.submap->insertion_finished());
      if (finish) {
        r.finished = true;
        r.digest = ContentDigest(*r.submap);
        vh::Count("finished_submaps");
      }
    }
    return created;
  }

  void CheckFinished() {
    for (const auto& r : records) {
      if (!r.finished) continue;
      VH_EXPECT(r.submap->insertion_finished() &&
                    r.submap->num_range_data() == 2 * n_,
                "finished-state", r.submap->num_range_data());
      VH_EXPECT(ContentDigest(*r.submap) == r.digest, "finished-changed",
                "a finished submap changed");
      vh::Count("finished_rechecks");
    }
  }

  std::vector<Record<Submap>> records;

 private:
  const int n_;
};

void ExpectPose(const transform::Rigid3d& a, const transform::Rigid3d& b,
                const char* key) {
  VH_EXPECT((a.translation() - b.translation()).norm() < 1e-9 &&
                a.rotation().angularDistance(b.rotation()) < 1e-9,
            key, a << " expected " << b);
}

mapping::proto::TSDFRangeDataInserterOptions2D TsdfOptions(vh::Rng& rng) {
  mapping::proto::TSDFRangeDataInserterOptions2D o;
  o.set_truncation_distance(rng.Chance(0.5) ? 0.3 : 0.6);
  o.set_maximum_weight(10.);
  o.set_update_free_space(rng.Chance(0.3));
  o.mutable_normal_estimation_options()->set_num_normal_samples(4);
  o.mutable_normal_estimation_options()->set_sample_radius(0.5);
  o.set_project_sdf_distance_to_scan_normal(rng.Chance(0.5));
  o.set_update_weight_range_exponent(0);
  o.set_update_weight_angle_scan_normal_to_ray_kernel_bandwidth(0.5);
  o.set_update_weight_distance_cell_to_hit_kernel_bandwidth(0.5);
  return o;
}

// Number of scans a submap is made of in this case.
int SubmapSize(vh::Rng& rng) {
  return rng.Chance(0.15) ? 1 : rng.Chance(0.8) ? rng.Int(2, 6)
                                                : rng.Int(7, 15);
}

void Run2D(vh::Rng& rng, bool tsdf) {
  const int n = SubmapSize(rng);
  mapping::proto::SubmapsOptions2D options;
  options.set_num_range_data(n);
  const float res = tsdf ? 0.15f : 0.1f;
  options.mutable_grid_options_2d()->set_resolution(res);
  options.mutable_grid_options_2d()->set_grid_type(
      tsdf ? mapping::proto::GridOptions2D::TSDF
           : mapping::proto::GridOptions2D::PROBABILITY_GRID);
  auto* inserter_options = options.mutable_range_data_inserter_options();
  inserter_options->set_range_data_inserter_type(
      tsdf ? mapping::proto::RangeDataInserterOptions::TSDF_INSERTER_2D
           : mapping::proto::RangeDataInserterOptions::
                 PROBABILITY_GRID_INSERTER_2D);
  auto* po = inserter_options
                 ->mutable_probability_grid_range_data_inserter_options_2d();
  po->set_insert_free_space(rng.Chance(0.8));
  po->set_hit_probability(0.53);
  po->set_miss_probability(0.493);
  *inserter_options->mutable_tsdf_range_data_inserter_options_2d() =
      TsdfOptions(rng);
  const auto& to = inserter_options->tsdf_range_data_inserter_options_2d();

  mapping::ActiveSubmaps2D active(options);
  VH_EXPECT(active.submaps().empty(), "initially-empty", "");
  std::unique_ptr<mapping::RangeDataInserterInterface> inserter;
  if (tsdf) {
    inserter.reset(new mapping::TSDFRangeDataInserter2D(to));
  } else {
    inserter.reset(new mapping::ProbabilityGridRangeDataInserter2D(*po));
  }
  static mapping::ValueConversionTables tables;
  auto fresh = [&](const Eigen::Vector2d& max) {
    const mapping::MapLimits limits(
        res, max, mapping::CellLimits(kInitialCells, kInitialCells));
    return tsdf ? std::unique_ptr<mapping::Grid2D>(new mapping::TSDF2D(
                      limits, to.truncation_distance(), to.maximum_weight(),
                      &tables))
                : std::unique_ptr<mapping::Grid2D>(
                      new mapping::ProbabilityGrid(limits, &tables));
  };

  Lifecycle<mapping::Submap2D> life(n);
  std::vector<std::unique_ptr<mapping::Grid2D>> shadows;
  std::vector<Eigen::Vector2d> anchors;
  Eigen::Vector3f origin(rng.Real(-20, 20), rng.Real(-20, 20),
                         rng.Chance(0.5) ? 0. : 0.2);
  const int scans = rng.Int(1, 4 * n + 3);
  const double range = rng.Real(0.8, tsdf ? 3. : 5.);
  for (int s = 0; s < scans; ++s) {
    origin += Eigen::Vector3f(rng.Real(-1, 1.5), rng.Real(-1, 1.5), 0.f);
    const sensor::RangeData data =
        RandomScan(rng, origin, true, range, rng.Chance(0.3));
    const auto returned = active.InsertRangeData(data);
    const auto listed = active.submaps();
    VH_EXPECT(returned == listed, "returned-submaps", "");
    if (auto* created = life.Observe(s, listed)) {
      ExpectPose(created->submap->local_pose(),
                 transform::Rigid3d::Translation(
                     Eigen::Vector3d(origin.x(), origin.y(), 0.)),
                 "submap-pose");
      const Eigen::Vector2d max =
          origin.head<2>().cast<double>() +
          0.5 * kInitialCells * res * Eigen::Vector2d::Ones();
      // The grid's cells are those of its limits, which may have grown.
      const auto& l = created->submap->grid()->limits();
      const Eigen::Vector2d d = (l.max() - max) / res;
      VH_EXPECT(std::abs(d.x() - std::round(d.x())) < 1e-3 &&
                    std::abs(d.y() - std::round(d.y())) < 1e-3,
                "submap-grid-placement", d.transpose());
      VH_EXPECT(std::abs(l.resolution() - res) < 1e-6, "submap-resolution",
                l.resolution());
      anchors.push_back(max);
      shadows.push_back(fresh(max));
    }
    const size_t count = life.records.size();
    for (size_t i = count - listed.size(); i < count; ++i) {
      inserter->Insert(data, shadows[i].get());
    }
    if (s + 1 == scans || rng.Chance(0.3)) {
      for (size_t i = count - listed.size(); i < count; ++i) {
        ExpectSame(Known(*life.records[i].submap->grid(), anchors[i]),
                   Known(*shadows[i], anchors[i]), false, "submap-content",
                   VH_STR("submap " << i << " after scan " << s));
      }
      life.CheckFinished();
    }
  }
  // Storing, for finished and unfinished ones.
  for (size_t i = 0; i < life.records.size(); ++i) {
    const auto& submap = *life.records[i].submap;
    const Cells cells = Known(*submap.grid(), anchors[i]);
    ExpectSame(cells, Known(*shadows[i], anchors[i]), false,
               "final-submap-content", VH_STR("submap " << i));
    mapping::proto::Submap proto;
    VH_EXPECT(proto.ParseFromString(submap.ToProto(true).SerializeAsString()),
              "parse", "");
    VH_EXPECT(proto.has_submap_2d() && !proto.has_submap_3d(), "kind", "");
    const mapping::Submap2D loaded(proto.submap_2d(), &tables);
    mapping::proto::Submap head;
    VH_EXPECT(head.ParseFromString(submap.ToProto(false).SerializeAsString()),
              "parse", "");
    VH_EXPECT(!head.submap_2d().has_grid(), "grid-included", "");
    mapping::Submap2D updated(head.submap_2d(), &tables);
    for (const auto* m : {&loaded, (const mapping::Submap2D*)&updated}) {
      ExpectPose(m->local_pose(), submap.local_pose(), "loaded-pose");
      VH_EXPECT(m->num_range_data() == submap.num_range_data() &&
                    m->insertion_finished() == submap.insertion_finished(),
                "loaded-state", m->num_range_data());
    }
    VH_EXPECT(updated.grid() == nullptr, "grid-from-nowhere", "");
    updated.UpdateFromProto(proto);
    for (const auto* m : {&loaded, (const mapping::Submap2D*)&updated}) {
      VH_EXPECT(m->grid() != nullptr, "loaded-grid", "");
      VH_EXPECT(m->num_range_data() == submap.num_range_data() &&
                    m->insertion_finished() == submap.insertion_finished(),
                "updated-state", m->num_range_data());
      ExpectSame(Known(*m->grid(), anchors[i]), cells, true, "loaded-content",
                 VH_STR("submap " << i));
    }
    vh::Count("round_trips");
    vh::Max("known_cells", cells.size());
  }
  vh::Count("scans", scans);
  if (scans > 2 * n) {
    vh::Digest d;
    for (const auto& r : life.records) d.Add(r.digest);
    vh::Distinct(d.Get());
  }
  // A finished submap refuses data.
  for (const auto& r : life.records) {
    if (!r.finished || !rng.Chance(0.02)) continue;
    const auto outcome = vh::RunForked([&]() {
      const_cast<mapping::Submap2D*>(r.submap.get())
          ->InsertRangeData(RandomScan(rng, origin, true, 1., false),
                            inserter.get());
    });
    VH_EXPECT(outcome == vh::Outcome::kRefused, "finished-accepts",
              "a finished submap accepted a scan");
    vh::Count("refusals");
  }
}

}  // namespace

VH_SCENARIO(probability_submaps, 400, 8000) { Run2D(rng, false); }
VH_SCENARIO(tsdf_submaps, 200, 4000) { Run2D(rng, true); }

VH_SCENARIO(submaps_3d, 600, 12000) {
  const int n = SubmapSize(rng);
  mapping::proto::SubmapsOptions3D options;
  options.set_num_range_data(n);
  options.set_high_resolution(rng.Chance(0.5) ? 0.1 : 0.2);
  options.set_low_resolution(rng.Chance(0.5) ? 0.45 : 0.7);
  const float max_range = rng.Real(1., 4.);
  options.set_high_resolution_max_range(max_range);
  auto* io = options.mutable_range_data_inserter_options();
  io->set_hit_probability(0.55);
  io->set_miss_probability(0.49);
  io->set_num_free_space_voxels(rng.Int(0, 3));
  io->set_intensity_threshold(60.);
  mapping::ActiveSubmaps3D active(options);
  VH_EXPECT(active.submaps().empty(), "initially-empty", "");
  const mapping::RangeDataInserter3D inserter(*io);
  struct Shadow {
    std::unique_ptr<mapping::HybridGrid> high, low;
    std::unique_ptr<mapping::IntensityHybridGrid> intensity;
    Eigen::VectorXf histogram;
  };
  std::vector<Shadow> shadows;
  Lifecycle<mapping::Submap3D> life(n);
  Eigen::Vector3f origin(rng.Real(-20, 20), rng.Real(-20, 20),
                         rng.Real(-2, 2));
  const int scans = rng.Int(1, 4 * n + 3);
  const int buckets = rng.Int(10, 120);
  const double range = rng.Real(1., 5.);
  double yaw = rng.Real(-M_PI, M_PI);
  for (int s = 0; s < scans; ++s) {
    origin += Eigen::Vector3f(rng.Real(-1, 1.5), rng.Real(-1, 1.5),
                              rng.Real(-.2, .2));
    yaw += rng.Real(-.5, .8);
    const Eigen::Quaterniond gravity =
        Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) *
        Eigen::AngleAxisd(rng.Real(-.2, .2), Eigen::Vector3d::UnitX());
    const sensor::RangeData data =
        RandomScan(rng, origin, false, range, rng.Chance(0.7));
    Eigen::VectorXf histogram(buckets);
    for (int i = 0; i < buckets; ++i) histogram[i] = rng.Real(0., 3.);
    const auto returned = active.InsertData(data, gravity, histogram);
    const auto listed = active.submaps();
    VH_EXPECT(returned == listed, "returned-submaps", "");
    if (auto* created = life.Observe(s, listed)) {
      ExpectPose(created->submap->local_pose(),
                 transform::Rigid3d(origin.cast<double>(), gravity),
                 "submap-pose");
      Shadow shadow;
      shadow.high.reset(new mapping::HybridGrid(options.high_resolution()));
      shadow.low.reset(new mapping::HybridGrid(options.low_resolution()));
      shadow.intensity.reset(
          new mapping::IntensityHybridGrid(options.high_resolution()));
      shadow.histogram = Eigen::VectorXf::Zero(buckets);
      shadows.push_back(std::move(shadow));
    }
    const size_t count = life.records.size();
    for (size_t i = count - listed.size(); i < count; ++i) {
      const auto& submap = *life.records[i].submap;
      const sensor::RangeData in_submap = sensor::TransformRangeData(
          data, submap.local_pose().inverse().cast<float>());
      sensor::RangeData close{in_submap.origin, {}, {}};
      std::vector<sensor::RangefinderPoint> points;
      std::vector<float> values;
      for (size_t k = 0; k < in_submap.returns.size(); ++k) {
        if ((in_submap.returns[k].position - in_submap.origin).norm() >
            max_range) {
          continue;
        }
        points.push_back(in_submap.returns[k]);
        if (!data.returns.intensities().empty()) {
          values.push_back(data.returns.intensities()[k]);
        }
      }
      close.returns = sensor::PointCloud(points, values);
      inserter.Insert(close, shadows[i].high.get(),
                      shadows[i].intensity.get());
      inserter.Insert(in_submap, shadows[i].low.get(), nullptr);
      shadows[i].histogram +=
          mapping::scan_matching::RotationalScanMatcher::RotateHistogram(
              histogram,
              transform::GetYaw(submap.local_pose().inverse().rotation() *
                                gravity));
    }
    if (s + 1 == scans || rng.Chance(0.3)) {
      for (size_t i = count - listed.size(); i < count; ++i) {
        const auto& submap = *life.records[i].submap;
        Cells got, expected;
        for (const auto& e : *shadows[i].high) {
          const std::array<int, 3> k = {e.first.x(), e.first.y(),
                                        e.first.z()};
          got[k] = {submap.high_resolution_intensity_hybrid_grid()
                            .GetIntensity(e.first) / 100.f, 0.f};
          expected[k] = {shadows[i].intensity->GetIntensity(e.first) / 100.f,
                         0.f};
        }
        ExpectSame(got, expected, false, "intensity-content",
                   VH_STR("submap " << i << " after scan " << s));
      }
      life.CheckFinished();
    }
  }
  for (size_t i = 0; i < life.records.size(); ++i) {
    const auto& submap = *life.records[i].submap;
    const Cells high = Known(submap.high_resolution_hybrid_grid());
    const Cells low = Known(submap.low_resolution_hybrid_grid());
    ExpectSame(high, Known(*shadows[i].high), false, "high-content",
               VH_STR("submap " << i));
    ExpectSame(low, Known(*shadows[i].low), false, "low-content",
               VH_STR("submap " << i));
    auto same_histogram = [](const Eigen::VectorXf& a,
                             const Eigen::VectorXf& b, double tol) {
      return a.size() == b.size() &&
             (a - b).lpNorm<Eigen::Infinity>() <= tol;
    };
    VH_EXPECT(same_histogram(submap.rotational_scan_matcher_histogram(),
                             shadows[i].histogram, 2e-2),
              "histogram", "submap " << i);
    mapping::proto::Submap proto, head;
    VH_EXPECT(
        proto.ParseFromString(submap.ToProto(true).SerializeAsString()) &&
            head.ParseFromString(submap.ToProto(false).SerializeAsString()),
        "parse", "");
    VH_EXPECT(proto.has_submap_3d() && !proto.has_submap_2d(), "kind", "");
    VH_EXPECT(!head.submap_3d().has_high_resolution_hybrid_grid() &&
                  !head.submap_3d().has_low_resolution_hybrid_grid(),
              "grid-included", "");
    const mapping::Submap3D loaded(proto.submap_3d());
    mapping::Submap3D updated(head.submap_3d());
    VH_EXPECT(updated.num_range_data() == submap.num_range_data() &&
                  updated.insertion_finished() == submap.insertion_finished(),
              "loaded-state", updated.num_range_data());
    updated.UpdateFromProto(proto);
    for (const auto* m : {&loaded, (const mapping::Submap3D*)&updated}) {
      ExpectPose(m->local_pose(), submap.local_pose(), "loaded-pose");
      VH_EXPECT(m->num_range_data() == submap.num_range_data() &&
                    m->insertion_finished() == submap.insertion_finished(),
                "updated-state", m->num_range_data());
      ExpectSame(Known(m->high_resolution_hybrid_grid()), high, true,
                 "loaded-high", VH_STR("submap " << i));
      ExpectSame(Known(m->low_resolution_hybrid_grid()), low, true,
                 "loaded-low", VH_STR("submap " << i));
      VH_EXPECT(same_histogram(m->rotational_scan_matcher_histogram(),
                               submap.rotational_scan_matcher_histogram(), 0.),
                "loaded-histogram", "submap " << i);
    }
    vh::Count("round_trips");
  }
  vh::Count("scans", scans);
  if (scans > 2 * n) {
    vh::Digest d;
    for (const auto& r : life.records) d.Add(r.digest);
    vh::Distinct(d.Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
