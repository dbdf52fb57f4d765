// C18: local SLAM in 2D and 3D.
#include <map>
#include <set>

#include "cartographer/mapping/internal/2d/local_trajectory_builder_2d.h"
#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_3d.h"
#include "cartographer/mapping/internal/3d/local_trajectory_builder_options_3d.h"
#include "cartographer/transform/transform.h"
#include "sim.h"
#include "vh.h"

namespace common = cartographer::common;
namespace m = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace tf = cartographer::transform;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using sim::T;
using sim::kTick;
using tf::Rigid3d;

namespace {

m::proto::LocalTrajectoryBuilderOptions2D Options2D() {
  static const auto* options = new m::proto::LocalTrajectoryBuilderOptions2D(
      m::CreateLocalTrajectoryBuilderOptions2D(
          sim::Lua("include \"trajectory_builder_2d.lua\"\n"
                   "return TRAJECTORY_BUILDER_2D")
              .get()));
  return *options;
}
m::proto::LocalTrajectoryBuilderOptions3D Options3D() {
  static const auto* options = new m::proto::LocalTrajectoryBuilderOptions3D(
      m::CreateLocalTrajectoryBuilderOptions3D(
          sim::Lua("MAX_3D_RANGE = 60.\n"
                   "include \"trajectory_builder_3d.lua\"\n"
                   "return TRAJECTORY_BUILDER_3D")
              .get()));
  return *options;
}

void UseTsdf(m::proto::LocalTrajectoryBuilderOptions2D* o) {
  o->mutable_submaps_options()->mutable_grid_options_2d()->set_grid_type(
      m::proto::GridOptions2D::TSDF);
  o->mutable_submaps_options()
      ->mutable_range_data_inserter_options()
      ->set_range_data_inserter_type(
          m::proto::RangeDataInserterOptions::TSDF_INSERTER_2D);
}

void RandomMotionFilter(vh::Rng& rng, m::proto::MotionFilterOptions* o) {
  o->set_max_time_seconds(rng.Chance(0.3) ? 1e6 : rng.Real(0.05, 1.5));
  o->set_max_distance_meters(rng.Chance(0.3) ? 1e6 : rng.Real(0.01, 0.5));
  o->set_max_angle_radians(rng.Chance(0.3) ? 10. : rng.Real(0.01, 0.4));
}

// Scans are inserted exactly if the motion since the last inserted one exceeds
// a threshold.
struct Gate {
  m::proto::MotionFilterOptions o;
  bool any = false;
  common::Time time;
  Rigid3d pose;
  int inserted = 0, skipped = 0;

  void Check(common::Time t, const Rigid3d& p, bool was_inserted) {
    bool expect = true, sure = true;
    if (any) {
      const double dt = common::ToSeconds(t - time);
      const double d = (p.translation() - pose.translation()).norm();
      const double a = p.rotation().angularDistance(pose.rotation());
      const double e[3] = {dt - o.max_time_seconds(),
                           d - o.max_distance_meters(),
                           a - o.max_angle_radians()};
      expect = e[0] > 0 || e[1] > 0 || e[2] > 0;
      // Exactly on a threshold either way is fine.
      bool above = false, edge = false;
      for (double x : e) {
        above |= x > 1e-6;
        edge |= std::abs(x) <= 1e-6;
      }
      sure = above || !edge;
    }
    if (sure) {
      VH_EXPECT(expect == was_inserted, "insertion gate",
                "expected " << (expect ? "an insertion" : "no insertion")
                            << " after " << inserted << " inserted");
    }
    if (was_inserted) {
      any = true;
      time = t;
      pose = p;
      ++inserted;
    } else {
      ++skipped;
    }
  }
};

// Every inserted scan goes into all active submaps, of which there are at most
// two and to which nothing is added otherwise.
template <typename SubmapType>
struct SubmapWatch {
  int limit;  // scans until the next submap starts
  std::map<const SubmapType*, int> counts;
  std::vector<std::shared_ptr<const SubmapType>> keep;

  void Check(const std::vector<std::shared_ptr<const SubmapType>>& submaps) {
    VH_EXPECT(submaps.size() == 1 || submaps.size() == 2,
              "number of active submaps", submaps.size());
    for (const auto& s : submaps) {
      if (!counts.count(s.get())) keep.push_back(s);
      ++counts[s.get()];
    }
    for (const auto& s : keep) {
      const int n = s->num_range_data();
      VH_EXPECT(n == counts[s.get()], "scans in an active submap",
                n << " instead of " << counts[s.get()]);
      VH_EXPECT(s->insertion_finished() == (n >= 2 * limit),
                "submap finished after the configured number of scans", n);
    }
  }
};

// The returned range data is the given scan (all points of one moment) moved
// by the returned pose.
struct ScanCheck {
  Rigid3d pose;
  Quaterniond gravity;
  double min_range, max_range, min_z, max_z, miss_length, voxel, reach;
  bool misses = true;
  int far = 0, near = 0, in_band = 0;

  void Check(const sensor::TimedPointCloudData& scan,
             const sensor::RangeData& got) {
    VH_EXPECT((got.origin.cast<double>() - pose.translation()).norm() < 1e-4,
              "origin of the range data", got.origin.transpose());
    std::vector<Vector3d> returns, rays;
    std::vector<bool> sure, rays_sure;
    const Vector3d origin = scan.origin.cast<double>();
    for (const auto& r : scan.ranges) {
      const Vector3d p = r.position.cast<double>();
      const double range = (p - origin).norm();
      bool certain = std::abs(range - min_range) > 1e-3 &&
                     std::abs(range - max_range) > 1e-3;
      if (range < min_range - 1e-3) {
        ++near;
        continue;
      }
      auto band = [&](const Vector3d& q) {
        const double z = (gravity * q).z();
        if (std::abs(z - min_z) < 1e-3 || std::abs(z - max_z) < 1e-3) {
          certain = false;
          return true;
        }
        return z > min_z && z < max_z;
      };
      if (range <= max_range + 1e-3 && band(p)) {
        returns.push_back(p);
        sure.push_back(certain);
        ++in_band;
      }
      if (range >= max_range - 1e-3) {
        const Vector3d q = origin + miss_length / range * (p - origin);
        certain = std::abs(range - max_range) > 1e-3;
        if (band(q)) {
          rays.push_back(q);
          rays_sure.push_back(certain);
        }
        ++far;
      }
    }
    const Rigid3d back = pose.inverse();
    const double tol = 2e-4 + 1e-5 * pose.translation().norm();
    std::vector<Vector3d> got_returns;
    for (const auto& g : got.returns) {
      const Vector3d q = back * g.position.cast<double>();
      got_returns.push_back(q);
      double best = 1e30;
      for (const auto& p : returns) best = std::min(best, (p - q).norm());
      VH_EXPECT(best < tol,
                "returned point is a measured point at the returned pose",
                "off by " << best);
    }
    for (const auto& g : got.misses) {
      const Vector3d q = back * g.position.cast<double>();
      double best = 1e30;
      for (const auto& p : rays) best = std::min(best, (p - q).norm());
      VH_EXPECT(best < tol * 3, "miss ray of a point beyond the range",
                "off by " << best);
    }
    // Nothing but neighbours within a voxel may be dropped.
    for (size_t i = 0; i < returns.size(); ++i) {
      if (!sure[i]) continue;
      double best = 1e30;
      for (const auto& q : got_returns) {
        best = std::min(best, (returns[i] - q).norm());
      }
      VH_EXPECT(best < reach * voxel + tol, "measured point is represented",
                "nearest returned point " << best << " away");
    }
    if (misses) {
      for (size_t i = 0; i < rays.size(); ++i) {
        if (!rays_sure[i]) continue;
        const Vector3d& p = rays[i];
        double best = 1e30;
        for (const auto& g : got.misses) {
          best = std::min(best,
                          (p - back * g.position.cast<double>()).norm());
        }
        VH_EXPECT(best < reach * voxel + 3 * tol + 2e-3,
                  "miss ray is represented", best);
      }
    }
  }
};

// A scan of random points.
sensor::TimedPointCloudData RandomScan(vh::Rng& rng, int64_t t, double span,
                                       double height,
                                       const Eigen::Vector3f& origin) {
  sensor::TimedPointCloudData data;
  data.time = T(t);
  data.origin = origin;
  const int n = rng.Int(1, 80);
  for (int i = 0; i < n; ++i) {
    data.ranges.push_back(
        {Eigen::Vector3f(rng.Real(-span, span), rng.Real(-span, span),
                         rng.Real(-height, height)),
         0.f});
    data.intensities.push_back(rng.Real(0, 255));
  }
  return data;
}

}  // namespace

// Arbitrary scans, no motion model to agree with.
VH_SCENARIO(any_scan_2d, 250, 8000) {
  auto options = Options2D();
  options.set_use_imu_data(rng.Chance(0.5));
  options.set_min_range(rng.Chance(0.5) ? 0. : rng.Real(0.2, 1.));
  options.set_max_range(rng.Real(2., 6.));
  options.set_min_z(-rng.Real(0.1, 1.));
  options.set_max_z(rng.Real(0.1, 1.));
  options.set_missing_data_ray_length(rng.Real(1., 6.));
  options.set_voxel_filter_size(rng.Real(0.02, 0.3));
  options.set_use_online_correlative_scan_matching(rng.Chance(0.15));
  options.mutable_real_time_correlative_scan_matcher_options()
      ->set_angular_search_window(0.1);
  options.mutable_submaps_options()->set_num_range_data(rng.Int(1, 6));
  if (rng.Chance(0.2)) UseTsdf(&options);
  RandomMotionFilter(rng, options.mutable_motion_filter_options());
  Gate gate{options.motion_filter_options()};
  SubmapWatch<m::Submap2D> watch{options.submaps_options().num_range_data()};
  int64_t t = rng.Int(0, 1000);
  common::Time last = common::Time::min();
  int results = 0, far = 0;
  vh::Digest digest;
  // Inertial data: a fixed tilt.
  const Quaterniond tilt =
      sim::Exp(rng.Chance(0.5) ? 0. * Vector3d::UnitX()
                               : Vector3d(rng.Real(-0.2, 0.2),
                                          rng.Real(-0.2, 0.2), 0.));
  const bool level = tilt.vec().norm() < 1e-9 || !options.use_imu_data();
  if (!level) {
    // The estimate of gravity takes time, so the band would not be known.
    options.set_min_z(-1e3);
    options.set_max_z(1e3);
  }
  m::LocalTrajectoryBuilder2D builder(options, {"scan"});
  bool imu_seen = false;
  const Eigen::Vector3f origin(rng.Real(-0.3, 0.3), rng.Real(-0.3, 0.3),
                               rng.Real(-0.1, 0.1));
  auto base = RandomScan(rng, 0, 4., 0.8, origin);
  for (int i = 0, n = rng.Int(2, 14); i < n; ++i) {
    t += rng.Int(1, 3000000);
    if (options.use_imu_data() && rng.Chance(0.7)) {
      builder.AddImuData(sensor::ImuData{
          T(t), tilt.conjugate() * Vector3d(0, 0, 9.8), Vector3d::Zero()});
      imu_seen = true;
      t += rng.Int(0, 1000);
    }
    sensor::TimedPointCloudData scan;
    if (rng.Chance(0.5)) {
      // Slowly moving structure, so that there is something to match.
      scan = base;
      scan.time = T(t);
      const double dx = 0.05 * i;
      for (auto& r : scan.ranges) r.position.x() += dx;
    } else {
      scan = RandomScan(rng, t, rng.Chance(0.8) ? 4. : 0.5, 0.8, origin);
    }
    if (rng.Chance(0.05)) {
      scan.ranges.clear();
      scan.intensities.clear();
    }
    const auto result = builder.AddRangeData("scan", scan);
    if (options.use_imu_data() && !imu_seen) {
      VH_EXPECT(result == nullptr, "no result before inertial data", i);
      continue;
    }
    if (scan.ranges.empty()) {
      VH_EXPECT(result == nullptr, "no result for an empty scan", i);
      continue;
    }
    if (result == nullptr) {
      // Only if nothing is left of the scan.
      int left = 0;
      for (const auto& r : scan.ranges) {
        const double range = (r.position - scan.origin).norm();
        const double z = r.position.z();
        left += range > options.min_range() + 1e-3 &&
                range < options.max_range() - 1e-3 &&
                z > options.min_z() + 0.02 && z < options.max_z() - 0.02;
      }
      VH_EXPECT(left == 0, "scan without result", left << " usable points");
      continue;
    }
    ++results;
    VH_EXPECT(result->time == scan.time, "time of the result", i);
    VH_EXPECT(result->time >= last, "results in time order", i);
    last = result->time;
    const Rigid3d& pose = result->local_pose;
    VH_EXPECT(pose.translation().allFinite() && pose.rotation().coeffs()
                                                    .allFinite(),
              "finite pose", i);
    VH_EXPECT(std::abs(pose.rotation().norm() - 1.) < 1e-6, "unit rotation",
              pose.rotation().norm());
    gate.Check(result->time, pose, result->insertion_result != nullptr);
    Quaterniond gravity = Quaterniond::Identity();
    if (result->insertion_result != nullptr) {
      const auto& data = *result->insertion_result->constant_data;
      watch.Check(result->insertion_result->insertion_submaps);
      VH_EXPECT(data.time == result->time, "node time", i);
      VH_EXPECT((data.local_pose.translation() - pose.translation()).norm() <
                        1e-9 &&
                    data.local_pose.rotation().angularDistance(
                        pose.rotation()) < 1e-6,
                "node pose", i);
      gravity = data.gravity_alignment;
      for (const auto& q : data.filtered_gravity_aligned_point_cloud) {
        double best = 1e30;
        for (const auto& r : scan.ranges) {
          best = std::min(best, (gravity * r.position.cast<double>() -
                                 q.position.cast<double>())
                                    .norm());
        }
        VH_EXPECT(best < 1e-4, "node points are gravity-aligned scan points",
                  best);
      }
      VH_EXPECT(!data.filtered_gravity_aligned_point_cloud.empty(),
                "node has points", i);
    }
    // The pose is planar up to the gravity alignment.
    if (result->insertion_result != nullptr || level) {
      VH_EXPECT((pose.rotation() * (gravity.conjugate() * Vector3d::UnitZ()) -
                 Vector3d::UnitZ())
                        .norm() < 1e-5,
                "planar pose", i);
    }
    VH_EXPECT(std::abs(pose.translation().z()) < 1e-9, "planar position", i);
    ScanCheck check;
    check.pose = pose;
    check.gravity = level ? Quaterniond::Identity() : gravity;
    check.min_range = options.min_range();
    check.max_range = options.max_range();
    check.min_z = options.min_z();
    check.max_z = options.max_z();
    check.miss_length = options.missing_data_ray_length();
    check.voxel = options.voxel_filter_size();
    check.reach = std::sqrt(3.);
    check.Check(scan, result->range_data_in_local);
    far += check.far;
    digest.Add(pose.translation().x());
  }
  vh::Count("any_2d.results", results);
  vh::Count("any_2d.inserted", gate.inserted);
  vh::Count("any_2d.gated", gate.skipped);
  vh::Count("any_2d.beyond_range", far);
  if (results > 1) vh::Distinct(digest.Get());
}

VH_SCENARIO(any_scan_3d, 60, 2000) {
  auto options = Options3D();
  options.set_min_range(rng.Chance(0.5) ? 0. : rng.Real(0.2, 1.));
  options.set_max_range(rng.Real(2., 6.));
  options.set_num_accumulated_range_data(1);
  options.set_voxel_filter_size(rng.Real(0.02, 0.3));
  options.set_use_intensities(rng.Chance(0.3));
  options.mutable_submaps_options()->set_num_range_data(rng.Int(1, 4));
  RandomMotionFilter(rng, options.mutable_motion_filter_options());
  m::LocalTrajectoryBuilder3D builder(options, {"scan"});
  Gate gate{options.motion_filter_options()};
  SubmapWatch<m::Submap3D> watch{options.submaps_options().num_range_data()};
  int64_t t = rng.Int(0, 1000);
  common::Time last = common::Time::min();
  const Quaterniond tilt = sim::Exp(
      Vector3d(rng.Real(-0.4, 0.4), rng.Real(-0.4, 0.4), 0.));
  const Eigen::Vector3f origin(rng.Real(-0.3, 0.3), rng.Real(-0.3, 0.3),
                               rng.Real(-0.3, 0.3));
  const auto base = RandomScan(rng, 0, 3., 3., origin);
  bool imu_seen = false;
  int results = 0;
  vh::Digest digest;
  for (int i = 0, n = rng.Int(2, 8); i < n; ++i) {
    t += rng.Int(1, 3000000);
    if (rng.Chance(imu_seen ? 0.7 : 0.8)) {
      builder.AddImuData(sensor::ImuData{
          T(t), tilt.conjugate() * Vector3d(0, 0, 9.8), Vector3d::Zero()});
      imu_seen = true;
      t += rng.Int(0, 1000);
    }
    sensor::TimedPointCloudData scan;
    if (rng.Chance(0.5)) {
      scan = base;
      scan.time = T(t);
      for (auto& r : scan.ranges) r.position.x() += 0.05 * i;
    } else {
      scan = RandomScan(rng, t, 3., 3., origin);
    }
    const auto result = builder.AddRangeData("scan", scan);
    if (!imu_seen) {
      VH_EXPECT(result == nullptr, "no result before inertial data", i);
      continue;
    }
    if (result == nullptr) {
      int left = 0;
      for (const auto& r : scan.ranges) {
        const double range = (r.position - scan.origin).norm();
        left += range > options.min_range() + 1e-3 &&
                range < options.max_range() - 1e-3;
      }
      // Voxels may have kept a neighbour that is out of range instead.
      VH_EXPECT(left < 3, "scan without result", left << " usable points");
      continue;
    }
    ++results;
    VH_EXPECT(result->time == scan.time, "time of the result", i);
    VH_EXPECT(result->time >= last, "results in time order", i);
    last = result->time;
    const Rigid3d& pose = result->local_pose;
    VH_EXPECT(pose.translation().allFinite() &&
                  pose.rotation().coeffs().allFinite(),
              "finite pose", i);
    gate.Check(result->time, pose, result->insertion_result != nullptr);
    if (result->insertion_result != nullptr) {
      const auto& data = *result->insertion_result->constant_data;
      watch.Check(result->insertion_result->insertion_submaps);
      VH_EXPECT(data.time == result->time, "node time", i);
      VH_EXPECT((data.local_pose.translation() - pose.translation()).norm() <
                        1e-9 &&
                    data.local_pose.rotation().angularDistance(
                        pose.rotation()) < 1e-6,
                "node pose", i);
      VH_EXPECT(((data.gravity_alignment *
                  (tilt.conjugate() * Vector3d::UnitZ())) -
                 Vector3d::UnitZ())
                        .norm() < 1e-3,
                "gravity alignment", i);
      for (const auto* cloud : {&data.high_resolution_point_cloud,
                                &data.low_resolution_point_cloud}) {
        VH_EXPECT(!cloud->empty(), "node has points", i);
        for (const auto& q : *cloud) {
          double best = 1e30;
          for (const auto& r : scan.ranges) {
            best = std::min(best, double((r.position - q.position).norm()));
          }
          VH_EXPECT(best < 2e-4, "node points are scan points", best);
        }
      }
      VH_EXPECT(data.rotational_scan_matcher_histogram.size() ==
                    options.rotational_histogram_size(),
                "histogram size",
                data.rotational_scan_matcher_histogram.size());
      if (options.use_intensities()) {
        const auto& cloud = data.high_resolution_point_cloud;
        VH_EXPECT(cloud.intensities().size() == cloud.size(),
                  "node intensities", cloud.size());
        for (size_t k = 0; k < cloud.size(); ++k) {
          double best = 1e30;
          for (size_t j = 0; j < scan.ranges.size(); ++j) {
            if ((scan.ranges[j].position - cloud[k].position).norm() < 2e-4) {
              best = std::min(best, std::abs(double(scan.intensities[j]) -
                                             cloud.intensities()[k]));
            }
          }
          VH_EXPECT(best < 1e-3, "intensity stays with its point", best);
        }
      }
    }
    ScanCheck check;
    check.pose = pose;
    check.gravity = Quaterniond::Identity();
    check.min_range = options.min_range();
    check.max_range = options.max_range();
    check.min_z = -1e6;
    check.max_z = 1e6;
    check.miss_length = options.max_range();
    check.voxel = options.voxel_filter_size();
    // Two filters, of half and of the whole voxel size; a point near the range
    // limits may have been represented by one beyond it.
    check.reach = 1.5 * std::sqrt(3.);
    check.misses = false;
    sensor::TimedPointCloudData sure = scan;
    check.Check(sure, result->range_data_in_local);
    digest.Add(pose.translation().x());
  }
  vh::Count("any_3d.results", results);
  vh::Count("any_3d.inserted", gate.inserted);
  vh::Count("any_3d.gated", gate.skipped);
  if (results > 1) vh::Distinct(digest.Get());
}

namespace {

struct Drive {
  double position = 0, angle = 0, surface = 0;
  int results = 0;
};

// Compares results with the truth, in the frame of the first result.
struct Truth {
  const sim::World& world;
  const sim::Path& path;
  bool first = true;
  Rigid3d world_from_local;
  Drive d;

  void Check(common::Time time, const Rigid3d& pose,
             const sensor::RangeData& range_data, bool planar) {
    const double s = common::ToSeconds(time - T(0));
    const Rigid3d truth = path.Pose(s);
    if (first) {
      first = false;
      world_from_local = truth * pose.inverse();
    }
    const Rigid3d estimate = world_from_local * pose;
    d.position = std::max(
        d.position, (estimate.translation() - truth.translation()).norm());
    d.angle = std::max(
        d.angle, estimate.rotation().angularDistance(truth.rotation()));
    double sum = 0;
    int n = 0;
    for (const auto& p : range_data.returns) {
      sum += std::min(
          0.5, world.Surface(world_from_local * p.position.cast<double>()));
      ++n;
    }
    if (n) d.surface = std::max(d.surface, sum / n);
    ++d.results;
    (void)planar;
  }
};

}  // namespace

// A sensor moving in a structured room.
VH_SCENARIO(drive_2d, 40, 1500) {
  const sim::World world = sim::World::Random(rng);
  sim::Path path = sim::Path::Random(rng, world);
  auto options = Options2D();
  options.set_use_imu_data(rng.Chance(0.5));
  options.set_use_online_correlative_scan_matching(rng.Chance(0.15));
  options.mutable_real_time_correlative_scan_matcher_options()
      ->set_angular_search_window(0.1);
  options.mutable_submaps_options()->set_num_range_data(rng.Int(10, 30));
  options.mutable_motion_filter_options()->set_max_time_seconds(
      rng.Real(0.1, 1.));
  options.mutable_motion_filter_options()->set_max_distance_meters(
      rng.Real(0.01, 0.1));
  options.mutable_motion_filter_options()->set_max_angle_radians(
      rng.Real(0.005, 0.03));
  const int accumulate = rng.Chance(0.3) ? rng.Int(2, 3) : 1;
  options.set_num_accumulated_range_data(accumulate);
  const int sensors = rng.Chance(0.3) ? 2 : 1;
  std::vector<std::string> ids = {"a"};
  if (sensors == 2) ids.push_back("b");
  m::LocalTrajectoryBuilder2D builder(options, ids);
  sim::Scanner scanner = sim::Scanner::Planar(rng.Int(120, 200));
  scanner.mount = Rigid3d(Vector3d(rng.Real(-0.2, 0.2), rng.Real(-0.2, 0.2),
                                   0.),
                          sim::Yaw(rng.Real(-3, 3)));
  const double period = 0.1;
  scanner.duration = rng.Chance(0.5) ? 0. : period * rng.Real(0.3, 0.95);
  scanner.noise = rng.Chance(0.5) ? 0. : 0.01;
  const bool odometry = rng.Chance(0.7);
  const Rigid3d odometry_frame(Vector3d(1, 2, 0), sim::Yaw(rng.Real(-3, 3)));
  Gate gate{options.motion_filter_options()};
  SubmapWatch<m::Submap2D> watch{options.submaps_options().num_range_data()};
  Truth truth{world, path};
  common::Time last = common::Time::min();
  const int n = rng.Int(15, 40) * accumulate;
  vh::Digest digest;
  int scans = 0;
  for (int i = 1; i <= n; ++i) {
    const int64_t t = sim::Ticks(i * period);
    for (int k = 3; k >= 0; --k) {
      const int64_t tk = sim::Ticks(i * period - (k + 0.1) * 0.025);
      if (options.use_imu_data()) builder.AddImuData(sim::Imu(path, tk));
      if (odometry) {
        builder.AddOdometryData(sensor::OdometryData{
            T(tk), odometry_frame * path.Pose(tk * kTick)});
      }
    }
    for (int s = 0; s < sensors; ++s) {
      // The second sensor sees the other half of the world.
      sim::Scanner one = scanner;
      if (sensors == 2) {
        one.beams.clear();
        for (size_t k = s; k < scanner.beams.size(); k += 2) {
          one.beams.push_back(scanner.beams[k]);
        }
      }
      const auto result =
          builder.AddRangeData(ids[s], one.Scan(rng, world, path, t));
      ++scans;
      if (result == nullptr) continue;
      VH_EXPECT(result->time >= last, "results in time order", i);
      last = result->time;
      gate.Check(result->time, result->local_pose,
                 result->insertion_result != nullptr);
      if (result->insertion_result) {
        watch.Check(result->insertion_result->insertion_submaps);
      }
      truth.Check(result->time, result->local_pose,
                  result->range_data_in_local, true);
      digest.Add(result->local_pose.translation().x());
    }
  }
  // All scans but the first few come back, in groups as configured.
  const int expected = n / accumulate;
  VH_EXPECT(truth.d.results >= expected - 2 && truth.d.results <= expected,
            "number of results",
            truth.d.results << " of " << expected << " with " << sensors
                            << " sensors, " << scans << " scans");
  vh::Distinct(digest.Get());
  // Without odometry, the match has to find the motion on its own, and the
  // default weights hold it back.
  if (!odometry) return;
  vh::Count("drive_2d.compared_with_truth");
  vh::Max("drive_2d.position_error_mm", truth.d.position * 1e3);
  vh::Max("drive_2d.angle_error_mrad", truth.d.angle * 1e3);
  vh::Max("drive_2d.surface_error_mm", truth.d.surface * 1e3);
  VH_EXPECT(truth.d.position < 0.6 && truth.d.angle < 0.3,
            "estimated path close to the true path (2D)",
            truth.d.position << " m, " << truth.d.angle << " rad after "
                             << n * period << " s");
  VH_EXPECT(truth.d.surface < 0.33, "range data lies on the walls (2D)",
            truth.d.surface << " m on average");
}

VH_SCENARIO(drive_3d, 12, 400) {
  const sim::World world = sim::World::Random(rng);
  sim::Path path = sim::Path::Random(rng, world);
  if (rng.Chance(0.5)) {
    path.wobble = rng.Real(0., 0.1);
    path.wobble_rate = rng.Real(0.5, 2.);
  }
  auto options = Options3D();
  options.mutable_submaps_options()->set_num_range_data(rng.Int(5, 20));
  options.set_max_range(20.);
  options.mutable_motion_filter_options()->set_max_time_seconds(
      rng.Real(0.1, 1.));
  options.mutable_motion_filter_options()->set_max_distance_meters(
      rng.Real(0.01, 0.1));
  options.mutable_motion_filter_options()->set_max_angle_radians(
      rng.Real(0.005, 0.03));
  const int accumulate = rng.Chance(0.3) ? 2 : 1;
  options.set_num_accumulated_range_data(accumulate);
  options.mutable_pose_extrapolator_options()->set_use_imu_based(
      rng.Chance(0.2));
  m::LocalTrajectoryBuilder3D builder(options, {"a"});
  sim::Scanner scanner = sim::Scanner::Spatial(8, rng.Int(40, 60));
  scanner.mount = Rigid3d(Vector3d(rng.Real(-0.2, 0.2), rng.Real(-0.2, 0.2),
                                   0.2),
                          sim::Yaw(rng.Real(-3, 3)));
  const double period = 0.1;
  scanner.duration = rng.Chance(0.5) ? 0. : period * rng.Real(0.3, 0.95);
  Gate gate{options.motion_filter_options()};
  SubmapWatch<m::Submap3D> watch{options.submaps_options().num_range_data()};
  Truth truth{world, path};
  common::Time last = common::Time::min();
  const int n = rng.Int(10, 20);
  vh::Digest digest;
  for (int i = 1; i <= n; ++i) {
    const int64_t t = sim::Ticks(i * period);
    for (int k = 9; k >= 0; --k) {
      builder.AddImuData(
          sim::Imu(path, sim::Ticks(i * period - (k + 0.1) * 0.01)));
    }
    const auto result =
        builder.AddRangeData("a", scanner.Scan(rng, world, path, t));
    if (result == nullptr) continue;
    VH_EXPECT(result->time >= last, "results in time order", i);
    last = result->time;
    gate.Check(result->time, result->local_pose,
               result->insertion_result != nullptr);
    if (result->insertion_result) {
      watch.Check(result->insertion_result->insertion_submaps);
    }
    truth.Check(result->time, result->local_pose, result->range_data_in_local,
                false);
    digest.Add(result->local_pose.translation().x());
  }
  VH_EXPECT(truth.d.results >= n / accumulate - 2 &&
                truth.d.results <= n / accumulate,
            "number of results", truth.d.results << " of " << n);
  vh::Max("drive_3d.position_error_mm", truth.d.position * 1e3);
  vh::Max("drive_3d.angle_error_mrad", truth.d.angle * 1e3);
  vh::Max("drive_3d.surface_error_mm", truth.d.surface * 1e3);
  VH_EXPECT(truth.d.position < 0.6 && truth.d.angle < 0.3,
            "estimated path close to the true path (3D)",
            truth.d.position << " m, " << truth.d.angle << " rad after "
                             << n * period << " s");
  VH_EXPECT(truth.d.surface < 0.33, "range data lies on the walls (3D)",
            truth.d.surface << " m on average");
  vh::Distinct(digest.Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
