// C27: data survives conversion to message form and back; transforming and
// cropping range data keeps points, order and intensities.
#include "cartographer/common/time.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "cartographer/transform/transform.h"
#include "vh.h"

namespace common = cartographer::common;
namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace tf = cartographer::transform;

namespace {

double Value(vh::Rng& rng) {
  switch (rng.Int(0, 4)) {
    case 0: return 0.;
    case 1: return rng.Real(-1e6, 1e6);
    case 2: return rng.Real(-1e-6, 1e-6);
    default: return rng.Real(-50, 50);
  }
}
Eigen::Vector3d Vec(vh::Rng& rng) {
  return {Value(rng), Value(rng), Value(rng)};
}
Eigen::Vector3f Vecf(vh::Rng& rng) { return Vec(rng).cast<float>(); }
Eigen::Quaterniond Rot(vh::Rng& rng) {
  if (rng.Chance(0.1)) return Eigen::Quaterniond::Identity();
  Eigen::Quaterniond q(rng.Normal(), rng.Normal(), rng.Normal(), rng.Normal());
  return q.norm() < 1e-3 ? Eigen::Quaterniond::Identity() : q.normalized();
}
tf::Rigid3d Pose(vh::Rng& rng) { return tf::Rigid3d(Vec(rng), Rot(rng)); }
common::Time Time(vh::Rng& rng) {
  return common::FromUniversal(
      rng.Chance(0.2) ? rng.Int(0, 1000)
                      : 630000000000000000ll + rng.Int(0, 9000000000000000ll));
}

bool Same(const tf::Rigid3d& a, const tf::Rigid3d& b) {
  return (a.translation() - b.translation()).norm() <=
             1e-12 * (1. + a.translation().norm()) &&
         (a.rotation().coeffs() - b.rotation().coeffs()).norm() <= 1e-12;
}
// Through wire format, as a file or connection would.
template <typename P>
P Wire(const P& p) {
  P out;
  VH_EXPECT(out.ParseFromString(p.SerializeAsString()), "message unreadable",
            "");
  return out;
}

sensor::PointCloud Cloud(vh::Rng& rng, bool intensities, double range = 50.) {
  std::vector<sensor::RangefinderPoint> points;
  std::vector<float> values;
  for (int i = rng.Chance(0.15) ? 0 : rng.Int(1, 20); i > 0; --i) {
    points.push_back({Eigen::Vector3f(rng.Real(-range, range),
                                      rng.Real(-range, range),
                                      rng.Real(-range, range))});
    values.push_back(rng.Real(0, 255));
  }
  if (!intensities || points.empty()) return sensor::PointCloud(points);
  return sensor::PointCloud(points, values);
}

void ExpectCloudNear(const sensor::PointCloud& a, const sensor::PointCloud& b,
                     double tolerance, const char* what) {
  VH_EXPECT(a.size() == b.size(), what, a.size() << " points, " << b.size());
  for (size_t i = 0; i < a.size(); ++i) {
    VH_EXPECT((a[i].position - b[i].position).cwiseAbs().maxCoeff() <=
                  tolerance,
              what, "point " << i << ": " << a[i].position.transpose()
                             << " vs " << b[i].position.transpose());
  }
}

}  // namespace

VH_SCENARIO(sensor_data, 3000, 60000) {
  vh::Digest digest;
  {
    const sensor::ImuData a{Time(rng), Vec(rng), Vec(rng)};
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time && a.linear_acceleration ==
                                      b.linear_acceleration &&
                  a.angular_velocity == b.angular_velocity,
              "inertial data", p.ShortDebugString());
    digest.AddS(p.SerializeAsString());
  }
  {
    const sensor::OdometryData a{Time(rng), Pose(rng)};
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time && Same(a.pose, b.pose), "odometry data",
              p.ShortDebugString());
  }
  {
    sensor::FixedFramePoseData a;
    a.time = Time(rng);
    if (rng.Chance(0.6)) a.pose = Pose(rng);
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time && a.pose.has_value() == b.pose.has_value() &&
                  (!a.pose.has_value() || Same(*a.pose, *b.pose)),
              "fixed frame pose data", p.ShortDebugString());
    vh::Count(a.pose.has_value() ? "with_pose" : "without_pose");
  }
  {
    sensor::LandmarkData a;
    a.time = Time(rng);
    for (int i = rng.Int(0, 5); i > 0; --i) {
      a.landmark_observations.push_back(
          {"mark" + std::to_string(rng.Int(0, 9)), Pose(rng),
           rng.Real(0, 1e5), rng.Real(0, 1e5)});
    }
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time && a.landmark_observations.size() ==
                                      b.landmark_observations.size(),
              "landmark data", p.ShortDebugString());
    for (size_t i = 0; i < a.landmark_observations.size(); ++i) {
      const auto& x = a.landmark_observations[i];
      const auto& y = b.landmark_observations[i];
      VH_EXPECT(x.id == y.id &&
                    Same(x.landmark_to_tracking_transform,
                         y.landmark_to_tracking_transform) &&
                    x.translation_weight == y.translation_weight &&
                    x.rotation_weight == y.rotation_weight,
                "landmark observation", p.ShortDebugString());
    }
  }
  {
    sensor::TimedPointCloudData a;
    a.time = Time(rng);
    a.origin = Vecf(rng);
    for (int i = rng.Int(0, 12); i > 0; --i) {
      a.ranges.push_back({Vecf(rng), static_cast<float>(-rng.Real(0, 1))});
    }
    if (rng.Chance(0.5)) {
      for (size_t i = 0; i < a.ranges.size(); ++i) {
        a.intensities.push_back(rng.Real(0, 255));
      }
    }
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time && a.origin == b.origin &&
                  a.ranges.size() == b.ranges.size() &&
                  a.intensities == b.intensities,
              "timed point cloud", p.ShortDebugString());
    for (size_t i = 0; i < a.ranges.size(); ++i) {
      VH_EXPECT(a.ranges[i].position == b.ranges[i].position &&
                    a.ranges[i].time == b.ranges[i].time,
                "timed point", i);
    }
    // Files of older versions.
    sensor::proto::TimedPointCloudData legacy = p;
    legacy.clear_point_data();
    for (const auto& r : a.ranges) {
      auto* v = legacy.add_point_data_legacy();
      v->set_x(r.position.x());
      v->set_y(r.position.y());
      v->set_z(r.position.z());
      v->set_t(r.time);
    }
    if (!a.ranges.empty() && a.intensities.empty()) {
      const auto c = sensor::FromProto(legacy);
      VH_EXPECT(c.ranges.size() == a.ranges.size(), "older point cloud",
                c.ranges.size());
      for (size_t i = 0; i < a.ranges.size(); ++i) {
        VH_EXPECT(a.ranges[i].position == c.ranges[i].position &&
                      a.ranges[i].time == c.ranges[i].time,
                  "older timed point", i);
      }
    }
    digest.Add(a.ranges.size());
  }
  {
    const sensor::RangeData a{Vecf(rng), Cloud(rng, false), Cloud(rng, false)};
    const auto p = sensor::ToProto(a);
    const auto b = sensor::FromProto(Wire(p));
    VH_EXPECT(a.origin == b.origin, "range data origin", "");
    ExpectCloudNear(a.returns, b.returns, 0., "range data returns");
    ExpectCloudNear(a.misses, b.misses, 0., "range data misses");
    sensor::proto::RangeData legacy;
    *legacy.mutable_origin() = p.origin();
    for (const auto& r : a.returns) {
      *legacy.add_returns_legacy() = tf::ToProto(r.position);
    }
    for (const auto& r : a.misses) {
      *legacy.add_misses_legacy() = tf::ToProto(r.position);
    }
    const auto c = sensor::FromProto(legacy);
    ExpectCloudNear(a.returns, c.returns, 0., "older range data returns");
    ExpectCloudNear(a.misses, c.misses, 0., "older range data misses");
  }
  vh::Distinct(digest.Get());
  if (vh::WantSample()) vh::Sample("one message of every sensor type");
}

VH_SCENARIO(graph_data, 2000, 40000) {
  {
    mapping::TrajectoryNode::Data a;
    a.time = Time(rng);
    a.gravity_alignment = Rot(rng);
    a.filtered_gravity_aligned_point_cloud = Cloud(rng, false);
    a.high_resolution_point_cloud = Cloud(rng, rng.Chance(0.3));
    a.low_resolution_point_cloud = Cloud(rng, rng.Chance(0.3));
    a.rotational_scan_matcher_histogram = Eigen::VectorXf(rng.Int(0, 30));
    for (int i = 0; i < a.rotational_scan_matcher_histogram.size(); ++i) {
      a.rotational_scan_matcher_histogram(i) = rng.Real(0, 10);
    }
    a.local_pose = Pose(rng);
    const auto p = mapping::ToProto(a);
    const auto b = mapping::FromProto(Wire(p));
    VH_EXPECT(a.time == b.time, "node time", "");
    VH_EXPECT((a.gravity_alignment.coeffs() - b.gravity_alignment.coeffs())
                      .norm() < 1e-12,
              "node gravity alignment", "");
    VH_EXPECT(Same(a.local_pose, b.local_pose), "node local pose", "");
    VH_EXPECT(a.rotational_scan_matcher_histogram.size() ==
                      b.rotational_scan_matcher_histogram.size() &&
                  a.rotational_scan_matcher_histogram ==
                      b.rotational_scan_matcher_histogram,
              "node histogram", "");
    // Clouds are compressed to millimetres, which may reorder their points.
    auto clouds = [&](const sensor::PointCloud& x, const sensor::PointCloud& y,
                      const char* what) {
      VH_EXPECT(x.size() == y.size(), what, x.size() << " vs " << y.size());
      std::vector<bool> used(y.size());
      for (const auto& px : x) {
        bool found = false;
        for (size_t i = 0; i < y.size() && !found; ++i) {
          if (!used[i] && (px.position - y[i].position)
                                  .cwiseAbs()
                                  .maxCoeff() <= 0.00052f) {
            used[i] = found = true;
          }
        }
        VH_EXPECT(found, what, px.position.transpose());
      }
    };
    clouds(a.filtered_gravity_aligned_point_cloud,
           b.filtered_gravity_aligned_point_cloud, "node filtered cloud");
    clouds(a.high_resolution_point_cloud, b.high_resolution_point_cloud,
           "node high resolution cloud");
    clouds(a.low_resolution_point_cloud, b.low_resolution_point_cloud,
           "node low resolution cloud");
    vh::Distinct(vh::Digest().AddS(p.SerializeAsString()).Get());
  }
  {
    std::vector<mapping::PoseGraph::Constraint> list;
    google::protobuf::RepeatedPtrField<
        mapping::proto::PoseGraph::Constraint>
        messages;
    for (int i = rng.Int(0, 6); i > 0; --i) {
      mapping::PoseGraph::Constraint c{
          mapping::SubmapId{static_cast<int>(rng.Int(0, 9)),
                            static_cast<int>(rng.Int(0, 99))},
          mapping::NodeId{static_cast<int>(rng.Int(0, 9)),
                          static_cast<int>(rng.Int(0, 999))},
          {Pose(rng), rng.Real(0, 1e5), rng.Real(0, 1e5)},
          rng.Chance(0.5) ? mapping::PoseGraph::Constraint::INTRA_SUBMAP
                          : mapping::PoseGraph::Constraint::INTER_SUBMAP};
      list.push_back(c);
      *messages.Add() = Wire(mapping::ToProto(c));
    }
    const auto back = mapping::FromProto(messages);
    VH_EXPECT(back.size() == list.size(), "number of constraints",
              back.size());
    for (size_t i = 0; i < list.size(); ++i) {
      VH_EXPECT(list[i].submap_id == back[i].submap_id &&
                    list[i].node_id == back[i].node_id &&
                    list[i].tag == back[i].tag &&
                    Same(list[i].pose.zbar_ij, back[i].pose.zbar_ij) &&
                    list[i].pose.translation_weight ==
                        back[i].pose.translation_weight &&
                    list[i].pose.rotation_weight ==
                        back[i].pose.rotation_weight,
                "constraint", messages.Get(i).ShortDebugString());
    }
  }
  {
    using SensorId = mapping::TrajectoryBuilderInterface::SensorId;
    static const SensorId::SensorType types[] = {
        SensorId::SensorType::RANGE,
        SensorId::SensorType::IMU,
        SensorId::SensorType::ODOMETRY,
        SensorId::SensorType::FIXED_FRAME_POSE,
        SensorId::SensorType::LANDMARK,
        SensorId::SensorType::LOCAL_SLAM_RESULT};
    std::set<int> seen;
    for (const auto type : types) {
      const SensorId a{type, "s" + std::to_string(rng.Int(0, 99))};
      const auto p = mapping::ToProto(a);
      VH_EXPECT(mapping::FromProto(Wire(p)) == a, "sensor id",
                p.ShortDebugString());
      seen.insert(p.type());
    }
    VH_EXPECT(seen.size() == 6, "sensor types coincide", seen.size());
  }
  {
    const mapping::NodeId n{static_cast<int>(rng.Int(0, 100)),
                            static_cast<int>(rng.Int(0, 100000))};
    mapping::proto::NodeId np;
    n.ToProto(&np);
    const mapping::SubmapId s{n.node_index, n.trajectory_id};
    mapping::proto::SubmapId sp;
    s.ToProto(&sp);
    VH_EXPECT(np.trajectory_id() == n.trajectory_id &&
                  np.node_index() == n.node_index &&
                  sp.trajectory_id() == s.trajectory_id &&
                  sp.submap_index() == s.submap_index,
              "ids", n);
  }
}

VH_SCENARIO(transform_and_crop, 3000, 60000) {
  const bool with = rng.Chance(0.5);
  const sensor::RangeData a{Eigen::Vector3f(rng.Real(-9, 9), rng.Real(-9, 9),
                                            rng.Real(-9, 9)),
                            Cloud(rng, with), Cloud(rng, rng.Chance(0.3))};
  const tf::Rigid3d pose(
      Eigen::Vector3d(rng.Real(-9, 9), rng.Real(-9, 9), rng.Real(-9, 9)),
      Rot(rng));
  const Eigen::Matrix3d r = pose.rotation().toRotationMatrix();
  auto move = [&](const Eigen::Vector3f& p) -> Eigen::Vector3d {
    return r * p.cast<double>() + pose.translation();
  };
  const auto b = sensor::TransformRangeData(a, pose.cast<float>());
  VH_EXPECT((b.origin.cast<double>() - move(a.origin)).norm() < 1e-3,
            "moved origin", b.origin.transpose());
  auto moved = [&](const sensor::PointCloud& x, const sensor::PointCloud& y,
                   const char* what) {
    VH_EXPECT(x.size() == y.size() && x.intensities() == y.intensities(), what,
              x.size() << " vs " << y.size());
    for (size_t i = 0; i < x.size(); ++i) {
      VH_EXPECT((y[i].position.cast<double>() - move(x[i].position)).norm() <
                    1e-3,
                what, "point " << i);
    }
  };
  moved(a.returns, b.returns, "moved returns");
  moved(a.misses, b.misses, "moved misses");
  sensor::TimedPointCloud timed;
  for (const auto& p : a.returns) {
    timed.push_back({p.position, static_cast<float>(rng.Real(-1, 0))});
  }
  const auto timed2 =
      sensor::TransformTimedPointCloud(timed, pose.cast<float>());
  VH_EXPECT(timed2.size() == timed.size(), "moved timed points", timed2.size());
  for (size_t i = 0; i < timed.size(); ++i) {
    VH_EXPECT(timed2[i].time == timed[i].time &&
                  (timed2[i].position.cast<double>() - move(timed[i].position))
                          .norm() < 1e-3,
              "moved timed point", i);
  }
  float lo = rng.Real(-30, 30), hi = lo + rng.Real(0, 40);
  if (!a.returns.empty() && rng.Chance(0.5)) {
    // Band edges at points belong to the band.
    lo = a.returns[rng.Int(0, a.returns.size() - 1)].position.z();
    if (hi < lo) hi = lo;
    if (rng.Chance(0.3)) {
      const float z = a.returns[rng.Int(0, a.returns.size() - 1)].position.z();
      if (z >= lo) hi = z;
    }
  }
  const auto c = sensor::CropRangeData(a, lo, hi);
  VH_EXPECT(c.origin == a.origin, "cropping moved the origin", "");
  auto cropped = [&](const sensor::PointCloud& x, const sensor::PointCloud& y,
                     const char* what) {
    size_t k = 0;
    for (size_t i = 0; i < x.size(); ++i) {
      if (!(x[i].position.z() >= lo && x[i].position.z() <= hi)) continue;
      VH_EXPECT(k < y.size() && y[k].position == x[i].position, what,
                "point " << i);
      if (!x.intensities().empty()) {
        VH_EXPECT(y.intensities().size() == y.size() &&
                      y.intensities()[k] == x.intensities()[i],
                  what, "intensity of point " << i);
      }
      ++k;
    }
    VH_EXPECT(k == y.size(), what, y.size() << " kept instead of " << k);
    if (x.intensities().empty()) {
      VH_EXPECT(y.intensities().empty(), what, "made-up intensities");
    }
  };
  cropped(a.returns, c.returns, "cropped returns");
  cropped(a.misses, c.misses, "cropped misses");
  if (c.returns.size() > 0 && c.returns.size() < a.returns.size()) {
    vh::Distinct(vh::Digest().AddD(lo).AddD(hi).Add(c.returns.size()).Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
