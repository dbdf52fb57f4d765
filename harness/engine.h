// Whole mapping runs on simulated robots: options, sensor streams, a record of
// what local SLAM accepted, and a monitor of the pose graph's public state.
#ifndef VERIF_ENGINE_H_
#define VERIF_ENGINE_H_

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "cartographer/mapping/internal/2d/local_trajectory_builder_options_2d.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/submaps.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/transform/transform.h"
#include "sim.h"
#include "vh.h"

namespace engine {

namespace common = cartographer::common;
namespace m = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace tf = cartographer::transform;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using m::NodeId;
using m::SubmapId;
using sim::T;
using sim::kTick;
using tf::Rigid3d;
using SensorId = m::TrajectoryBuilderInterface::SensorId;
using Constraint = m::PoseGraphInterface::Constraint;
using State = m::PoseGraphInterface::TrajectoryState;

inline m::proto::MapBuilderOptions BaseOptions(bool three_d) {
  static m::proto::MapBuilderOptions* cached[2] = {nullptr, nullptr};
  auto*& c = cached[three_d];
  if (c == nullptr) {
    auto lua = sim::Lua(std::string("include \"map_builder.lua\"\n") +
                        "MAP_BUILDER.use_trajectory_builder_" +
                        (three_d ? "3d" : "2d") + " = true\n" +
                        "return MAP_BUILDER");
    c = new m::proto::MapBuilderOptions(m::CreateMapBuilderOptions(lua.get()));
  }
  return *c;
}
inline m::proto::TrajectoryBuilderOptions BaseTrajectoryOptions() {
  static m::proto::TrajectoryBuilderOptions* c = nullptr;
  if (c == nullptr) {
    auto lua = sim::Lua(
        "include \"trajectory_builder.lua\"\nreturn TRAJECTORY_BUILDER");
    c = new m::proto::TrajectoryBuilderOptions(
        m::CreateTrajectoryBuilderOptions(lua.get()));
  }
  return *c;
}

// Random but affordable settings.
inline m::proto::MapBuilderOptions RandomOptions(vh::Rng& rng, bool three_d) {
  auto options = BaseOptions(three_d);
  options.set_num_background_threads(rng.Int(1, 5));
  options.set_collate_by_trajectory(rng.Chance(0.5));
  auto* graph = options.mutable_pose_graph_options();
  graph->set_optimize_every_n_nodes(rng.Chance(0.15) ? 0 : rng.Int(1, 12));
  graph->set_global_sampling_ratio(
      rng.Chance(0.4) ? 0.03 : rng.Chance(0.7) ? 0.3 : three_d ? 0.5 : 1.);
  graph->set_global_constraint_search_after_n_seconds(
      rng.Chance(0.5) ? 10. : rng.Real(0.1, 3.));
  graph->set_log_residual_histograms(rng.Chance(0.3));
  graph->set_max_num_final_iterations(60);
  graph->mutable_optimization_problem_options()
      ->mutable_ceres_solver_options()
      ->set_num_threads(1);
  graph->mutable_optimization_problem_options()
      ->mutable_ceres_solver_options()
      ->set_max_num_iterations(rng.Int(2, 15));
  auto* builder = graph->mutable_constraint_builder_options();
  builder->set_sampling_ratio(rng.Chance(0.3) ? 1. : rng.Real(0.1, 0.9));
  builder->set_max_constraint_distance(rng.Chance(0.8) ? 15.
                                                       : rng.Real(0.3, 2.));
  builder->set_min_score(three_d ? rng.Real(0.15, 0.5) : rng.Real(0.3, 0.6));
  builder->set_global_localization_min_score(three_d ? rng.Real(0.25, 0.5)
                                                     : rng.Real(0.4, 0.65));
  builder->set_log_matches(rng.Chance(0.2));
  auto* fast = builder->mutable_fast_correlative_scan_matcher_options();
  fast->set_linear_search_window(rng.Real(0.3, 1.2));
  fast->set_angular_search_window(rng.Real(0.05, 0.3));
  fast->set_branch_and_bound_depth(rng.Int(5, 7));
  auto* fast3 = builder->mutable_fast_correlative_scan_matcher_options_3d();
  fast3->set_branch_and_bound_depth(rng.Int(5, 6));
  fast3->set_full_resolution_depth(rng.Int(2, 3));
  fast3->set_linear_xy_search_window(rng.Real(0.3, 0.8));
  fast3->set_linear_z_search_window(0.2);
  fast3->set_angular_search_window(rng.Real(0.05, 0.1));
  fast3->set_min_rotational_score(0.6);
  fast3->set_min_low_resolution_score(0.2);
  return options;
}

// The sensors of one robot.
struct RobotOptions {
  bool three_d = false, imu = false, odometry = false, landmarks = false,
       fixed_frame = false;
  int scanners = 1;
};

inline m::proto::TrajectoryBuilderOptions RandomTrajectoryOptions(
    vh::Rng& rng, const RobotOptions& robot) {
  auto options = BaseTrajectoryOptions();
  options.set_collate_landmarks(robot.landmarks && rng.Chance(0.5));
  options.set_collate_fixed_frame(rng.Chance(0.5));
  if (robot.three_d) {
    auto* o = options.mutable_trajectory_builder_3d_options();
    o->set_max_range(20.);
    o->mutable_submaps_options()->set_high_resolution(0.2);
    o->mutable_submaps_options()->set_low_resolution(0.45);
    o->mutable_submaps_options()->set_num_range_data(rng.Int(2, 5));
    o->set_rotational_histogram_size(30);
    o->mutable_motion_filter_options()->set_max_time_seconds(
        rng.Real(0.05, 0.4));
    o->mutable_motion_filter_options()->set_max_distance_meters(0.05);
    o->mutable_motion_filter_options()->set_max_angle_radians(0.03);
    o->mutable_ceres_scan_matcher_options()
        ->mutable_ceres_solver_options()
        ->set_max_num_iterations(5);
  } else {
    auto* o = options.mutable_trajectory_builder_2d_options();
    o->set_use_imu_data(robot.imu);
    o->mutable_submaps_options()->set_num_range_data(rng.Int(2, 8));
    o->mutable_submaps_options()->mutable_grid_options_2d()->set_resolution(
        0.1);
    o->mutable_motion_filter_options()->set_max_time_seconds(
        rng.Real(0.05, 0.4));
    o->mutable_motion_filter_options()->set_max_distance_meters(
        rng.Real(0.01, 0.2));
    o->mutable_motion_filter_options()->set_max_angle_radians(
        rng.Real(0.005, 0.05));
    o->mutable_ceres_scan_matcher_options()
        ->mutable_ceres_solver_options()
        ->set_max_num_iterations(8);
  }
  return options;
}

// What local SLAM reported, in order.
struct Accepted {
  NodeId id;
  std::shared_ptr<const m::TrajectoryNode::Data> data;
  std::vector<std::shared_ptr<const m::Submap>> submaps;
};
struct Record {
  std::mutex mutex;
  std::map<int, std::vector<Accepted>> nodes;  // inserted scans
  std::map<int, int> results;
  std::map<int, common::Time> last_time;

  m::MapBuilderInterface::LocalSlamResultCallback Callback() {
    return [this](int trajectory_id, common::Time time, Rigid3d local_pose,
                  sensor::RangeData,
                  std::unique_ptr<
                      const m::TrajectoryBuilderInterface::InsertionResult>
                      insertion) {
      std::lock_guard<std::mutex> lock(mutex);
      ++results[trajectory_id];
      auto it = last_time.find(trajectory_id);
      VH_NOTE(it == last_time.end() || it->second <= time,
              "local results in time order", trajectory_id);
      last_time[trajectory_id] = time;
      VH_NOTE(local_pose.translation().allFinite(), "finite local pose",
              trajectory_id);
      if (insertion == nullptr) return;
      VH_NOTE(insertion->node_id.trajectory_id == trajectory_id,
              "node of its trajectory", insertion->node_id);
      nodes[trajectory_id].push_back({insertion->node_id,
                                      insertion->constant_data,
                                      insertion->insertion_submaps});
    };
  }
};

struct Reading {
  int64_t t;
  int order;
  std::function<void(m::TrajectoryBuilderInterface*)> add;
};

// One robot's way through the world.
struct Robot {
  RobotOptions options;
  sim::Path path;
  std::set<SensorId> sensors;
  std::vector<Reading> stream;
  int scans = 0;

  // Sensor data of `scans` scans starting at tick `start`.
  static Robot Make(vh::Rng& rng, const sim::World& world,
                    const RobotOptions& o, int64_t start, int scans,
                    const sim::Path* way = nullptr) {
    Robot r;
    r.options = o;
    r.path = way != nullptr ? *way : sim::Path::Random(rng, world);
    r.path.start = start * kTick;
    r.scans = scans;
    sim::Scanner scanner = o.three_d ? sim::Scanner::Spatial(6, 24)
                                     : sim::Scanner::Planar(rng.Int(60, 90));
    scanner.mount =
        Rigid3d(Vector3d(rng.Real(-0.1, 0.1), rng.Real(-0.1, 0.1), 0.),
                sim::Yaw(rng.Real(-3, 3)));
    const double period = 0.1;
    scanner.duration = rng.Chance(0.5) ? 0. : 0.05;
    using Type = SensorId::SensorType;
    for (int s = 0; s < o.scanners; ++s) {
      r.sensors.insert(SensorId{Type::RANGE, "range" + std::to_string(s)});
    }
    if (o.imu) r.sensors.insert(SensorId{Type::IMU, "imu"});
    if (o.odometry) r.sensors.insert(SensorId{Type::ODOMETRY, "odom"});
    if (o.landmarks) r.sensors.insert(SensorId{Type::LANDMARK, "landmarks"});
    if (o.fixed_frame) {
      r.sensors.insert(SensorId{Type::FIXED_FRAME_POSE, "gps"});
    }
    const sim::Path path = r.path;
    const Rigid3d odometry_frame(Vector3d(1, 2, 0), sim::Yaw(rng.Real(-3, 3)));
    const Rigid3d gps_frame(Vector3d(-3, 1, 0), sim::Yaw(rng.Real(-1, 1)));
    for (int i = 1; i <= scans; ++i) {
      const int64_t t = start + sim::Ticks(i * period);
      const int per_scan = o.three_d ? 8 : 3;
      for (int k = per_scan - 1; k >= 0; --k) {
        const int64_t tk = t - sim::Ticks((k + 0.1) * period / per_scan);
        if (o.imu) {
          const auto data = sim::Imu(path, tk);
          r.stream.push_back({tk, 0, [data](m::TrajectoryBuilderInterface* b) {
                                b->AddSensorData("imu", data);
                              }});
        }
        if (o.odometry) {
          const sensor::OdometryData data{
              T(tk), odometry_frame * path.Pose(tk * kTick)};
          r.stream.push_back({tk, 1, [data](m::TrajectoryBuilderInterface* b) {
                                b->AddSensorData("odom", data);
                              }});
        }
      }
      if (o.landmarks && rng.Chance(0.6)) {
        const int64_t tl = t - sim::Ticks(rng.Real(0.01, 0.09));
        sensor::LandmarkData data;
        data.time = T(tl);
        for (int l = 0; l < 3; ++l) {
          if (rng.Chance(0.4)) continue;
          const Rigid3d landmark = LandmarkPose(l);
          data.landmark_observations.push_back(
              {"landmark" + std::to_string(l),
               path.Pose(tl * kTick).inverse() * landmark, 1e3, 1e3});
        }
        r.stream.push_back({tl, 2, [data](m::TrajectoryBuilderInterface* b) {
                              b->AddSensorData("landmarks", data);
                            }});
      }
      if (o.fixed_frame) {
        const int64_t tg = t - sim::Ticks(0.02);
        sensor::FixedFramePoseData data;
        data.time = T(tg);
        if (rng.Chance(0.8)) data.pose = gps_frame * path.Pose(tg * kTick);
        r.stream.push_back({tg, 3, [data](m::TrajectoryBuilderInterface* b) {
                              b->AddSensorData("gps", data);
                            }});
      }
      for (int s = 0; s < o.scanners; ++s) {
        sim::Scanner one = scanner;
        one.beams.clear();
        for (size_t k = s; k < scanner.beams.size(); k += o.scanners) {
          one.beams.push_back(scanner.beams[k]);
        }
        const auto data = one.Scan(rng, world, path, t);
        const std::string id = "range" + std::to_string(s);
        r.stream.push_back(
            {t, 4 + s, [data, id](m::TrajectoryBuilderInterface* b) {
               b->AddSensorData(id, data);
             }});
      }
    }
    std::stable_sort(r.stream.begin(), r.stream.end(),
                     [](const Reading& a, const Reading& b) {
                       return a.t < b.t || (a.t == b.t && a.order < b.order);
                     });
    return r;
  }
  static Rigid3d LandmarkPose(int l) {
    return Rigid3d(Vector3d(1. + l, -2. + l, 0.3 * l), sim::Yaw(0.5 * l));
  }
};

inline RobotOptions RandomRobot(vh::Rng& rng, bool three_d) {
  RobotOptions o;
  o.three_d = three_d;
  o.imu = three_d || rng.Chance(0.3);
  o.odometry = rng.Chance(0.6);
  o.landmarks = rng.Chance(0.4);
  o.fixed_frame = rng.Chance(0.3);
  o.scanners = rng.Chance(0.25) ? 2 : 1;
  return o;
}

// Feeds several robots' streams in global time order.
class Feeder {
 public:
  Feeder(m::MapBuilderInterface* builder) : builder_(builder) {}
  void Add(int trajectory_id, const Robot& robot) {
    streams_.push_back({trajectory_id, &robot, 0});
  }
  // Feeds the next reading; false if there is none.
  bool Step() {
    Stream* best = nullptr;
    for (auto& s : streams_) {
      if (s.next == s.robot->stream.size()) continue;
      if (best == nullptr ||
          s.robot->stream[s.next].t < best->robot->stream[best->next].t) {
        best = &s;
      }
    }
    if (best == nullptr) return false;
    best->robot->stream[best->next++].add(
        builder_->GetTrajectoryBuilder(best->trajectory_id));
    return true;
  }
  bool Done(int trajectory_id) const {
    for (const auto& s : streams_) {
      if (s.trajectory_id == trajectory_id) {
        return s.next == s.robot->stream.size();
      }
    }
    return true;
  }

 private:
  struct Stream {
    int trajectory_id;
    const Robot* robot;
    size_t next;
  };
  m::MapBuilderInterface* const builder_;
  std::vector<Stream> streams_;
};

inline m::PoseGraph* Graph(m::MapBuilderInterface* builder) {
  return dynamic_cast<m::PoseGraph*>(builder->pose_graph());
}

inline double Distance(const Rigid3d& a, const Rigid3d& b) {
  return (a.translation() - b.translation()).norm() +
         a.rotation().angularDistance(b.rotation());
}
inline bool Finite(const Rigid3d& p) {
  return p.translation().allFinite() && p.rotation().coeffs().allFinite() &&
         std::abs(p.rotation().norm() - 1.) < 1e-6;
}

// Checks the public state of a quiescent graph against what was accepted.
// `gone` are submaps known to have been removed.
struct GraphMonitor {
  const m::proto::MapBuilderOptions& options;
  Record* record;
  // Trajectories that were not fed but loaded: skipped where the record is
  // needed.
  std::set<int> loaded;
  bool trimming = false;  // some submaps may have been removed

  // Numbers observed.
  int nodes = 0, submaps = 0, intra = 0, inter = 0, inter_cross = 0;

  void Check(m::MapBuilderInterface* builder) {
    nodes = submaps = intra = inter = inter_cross = 0;
    m::PoseGraph* const graph = Graph(builder);
    const auto node_map = graph->GetTrajectoryNodes();
    const auto submap_map = graph->GetAllSubmapData();
    const auto constraints = graph->constraints();
    const auto poses = graph->GetTrajectoryNodePoses();
    const auto submap_poses = graph->GetAllSubmapPoses();
    std::lock_guard<std::mutex> lock(record->mutex);

    // Submaps, numbered in the order in which they appeared.
    std::map<const m::Submap*, SubmapId> id_of;
    std::map<SubmapId, std::set<NodeId>> members;
    for (const auto& t : record->nodes) {
      int next = 0;
      for (const auto& a : t.second) {
        VH_EXPECT(a.submaps.size() == 1 || a.submaps.size() == 2,
                  "insertion into one or two submaps", a.id);
        for (const auto& s : a.submaps) {
          if (!id_of.count(s.get())) {
            id_of.emplace(s.get(), SubmapId{t.first, next++});
          }
          members[id_of.at(s.get())].insert(a.id);
        }
      }
    }
    std::set<SubmapId> live;
    for (const auto& s : submap_map) {
      ++submaps;
      live.insert(s.id);
      VH_EXPECT(s.data.submap != nullptr, "live submap has data", s.id);
      VH_EXPECT(Finite(s.data.pose), "finite submap pose", s.id);
      VH_EXPECT(submap_poses.Contains(s.id) &&
                    submap_poses.at(s.id).version ==
                        s.data.submap->num_range_data() &&
                    Distance(submap_poses.at(s.id).pose, s.data.pose) == 0.,
                "submap poses agree with the submaps", s.id);
      const auto one = graph->GetSubmapData(s.id);
      VH_EXPECT(one.submap == s.data.submap &&
                    Distance(one.pose, s.data.pose) == 0.,
                "a single submap agrees with all submaps", s.id);
      if (loaded.count(s.id.trajectory_id)) continue;
      VH_EXPECT(id_of.count(s.data.submap.get()) &&
                    id_of.at(s.data.submap.get()) == s.id,
                "submap is one that was built, under its number", s.id);
    }
    VH_EXPECT(submap_poses.size() == submap_map.size(),
              "as many submap poses as submaps", submap_poses.size());
    if (!trimming) {
      for (const auto& s : id_of) {
        VH_EXPECT(live.count(s.second), "every built submap is in the graph",
                  s.second);
      }
    }

    // Nodes.
    std::map<NodeId, const Accepted*> expected;
    for (const auto& t : record->nodes) {
      int index = 0;
      for (const auto& a : t.second) {
        VH_EXPECT(a.id == (NodeId{t.first, index}),
                  "nodes are numbered in order of insertion",
                  a.id << " instead of " << index);
        ++index;
        bool kept = false;
        for (const auto& s : a.submaps) {
          kept |= live.count(id_of.at(s.get())) != 0;
        }
        if (kept) expected[a.id] = &a;
        VH_EXPECT(!kept || node_map.Contains(a.id),
                  "every accepted scan has its node", a.id);
      }
    }
    std::map<int, common::Time> last;
    for (const auto& n : node_map) {
      ++nodes;
      VH_EXPECT(n.data.constant_data != nullptr, "node has data", n.id);
      VH_EXPECT(Finite(n.data.global_pose), "finite node pose", n.id);
      VH_EXPECT(!last.count(n.id.trajectory_id) ||
                    last[n.id.trajectory_id] <= n.data.constant_data->time,
                "nodes in time order", n.id);
      last[n.id.trajectory_id] = n.data.constant_data->time;
      VH_EXPECT(poses.Contains(n.id) &&
                    Distance(poses.at(n.id).global_pose,
                             n.data.global_pose) == 0. &&
                    poses.at(n.id).constant_pose_data.has_value() &&
                    poses.at(n.id).constant_pose_data->time ==
                        n.data.constant_data->time,
                "node poses agree with the nodes", n.id);
      if (loaded.count(n.id.trajectory_id)) continue;
      VH_EXPECT(expected.count(n.id), "every node is an accepted scan of a "
                                      "submap that still exists",
                n.id);
      VH_EXPECT(n.data.constant_data == expected[n.id]->data,
                "node has the accepted scan's data", n.id);
    }
    VH_EXPECT(poses.size() == node_map.size(), "as many node poses as nodes",
              poses.size());

    // Constraints.
    std::set<std::pair<SubmapId, NodeId>> intra_seen, inter_seen;
    const auto& o = options.pose_graph_options();
    for (const auto& c : constraints) {
      VH_EXPECT(submap_map.Contains(c.submap_id), "constraint has its submap",
                c.submap_id);
      VH_EXPECT(node_map.Contains(c.node_id), "constraint has its node",
                c.node_id);
      VH_EXPECT(Finite(c.pose.zbar_ij), "finite constraint", c.submap_id);
      const auto key = std::make_pair(c.submap_id, c.node_id);
      const auto& submap = *submap_map.at(c.submap_id).submap;
      if (c.tag == Constraint::INTRA_SUBMAP) {
        ++intra;
        VH_EXPECT(intra_seen.insert(key).second,
                  "within-submap constraint only once",
                  c.submap_id << " " << c.node_id);
        const auto& data = *node_map.at(c.node_id).constant_data;
        VH_EXPECT(Distance(c.pose.zbar_ij, submap.local_pose().inverse() *
                                               data.local_pose) < 1e-5,
                  "within-submap constraint has the local relative pose",
                  Distance(c.pose.zbar_ij,
                           submap.local_pose().inverse() * data.local_pose));
        VH_EXPECT(c.pose.translation_weight == o.matcher_translation_weight() &&
                      c.pose.rotation_weight == o.matcher_rotation_weight(),
                  "weights of within-submap constraints", c.submap_id);
        if (!loaded.count(c.submap_id.trajectory_id)) {
          VH_EXPECT(members[c.submap_id].count(c.node_id),
                    "within-submap constraint of a member",
                    c.submap_id << " " << c.node_id);
        }
      } else {
        ++inter;
        inter_cross += c.submap_id.trajectory_id != c.node_id.trajectory_id;
        VH_EXPECT(inter_seen.insert(key).second,
                  "constraint between submaps only once",
                  c.submap_id << " " << c.node_id);
        VH_EXPECT(!members[c.submap_id].count(c.node_id),
                  "loop closure to a submap the node is not part of",
                  c.submap_id << " " << c.node_id);
        VH_EXPECT(submap.insertion_finished(),
                  "loop closure to a finished submap", c.submap_id);
        VH_EXPECT(c.pose.translation_weight ==
                          o.constraint_builder_options()
                              .loop_closure_translation_weight() &&
                      c.pose.rotation_weight ==
                          o.constraint_builder_options()
                              .loop_closure_rotation_weight(),
                  "weights of loop closures", c.submap_id);
      }
    }
    for (const auto& s : members) {
      if (!live.count(s.first) || loaded.count(s.first.trajectory_id)) continue;
      for (const auto& n : s.second) {
        VH_EXPECT(intra_seen.count({s.first, n}),
                  "every member has its within-submap constraint",
                  s.first << " " << n);
      }
    }

    // The frame of a trajectory is that of its newest submap.
    for (const auto& t : graph->GetTrajectoryStates()) {
      const Rigid3d transform = graph->GetLocalToGlobalTransform(t.first);
      VH_EXPECT(Finite(transform), "finite local-to-global transform",
                t.first);
      if (submap_map.SizeOfTrajectoryOrZero(t.first) == 0) continue;
      const auto last_submap = *std::prev(submap_map.EndOfTrajectory(t.first));
      VH_EXPECT(Distance(transform * last_submap.data.submap->local_pose(),
                         last_submap.data.pose) < 1e-6,
                "local-to-global transform places the newest submap",
                last_submap.id);
    }

    // Clusters: trajectories joined by constraints are connected.
    std::map<int, int> cluster;
    const auto clusters = graph->GetConnectedTrajectories();
    for (size_t i = 0; i < clusters.size(); ++i) {
      for (int t : clusters[i]) {
        VH_EXPECT(cluster.emplace(t, i).second, "trajectory in one cluster",
                  t);
      }
    }
    for (const auto& c : constraints) {
      VH_EXPECT(cluster.count(c.submap_id.trajectory_id) &&
                    cluster.count(c.node_id.trajectory_id) &&
                    cluster[c.submap_id.trajectory_id] ==
                        cluster[c.node_id.trajectory_id],
                "constrained trajectories are connected",
                c.submap_id << " " << c.node_id);
    }
  }
};

}  // namespace engine

#endif  // VERIF_ENGINE_H_
