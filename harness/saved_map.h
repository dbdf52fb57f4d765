// Saved states, compared independently of how they are stored, and worlds in
// which they come about.
#ifndef VERIF_SAVED_MAP_H_
#define VERIF_SAVED_MAP_H_

#include <unistd.h>

#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/sensor/compressed_point_cloud.h"
#include "engine.h"

using namespace engine;
namespace io = cartographer::io;

namespace {

using SerializedData = m::proto::SerializedData;
using TrajectoryData = m::PoseGraphInterface::TrajectoryData;
using Observation =
    m::PoseGraphInterface::LandmarkNode::LandmarkObservation;

// A saved state as written.
struct Saved {
  m::proto::SerializationHeader header;
  std::vector<SerializedData> parts;
};

// A map, independent of how it is stored.
struct Map {
  struct SubmapEntry {
    Rigid3d pose;
    std::string content;  // serialized, without the id
  };
  struct NodeEntry {
    Rigid3d pose;
    common::Time time;
    std::string content;
    std::shared_ptr<const m::TrajectoryNode::Data> data;  // may be missing
  };
  struct ConstraintEntry {
    Rigid3d pose;
    double wt, wr;
  };
  std::set<int> trajectories;
  std::map<SubmapId, SubmapEntry> submaps;
  std::map<NodeId, NodeEntry> nodes;
  std::map<std::tuple<SubmapId, NodeId, int>, std::vector<ConstraintEntry>>
      constraints;
  std::map<std::string, Rigid3d> landmarks;
  std::map<std::string, std::multimap<std::pair<int, int64_t>, std::string>>
      observations;
  std::map<int, std::map<int64_t, std::string>> imu, odometry, fixed;
  std::map<int, std::string> data;
  std::map<int, std::string> options;
};

std::string Bytes(const google::protobuf::Message& message) {
  return message.SerializeAsString();
}

std::string SubmapContent(m::proto::Submap proto) {
  proto.clear_submap_id();
  return Bytes(proto);
}

std::string ObservationContent(const Observation& o) {
  cartographer::sensor::proto::LandmarkData proto;
  auto* p = proto.add_landmark_observations();
  *p->mutable_landmark_to_tracking_transform() =
      tf::ToProto(o.landmark_to_tracking_transform);
  p->set_translation_weight(o.translation_weight);
  p->set_rotation_weight(o.rotation_weight);
  return Bytes(proto);
}

m::proto::TrajectoryData DataProto(const TrajectoryData& d) {
  m::proto::TrajectoryData proto;
  proto.set_gravity_constant(d.gravity_constant);
  *proto.mutable_imu_calibration() = tf::ToProto(
      Quaterniond(d.imu_calibration[0], d.imu_calibration[1],
                  d.imu_calibration[2], d.imu_calibration[3]));
  if (d.fixed_frame_origin_in_map.has_value()) {
    *proto.mutable_fixed_frame_origin_in_map() =
        tf::ToProto(*d.fixed_frame_origin_in_map);
  }
  return proto;
}

// The part of a live graph that a saved state is to contain.
Map FromGraph(m::PoseGraph* graph, bool unfinished,
              const std::function<bool(int)>& wanted) {
  Map map;
  for (const auto& s : graph->GetAllSubmapData()) {
    if (!wanted(s.id.trajectory_id)) continue;
    map.trajectories.insert(s.id.trajectory_id);
    if (!unfinished && !s.data.submap->insertion_finished()) continue;
    map.submaps[s.id] = {s.data.pose,
                         SubmapContent(s.data.submap->ToProto(true))};
  }
  for (const auto& n : graph->GetTrajectoryNodes()) {
    if (!wanted(n.id.trajectory_id)) continue;
    map.trajectories.insert(n.id.trajectory_id);
    map.nodes[n.id] = {n.data.global_pose, n.data.constant_data->time,
                       Bytes(m::ToProto(*n.data.constant_data)),
                       n.data.constant_data};
  }
  for (const auto& c : graph->constraints()) {
    if (!map.submaps.count(c.submap_id) || !wanted(c.node_id.trajectory_id)) {
      continue;
    }
    map.constraints[{c.submap_id, c.node_id, c.tag}].push_back(
        {c.pose.zbar_ij, c.pose.translation_weight, c.pose.rotation_weight});
  }
  map.landmarks = graph->GetLandmarkPoses();
  for (const auto& l : graph->GetLandmarkNodes()) {
    for (const auto& o : l.second.landmark_observations) {
      if (!map.trajectories.count(o.trajectory_id)) continue;
      map.observations[l.first].emplace(
          std::make_pair(o.trajectory_id, common::ToUniversal(o.time)),
          ObservationContent(o));
    }
  }
  const auto imu = graph->GetImuData();
  const auto odometry = graph->GetOdometryData();
  const auto fixed = graph->GetFixedFramePoseData();
  for (int t : imu.trajectory_ids()) {
    if (!map.trajectories.count(t)) continue;
    for (const auto& d : imu.trajectory(t)) {
      map.imu[t][common::ToUniversal(d.time)] = Bytes(sensor::ToProto(d));
    }
  }
  for (int t : odometry.trajectory_ids()) {
    if (!map.trajectories.count(t)) continue;
    for (const auto& d : odometry.trajectory(t)) {
      map.odometry[t][common::ToUniversal(d.time)] = Bytes(sensor::ToProto(d));
    }
  }
  for (int t : fixed.trajectory_ids()) {
    if (!map.trajectories.count(t)) continue;
    for (const auto& d : fixed.trajectory(t)) {
      map.fixed[t][common::ToUniversal(d.time)] = Bytes(sensor::ToProto(d));
    }
  }
  for (const auto& d : graph->GetTrajectoryData()) {
    if (!map.trajectories.count(d.first)) continue;
    map.data[d.first] = Bytes(DataProto(d.second));
  }
  return map;
}

// What a saved state says.
Map FromSaved(const Saved& saved) {
  Map map;
  VH_EXPECT(saved.parts.size() >= 2 && saved.parts[0].has_pose_graph() &&
                saved.parts[1].has_all_trajectory_builder_options(),
            "saved state starts with the graph and the options",
            saved.parts.size());
  VH_EXPECT(saved.header.format_version() == 2, "format version",
            saved.header.format_version());
  const auto& graph = saved.parts[0].pose_graph();
  const auto& options = saved.parts[1].all_trajectory_builder_options();
  VH_EXPECT(options.options_with_sensor_ids_size() == graph.trajectory_size(),
            "saved settings of exactly the saved trajectories",
            options.options_with_sensor_ids_size()
                << " for " << graph.trajectory_size());
  std::map<SubmapId, Rigid3d> submap_poses;
  std::map<NodeId, std::pair<Rigid3d, int64_t>> node_poses;
  for (int i = 0; i < graph.trajectory_size(); ++i) {
    const auto& t = graph.trajectory(i);
    const int id = t.trajectory_id();
    VH_EXPECT(map.trajectories.insert(id).second, "trajectory saved once", id);
    map.options[id] = Bytes(options.options_with_sensor_ids(i));
    for (const auto& s : t.submap()) {
      VH_EXPECT(submap_poses
                    .emplace(SubmapId{id, s.submap_index()},
                             tf::ToRigid3(s.pose()))
                    .second,
                "submap pose saved once", s.submap_index());
    }
    for (const auto& n : t.node()) {
      VH_EXPECT(node_poses
                    .emplace(NodeId{id, n.node_index()},
                             std::make_pair(tf::ToRigid3(n.pose()),
                                            n.timestamp()))
                    .second,
                "node pose saved once", n.node_index());
    }
  }
  for (const auto& c : graph.constraint()) {
    map.constraints[{SubmapId{c.submap_id().trajectory_id(),
                              c.submap_id().submap_index()},
                     NodeId{c.node_id().trajectory_id(),
                            c.node_id().node_index()},
                     c.tag() == m::proto::PoseGraph::Constraint::INTRA_SUBMAP
                         ? Constraint::INTRA_SUBMAP
                         : Constraint::INTER_SUBMAP}]
        .push_back({tf::ToRigid3(c.relative_pose()), c.translation_weight(),
                    c.rotation_weight()});
  }
  for (const auto& l : graph.landmark_poses()) {
    map.landmarks[l.landmark_id()] = tf::ToRigid3(l.global_pose());
  }
  for (size_t i = 2; i < saved.parts.size(); ++i) {
    const auto& p = saved.parts[i];
    const auto known = [&](int t) {
      VH_EXPECT(map.trajectories.count(t),
                "everything saved belongs to a saved trajectory",
                "trajectory " << t << " part " << p.data_case());
    };
    switch (p.data_case()) {
      case SerializedData::kSubmap: {
        const SubmapId id{p.submap().submap_id().trajectory_id(),
                          p.submap().submap_id().submap_index()};
        known(id.trajectory_id);
        VH_EXPECT(submap_poses.count(id) && !map.submaps.count(id),
                  "submap saved once, with its pose", id);
        map.submaps[id] = {submap_poses[id], SubmapContent(p.submap())};
        break;
      }
      case SerializedData::kNode: {
        const NodeId id{p.node().node_id().trajectory_id(),
                        p.node().node_id().node_index()};
        known(id.trajectory_id);
        VH_EXPECT(node_poses.count(id) && !map.nodes.count(id),
                  "node saved once, with its pose", id);
        map.nodes[id] = {node_poses.at(id).first,
                         common::FromUniversal(node_poses.at(id).second),
                         Bytes(p.node().node_data()), nullptr};
        break;
      }
      case SerializedData::kTrajectoryData: {
        auto data = p.trajectory_data();
        known(data.trajectory_id());
        const int id = data.trajectory_id();
        data.clear_trajectory_id();
        VH_EXPECT(map.data.emplace(id, Bytes(data)).second,
                  "trajectory data saved once", id);
        break;
      }
      case SerializedData::kImuData: {
        known(p.imu_data().trajectory_id());
        VH_EXPECT(map.imu[p.imu_data().trajectory_id()]
                      .emplace(p.imu_data().imu_data().timestamp(),
                               Bytes(p.imu_data().imu_data()))
                      .second,
                  "inertial data saved once", i);
        break;
      }
      case SerializedData::kOdometryData: {
        known(p.odometry_data().trajectory_id());
        VH_EXPECT(map.odometry[p.odometry_data().trajectory_id()]
                      .emplace(p.odometry_data().odometry_data().timestamp(),
                               Bytes(p.odometry_data().odometry_data()))
                      .second,
                  "odometry saved once", i);
        break;
      }
      case SerializedData::kFixedFramePoseData: {
        const auto& d = p.fixed_frame_pose_data();
        known(d.trajectory_id());
        VH_EXPECT(map.fixed[d.trajectory_id()]
                      .emplace(d.fixed_frame_pose_data().timestamp(),
                               Bytes(d.fixed_frame_pose_data()))
                      .second,
                  "fixed frame poses saved once", i);
        break;
      }
      case SerializedData::kLandmarkData: {
        const auto& d = p.landmark_data();
        known(d.trajectory_id());
        for (const auto& o : d.landmark_data().landmark_observations()) {
          cartographer::sensor::proto::LandmarkData content;
          *content.add_landmark_observations() = o;
          content.mutable_landmark_observations(0)->clear_id();
          map.observations[o.id()].emplace(
              std::make_pair(d.trajectory_id(),
                             d.landmark_data().timestamp()),
              Bytes(content));
        }
        break;
      }
      default:
        VH_EXPECT(false, "only known parts are saved", p.data_case());
    }
  }
  VH_EXPECT(map.submaps.size() == submap_poses.size(),
            "every saved submap pose has its submap", submap_poses.size());
  VH_EXPECT(map.nodes.size() == node_poses.size(),
            "every saved node pose has its node", node_poses.size());
  return map;
}

Map Renumber(const Map& in, const std::map<int, int>& to) {
  Map out;
  const auto s = [&](SubmapId id) {
    return SubmapId{to.at(id.trajectory_id), id.submap_index};
  };
  const auto n = [&](NodeId id) {
    return NodeId{to.at(id.trajectory_id), id.node_index};
  };
  for (int t : in.trajectories) out.trajectories.insert(to.at(t));
  for (const auto& e : in.submaps) out.submaps.emplace(s(e.first), e.second);
  for (const auto& e : in.nodes) out.nodes.emplace(n(e.first), e.second);
  for (const auto& e : in.constraints) {
    out.constraints[{s(std::get<0>(e.first)), n(std::get<1>(e.first)),
                     std::get<2>(e.first)}] = e.second;
  }
  out.landmarks = in.landmarks;
  for (const auto& l : in.observations) {
    for (const auto& o : l.second) {
      out.observations[l.first].emplace(
          std::make_pair(to.at(o.first.first), o.first.second), o.second);
    }
  }
  for (const auto& e : in.imu) out.imu[to.at(e.first)] = e.second;
  for (const auto& e : in.odometry) out.odometry[to.at(e.first)] = e.second;
  for (const auto& e : in.fixed) out.fixed[to.at(e.first)] = e.second;
  for (const auto& e : in.data) out.data[to.at(e.first)] = e.second;
  for (const auto& e : in.options) out.options[to.at(e.first)] = e.second;
  return out;
}

std::vector<Eigen::Vector3f> Points(const sensor::PointCloud& cloud) {
  std::vector<Eigen::Vector3f> points;
  for (const auto& p : cloud.points()) points.push_back(p.position);
  return points;
}
bool SameCloud(const sensor::PointCloud& a, const sensor::PointCloud& b) {
  const auto p = Points(a), q = Points(b);
  if (p.size() != q.size()) return false;
  for (const auto& from : {std::make_pair(&p, &q), std::make_pair(&q, &p)}) {
    for (const auto& x : *from.first) {
      float best = 1e9;
      for (const auto& y : *from.second) {
        best = std::min(best, (x - y).lpNorm<Eigen::Infinity>());
      }
      if (best > 1e-3f) return false;
    }
  }
  return true;
}

struct Skip {
  bool constraints = false;   // a frozen map has none
  bool sensor_data = false;   // a frozen map needs none
  bool node_bytes = false;    // point clouds are stored rounded
  bool options = false;
  bool landmarks = false;
};

// Compares two maps; `a` is the original.
void Same(const Map& a, const Map& b, const std::string& what,
          const Skip& skip) {
  VH_EXPECT(a.trajectories == b.trajectories, what + ": same trajectories",
            a.trajectories.size() << " and " << b.trajectories.size());
  VH_EXPECT(a.submaps.size() == b.submaps.size(), what + ": same submaps",
            a.submaps.size() << " and " << b.submaps.size());
  for (const auto& s : a.submaps) {
    auto it = b.submaps.find(s.first);
    VH_EXPECT(it != b.submaps.end(), what + ": same submaps", s.first);
    VH_EXPECT(Distance(s.second.pose, it->second.pose) < 1e-7,
              what + ": same submap poses",
              s.first << " " << Distance(s.second.pose, it->second.pose));
    VH_EXPECT(s.second.content == it->second.content,
              what + ": same submap content", s.first);
  }
  VH_EXPECT(a.nodes.size() == b.nodes.size(), what + ": same nodes",
            a.nodes.size() << " and " << b.nodes.size());
  for (const auto& n : a.nodes) {
    auto it = b.nodes.find(n.first);
    VH_EXPECT(it != b.nodes.end(), what + ": same nodes", n.first);
    VH_EXPECT(Distance(n.second.pose, it->second.pose) < 1e-7 &&
                  n.second.time == it->second.time,
              what + ": same node poses and times", n.first);
    VH_EXPECT(skip.node_bytes || n.second.content == it->second.content,
              what + ": same node content", n.first);
    if (n.second.data == nullptr || it->second.data == nullptr) continue;
    const auto &x = *n.second.data, &y = *it->second.data;
    VH_EXPECT(x.time == y.time && Distance(x.local_pose, y.local_pose) < 1e-9 &&
                  x.gravity_alignment.angularDistance(y.gravity_alignment) <
                      1e-7,
              what + ": same node data", n.first);
    VH_EXPECT(x.rotational_scan_matcher_histogram.size() ==
                      y.rotational_scan_matcher_histogram.size() &&
                  x.rotational_scan_matcher_histogram ==
                      y.rotational_scan_matcher_histogram,
              what + ": same histogram", n.first);
    VH_EXPECT(SameCloud(x.filtered_gravity_aligned_point_cloud,
                        y.filtered_gravity_aligned_point_cloud) &&
                  SameCloud(x.high_resolution_point_cloud,
                            y.high_resolution_point_cloud) &&
                  SameCloud(x.low_resolution_point_cloud,
                            y.low_resolution_point_cloud),
              what + ": same scans", n.first);
  }
  if (!skip.constraints) {
    VH_EXPECT(a.constraints.size() == b.constraints.size(),
              what + ": same constraints",
              a.constraints.size() << " and " << b.constraints.size());
    for (const auto& c : a.constraints) {
      auto it = b.constraints.find(c.first);
      VH_EXPECT(it != b.constraints.end() &&
                    it->second.size() == c.second.size(),
                what + ": same constraints",
                std::get<0>(c.first) << " " << std::get<1>(c.first));
      for (size_t i = 0; i < c.second.size(); ++i) {
        VH_EXPECT(
            Distance(c.second[i].pose, it->second[i].pose) < 1e-7 &&
                c.second[i].wt == it->second[i].wt &&
                c.second[i].wr == it->second[i].wr,
            what + ": same constraint poses and weights",
            std::get<0>(c.first) << " " << std::get<1>(c.first) << " "
                << Distance(c.second[i].pose, it->second[i].pose));
      }
    }
  } else {
    VH_EXPECT(b.constraints.empty(), what + ": no constraints within a frozen "
                                            "map",
              b.constraints.size());
  }
  if (!skip.landmarks) {
    VH_EXPECT(a.landmarks.size() == b.landmarks.size(),
              what + ": same landmarks", a.landmarks.size());
    for (const auto& l : a.landmarks) {
      VH_EXPECT(b.landmarks.count(l.first) &&
                    Distance(b.landmarks.at(l.first), l.second) < 1e-7,
                what + ": same landmark poses", l.first);
    }
  }
  if (skip.sensor_data) {
    VH_EXPECT(b.imu.empty() && b.odometry.empty() && b.fixed.empty() &&
                  b.observations.empty(),
              what + ": no sensor data of a frozen map", 0);
  } else {
    VH_EXPECT(a.imu == b.imu, what + ": same inertial data", a.imu.size());
    VH_EXPECT(a.odometry == b.odometry, what + ": same odometry",
              a.odometry.size());
    VH_EXPECT(a.fixed == b.fixed, what + ": same fixed frame poses",
              a.fixed.size());
    VH_EXPECT(a.observations == b.observations,
              what + ": same landmark observations", a.observations.size());
  }
  VH_EXPECT(a.data.size() == b.data.size(), what + ": same trajectory data",
            a.data.size() << " and " << b.data.size());
  for (const auto& d : a.data) {
    VH_EXPECT(b.data.count(d.first) && b.data.at(d.first) == d.second,
              what + ": same trajectory data", d.first);
  }
  VH_EXPECT(skip.options || a.options == b.options,
            what + ": same trajectory settings", a.options.size());
}

struct File {
  std::string name;
  File() {
    char path[] = "/tmp/verif_saved_XXXXXX";
    const int fd = mkstemp(path);
    if (fd >= 0) close(fd);
    name = std::string(path) + ".pbstream";
    rename(path, name.c_str());
  }
  ~File() { unlink(name.c_str()); }
};

Saved Save(m::MapBuilderInterface* builder, bool unfinished,
           const File& file) {
  VH_EXPECT(builder->SerializeStateToFile(unfinished, file.name),
            "state can be saved", file.name);
  io::ProtoStreamReader reader(file.name);
  Saved saved;
  VH_EXPECT(reader.ReadProto(&saved.header), "state has a header", file.name);
  SerializedData part;
  while (reader.ReadProto(&part)) saved.parts.push_back(part);
  VH_EXPECT(reader.eof(), "state is read to the end", saved.parts.size());
  // The same through a stream.
  size_t index = 0;
  bool same = true;
  io::ForwardingProtoStreamWriter writer(
      [&](const google::protobuf::Message* proto) {
        if (proto == nullptr) return true;
        const std::string bytes = proto->SerializeAsString();
        same &= bytes == (index == 0 ? Bytes(saved.header)
                          : index <= saved.parts.size()
                              ? Bytes(saved.parts[index - 1])
                              : std::string("none"));
        ++index;
        return true;
      });
  builder->SerializeState(unfinished, &writer);
  VH_EXPECT(same && index == saved.parts.size() + 1,
            "saving to a file and to a stream are the same", index);
  return saved;
}

struct World {
  vh::Rng& rng;
  const bool three_d;
  m::proto::MapBuilderOptions options;
  sim::World world;
  std::unique_ptr<sim::Path> same_way;
  Record record;
  std::unique_ptr<m::MapBuilderInterface> builder;
  std::vector<std::unique_ptr<Robot>> robots;
  std::map<int, Robot*> robot_of;
  std::map<int, std::string> settings;
  std::set<int> active, finished, deleted;
  GraphMonitor monitor{options, &record};

  World(vh::Rng& rng, bool three_d)
      : rng(rng), three_d(three_d), options(RandomOptions(rng, three_d)),
        world(sim::World::Random(rng)) {
    options.set_collate_by_trajectory(true);
    if (!three_d && rng.Chance(0.25)) {
      // All robots go the same way and are found to do so.
      same_way = std::make_unique<sim::Path>(sim::Path::Random(rng, world));
      auto* graph = options.mutable_pose_graph_options();
      graph->set_global_sampling_ratio(1.);
      auto* constraints = graph->mutable_constraint_builder_options();
      constraints->set_sampling_ratio(1.);
      constraints->set_max_constraint_distance(15.);
      constraints->set_global_localization_min_score(three_d ? 0.25 : 0.4);
      constraints->set_min_score(three_d ? 0.2 : 0.35);
    }
    if (three_d) {
      auto* graph = options.mutable_pose_graph_options();
      graph->set_global_sampling_ratio(0.03);
      graph->mutable_constraint_builder_options()->set_sampling_ratio(
          rng.Real(0.03, 0.15));
    }
    monitor.trimming = true;
    builder = m::CreateMapBuilder(options);
  }
  m::PoseGraph* graph() { return Graph(builder.get()); }
  int Add(int scans, bool landmarks, int keep = 0) {
    auto kind = RandomRobot(rng, three_d);
    kind.landmarks = landmarks && rng.Chance(0.6);
    robots.push_back(std::make_unique<Robot>(
        Robot::Make(rng, world, kind, rng.Int(0, 5000000), scans,
                    same_way.get())));
    auto trajectory = RandomTrajectoryOptions(rng, kind);
    if (keep > 0) {
      trajectory.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(
          keep);
    }
    const int id = builder->AddTrajectoryBuilder(robots.back()->sensors,
                                                 trajectory,
                                                 record.Callback());
    robot_of[id] = robots.back().get();
    active.insert(id);
    m::proto::TrajectoryBuilderOptionsWithSensorIds proto;
    for (const auto& s : robots.back()->sensors) {
      *proto.add_sensor_id() = m::ToProto(s);
    }
    *proto.mutable_trajectory_builder_options() = trajectory;
    settings[id] = Bytes(proto);
    return id;
  }
  void Finish(int id) {
    builder->FinishTrajectory(id);
    active.erase(id);
    finished.insert(id);
  }
  // Drives random robots; afterwards some are still on their way.
  void Drive(int count, bool landmarks, bool silent) {
    Feeder feeder(builder.get());
    for (int i = 0; i < count; ++i) {
      const int id = Add(three_d ? rng.Int(3, 24) : rng.Int(4, 20), landmarks,
                         rng.Chance(0.15) ? 2 : 0);
      feeder.Add(id, *robot_of[id]);
      if (silent && rng.Chance(0.25)) {
        // A robot whose range finder never delivers anything.
        const int quiet = Add(three_d ? 3 : 5, landmarks);
        for (const auto& r : robot_of[quiet]->stream) {
          if (r.order < 4) r.add(builder->GetTrajectoryBuilder(quiet));
        }
        Finish(quiet);
      }
    }
    while (feeder.Step()) {
    }
  }
  void FinishAll() {
    while (!active.empty()) Finish(*active.begin());
  }
};

bool WaitUntil(const std::function<bool()>& done) {
  for (int i = 0; i < 6000; ++i) {
    if (done()) return true;
    usleep(5000);
  }
  vh::Count("waited_in_vain");
  return false;
}

}  // namespace

#endif  // VERIF_SAVED_MAP_H_
