// C37: all sensor readings of a trajectory end up in its pose graph, and a
// trajectory with an initial pose starts there.
#include <deque>

#include "engine.h"

using namespace engine;

namespace {

struct Fed {
  std::vector<sensor::ImuData> imu;
  std::vector<sensor::OdometryData> odometry;
  std::vector<sensor::FixedFramePoseData> fixed_frame;
  std::vector<sensor::LandmarkData> landmarks;
  std::vector<int64_t> firsts;  // first reading of every collated sensor
  bool filter = false;
  double max_time = 0, max_distance = 0, max_angle = 0;
};

struct Event {
  int64_t t;
  int trajectory, sensor, index;
};

int64_t Tick(common::Time time) {
  return common::ToUniversal(time) - common::ToUniversal(T(0));
}

bool SamePose(const Rigid3d& a, const Rigid3d& b) {
  return a.translation() == b.translation() &&
         a.rotation().coeffs() == b.rotation().coeffs();
}

Rigid3d Pose(vh::Rng& rng, bool three_d) {
  return Rigid3d(
      Vector3d(rng.Real(-9, 9), rng.Real(-9, 9), three_d ? rng.Real(-1, 1) : 0),
      sim::Yaw(rng.Real(-3, 3)));
}

// Readings from the common start on are kept, of earlier ones at most the
// last one.
template <typename Data, typename Same>
void Compare(const std::vector<Data>& fed, const std::vector<Data>& got,
             bool collated, int64_t start, const char* what, int trajectory,
             Same same) {
  size_t first = 0;
  if (collated) {
    while (first < fed.size() && Tick(fed[first].time) < start) ++first;
    if (got.size() == fed.size() - first + 1 && first > 0) --first;
  }
  VH_EXPECT(got.size() == fed.size() - first,
            "the graph has all readings of a trajectory",
            what << " of trajectory " << trajectory << ": " << got.size()
                 << " of " << fed.size() << ", expected "
                 << fed.size() - first);
  for (size_t i = 0; i < got.size(); ++i) {
    VH_EXPECT(got[i].time == fed[first + i].time &&
                  same(got[i], fed[first + i]),
              "readings in the graph are those given",
              what << " " << i << " of trajectory " << trajectory);
  }
  vh::Count(std::string("readings_") + what, got.size());
}

template <typename Map>
auto Of(const Map& map, int trajectory) {
  std::vector<typename std::decay<decltype(
      *map.BeginOfTrajectory(trajectory))>::type> result;
  if (!map.HasTrajectory(trajectory)) return result;
  for (const auto& d : map.trajectory(trajectory)) result.push_back(d);
  return result;
}

void Run(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  auto options = RandomOptions(rng, three_d);
  auto builder = m::CreateMapBuilder(options);
  const int n = rng.Int(1, 3);
  std::vector<Fed> fed(n);
  std::vector<m::proto::TrajectoryBuilderOptions> trajectories;
  std::vector<Event> events;
  std::vector<std::deque<sensor::TimedPointCloudData>> scans(n);
  const bool shared = !options.collate_by_trajectory();
  int64_t longest = 0;
  std::vector<std::vector<int>> kinds(n);
  for (int k = 0; k < n; ++k) {
    std::set<SensorId> sensors;
    using Type = SensorId::SensorType;
    const Type types[] = {Type::IMU, Type::ODOMETRY, Type::FIXED_FRAME_POSE,
                          Type::LANDMARK, Type::RANGE};
    const char* names[] = {"imu", "odom", "gps", "marks", "range"};
    for (int s = 0; s < 5; ++s) {
      if (rng.Chance(s < 4 ? 0.65 : 0.15)) kinds[k].push_back(s);
    }
    if (kinds[k].empty()) kinds[k].push_back(rng.Int(0, 3));
    for (int s : kinds[k]) sensors.insert(SensorId{types[s], names[s]});
    RobotOptions robot;
    robot.three_d = three_d;
    auto trajectory = RandomTrajectoryOptions(rng, robot);
    trajectory.set_collate_landmarks(rng.Chance(0.5));
    trajectory.set_collate_fixed_frame(rng.Chance(0.5));
    trajectory.mutable_trajectory_builder_2d_options()->set_use_imu_data(
        kinds[k][0] == 0);
    if (rng.Chance(0.3)) {
      fed[k].filter = true;
      fed[k].max_time = rng.Real(0.05, 2);
      fed[k].max_distance = rng.Real(0.05, 2);
      fed[k].max_angle = rng.Real(0.05, 1);
      auto* filter = trajectory.mutable_pose_graph_odometry_motion_filter();
      filter->set_max_time_seconds(fed[k].max_time);
      filter->set_max_distance_meters(fed[k].max_distance);
      filter->set_max_angle_radians(fed[k].max_angle);
    }
    trajectories.push_back(trajectory);
    builder->AddTrajectoryBuilder(sensors, trajectory, nullptr);
    for (int s : kinds[k]) {
      int64_t t = 100000000 + rng.Int(0, 20000000);
      const int count = s == 4 ? rng.Int(1, 6) : rng.Int(1, 60);
      const int64_t gap = s == 4 ? 3000000 : rng.Int(2, 4000000);
      for (int i = 0; i < count; ++i) {
        events.push_back({t, k, s, i});
        longest = std::max(longest, t);
        t += rng.Int(1, gap);
      }
    }
  }
  if (shared) {
    // A last reading of every sensor, so that no trajectory is held back by
    // another one when it is finished.
    for (int k = 0; k < n; ++k) {
      for (int s : kinds[k]) {
        events.push_back({longest + 1000000 * (k + 1) + rng.Int(1, 999999), k,
                          s, 0});
      }
    }
  }
  std::stable_sort(events.begin(), events.end(),
                   [](const Event& a, const Event& b) { return a.t < b.t; });
  // Readings of a sensor keep their order; which sensor comes first does not
  // matter when each trajectory has a collator of its own.
  if (!shared && rng.Chance(0.7)) {
    std::vector<Event> jittered;
    std::vector<std::pair<int64_t, size_t>> order;
    std::map<std::pair<int, int>, int64_t> last;
    for (size_t i = 0; i < events.size(); ++i) {
      auto& l = last[{events[i].trajectory, events[i].sensor}];
      l = std::max(l + 1, events[i].t + rng.Int(0, 5000000));
      order.emplace_back(l, i);
    }
    std::sort(order.begin(), order.end());
    for (const auto& o : order) jittered.push_back(events[o.second]);
    events = jittered;
  }
  std::set<std::pair<int, int>> seen;
  std::map<int, Rigid3d> walk;
  for (const Event& e : events) {
    auto* b = builder->GetTrajectoryBuilder(e.trajectory);
    Fed& f = fed[e.trajectory];
    const auto& o = trajectories[e.trajectory];
    if (seen.insert({e.trajectory, e.sensor}).second &&
        (e.sensor != 2 || o.collate_fixed_frame()) &&
        (e.sensor != 3 || o.collate_landmarks())) {
      f.firsts.push_back(e.t);
    }
    switch (e.sensor) {
      case 0:
        f.imu.push_back({T(e.t),
                         Vector3d(rng.Real(-0.1, 0.1), rng.Real(-0.1, 0.1),
                                  9.8 + rng.Real(-0.1, 0.1)),
                         Vector3d(0, 0, rng.Real(-0.3, 0.3))});
        b->AddSensorData("imu", f.imu.back());
        break;
      case 1:
      {
        const double dt =
            f.odometry.empty()
                ? 0.
                : (e.t - Tick(f.odometry.back().time)) * kTick;
        auto& at = walk[e.trajectory];
        at = at * Rigid3d(Vector3d(rng.Real(0, 2.) * dt, 0, 0),
                          sim::Yaw(rng.Real(-1, 1) * dt));
        f.odometry.push_back({T(e.t), at});
      }
        b->AddSensorData("odom", f.odometry.back());
        break;
      case 2: {
        sensor::FixedFramePoseData data;
        data.time = T(e.t);
        if (rng.Chance(0.8)) data.pose = Pose(rng, three_d);
        f.fixed_frame.push_back(data);
        b->AddSensorData("gps", data);
        break;
      }
      case 3: {
        sensor::LandmarkData data;
        data.time = T(e.t);
        const int observations = rng.Int(0, 3);
        for (int i = 0; i < observations; ++i) {
          data.landmark_observations.push_back(
              {"mark" + std::to_string(i + rng.Int(0, 1) * 3),
               Pose(rng, three_d), rng.Real(0, 10), rng.Real(0, 10)});
        }
        f.landmarks.push_back(data);
        b->AddSensorData("marks", data);
        break;
      }
      case 4: {
        sensor::TimedPointCloudData data;
        data.time = T(e.t);
        data.origin = Eigen::Vector3f::Zero();
        for (int i = 0; i < 40; ++i) {
          const float a = 0.157f * i;
          data.ranges.push_back(
              {Eigen::Vector3f(3 * std::cos(a), 2 * std::sin(a),
                               three_d ? 0.1f * (i % 7) : 0.f),
               0.f});
        }
        b->AddSensorData("range", data);
        break;
      }
    }
  }
  for (int k = 0; k < n; ++k) builder->FinishTrajectory(k);
  builder->pose_graph()->RunFinalOptimization();

  auto* graph = Graph(builder.get());
  const auto imu = graph->GetImuData();
  const auto odometry = graph->GetOdometryData();
  const auto fixed_frame = graph->GetFixedFramePoseData();
  const auto landmarks = graph->GetLandmarkNodes();
  vh::Digest digest;
  size_t total = 0;
  for (int k = 0; k < n; ++k) {
    const Fed& f = fed[k];
    const int64_t start =
        f.firsts.empty() ? 0 : *std::max_element(f.firsts.begin(),
                                                 f.firsts.end());
    // The graph of a 2D map has no use for inertial data.
    if (three_d) Compare(f.imu, Of(imu, k), true, start, "imu", k,
            [](const sensor::ImuData& a, const sensor::ImuData& b) {
              return a.linear_acceleration == b.linear_acceleration &&
                     a.angular_velocity == b.angular_velocity;
            });
    auto got = Of(odometry, k);
    if (!f.filter) {
      Compare(f.odometry, got, true, start, "odometry", k,
              [](const sensor::OdometryData& a, const sensor::OdometryData& b) {
                return SamePose(a.pose, b.pose);
              });
    } else if (!f.odometry.empty()) {
      size_t i = 0;
      while (i < f.odometry.size() && Tick(f.odometry[i].time) < start) ++i;
      if (i > 0 && !got.empty() && got[0].time == f.odometry[i - 1].time) --i;
      std::vector<sensor::OdometryData> expected;
      bool doubtful = false;
      for (; i < f.odometry.size() && !doubtful; ++i) {
        if (!expected.empty()) {
          const auto& last = expected.back();
          const double dt = (Tick(f.odometry[i].time) - Tick(last.time)) * kTick;
          const double distance = (f.odometry[i].pose.translation() -
                                   last.pose.translation()).norm();
          const double angle = f.odometry[i].pose.rotation().angularDistance(
              last.pose.rotation());
          doubtful = std::abs(dt - f.max_time) < 1e-6 ||
                     std::abs(distance - f.max_distance) < 1e-6 ||
                     std::abs(angle - f.max_angle) < 1e-6;
          if (dt <= f.max_time && distance <= f.max_distance &&
              angle <= f.max_angle) {
            continue;
          }
        }
        expected.push_back(f.odometry[i]);
      }
      if (!doubtful) {
        VH_EXPECT(got.size() == expected.size(),
                  "odometry in the graph is thinned as configured",
                  got.size() << " instead of " << expected.size());
        for (size_t j = 0; j < got.size(); ++j) {
          VH_EXPECT(got[j].time == expected[j].time &&
                        SamePose(got[j].pose, expected[j].pose),
                    "readings in the graph are those given",
                    "thinned odometry " << j);
        }
        vh::Count("readings_thinned_odometry", got.size());
      }
    }
    Compare(f.fixed_frame, Of(fixed_frame, k),
            trajectories[k].collate_fixed_frame(), start, "fixed_frame", k,
            [](const sensor::FixedFramePoseData& a,
               const sensor::FixedFramePoseData& b) {
              return a.pose.has_value() == b.pose.has_value() &&
                     (!a.pose.has_value() ||
                      SamePose(a.pose.value(), b.pose.value()));
            });
    // Landmarks: by landmark. Readings before the start are all or nothing.
    std::map<std::string,
             std::vector<m::PoseGraphInterface::LandmarkNode::
                             LandmarkObservation>> by_id;
    for (const auto& l : landmarks) {
      for (const auto& observation : l.second.landmark_observations) {
        if (observation.trajectory_id == k) {
          by_id[l.first].push_back(observation);
        }
      }
    }
    size_t first = 0;
    if (trajectories[k].collate_landmarks()) {
      while (first < f.landmarks.size() &&
             Tick(f.landmarks[first].time) < start) {
        ++first;
      }
      if (first > 0) {
        for (const auto& l : by_id) {
          if (l.second[0].time == f.landmarks[first - 1].time) {
            --first;
            break;
          }
        }
      }
    }
    size_t observations = 0;
    for (size_t i = first; i < f.landmarks.size(); ++i) {
      for (const auto& observation : f.landmarks[i].landmark_observations) {
        auto& list = by_id[observation.id];
        VH_EXPECT(!list.empty() && list[0].time == f.landmarks[i].time &&
                      SamePose(list[0].landmark_to_tracking_transform,
                               observation.landmark_to_tracking_transform) &&
                      list[0].translation_weight ==
                          observation.translation_weight &&
                      list[0].rotation_weight == observation.rotation_weight,
                  "the graph has all landmark observations, in order",
                  observation.id << " at reading " << i);
        list.erase(list.begin());
        ++observations;
      }
    }
    for (const auto& l : by_id) {
      VH_EXPECT(l.second.empty(), "no other landmark observations", l.first);
    }
    vh::Count("readings_landmarks", observations);
    total += f.imu.size() + f.odometry.size() + f.fixed_frame.size() +
             f.landmarks.size();
    for (const auto& d : f.odometry) digest.Add(d.pose.translation().x());
    for (const auto& d : f.imu) digest.Add(d.linear_acceleration.x());
    digest.Add(f.fixed_frame.size()).Add(observations).Add(start);
  }
  if (total > 5) vh::Distinct(digest.Get());
}

// A second trajectory starts at a given pose relative to the first one.
void InitialPose(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  auto options = RandomOptions(rng, three_d);
  options.set_collate_by_trajectory(true);
  auto* graph_options = options.mutable_pose_graph_options();
  // No constraints between the trajectories.
  graph_options->set_global_sampling_ratio(1e-9);
  graph_options->mutable_constraint_builder_options()->set_sampling_ratio(1e-9);
  graph_options->set_optimize_every_n_nodes(rng.Chance(0.5) ? 0
                                                            : rng.Int(2, 9));
  const sim::World world = sim::World::Random(rng);
  auto builder = m::CreateMapBuilder(options);
  RobotOptions kind;
  kind.three_d = kind.imu = three_d;
  kind.odometry = rng.Chance(0.5);
  Record record;
  const Robot first =
      Robot::Make(rng, world, kind, 0, three_d ? rng.Int(3, 8) : rng.Int(3, 25));
  builder->AddTrajectoryBuilder(first.sensors,
                                RandomTrajectoryOptions(rng, kind),
                                record.Callback());
  for (const auto& r : first.stream) r.add(builder->GetTrajectoryBuilder(0));
  builder->FinishTrajectory(0);
  builder->pose_graph()->RunFinalOptimization();
  const auto nodes = builder->pose_graph()->GetTrajectoryNodes();
  if (nodes.empty()) return;

  const int64_t begin = Tick(nodes.BeginOfTrajectory(0)->data.time());
  const int64_t end = Tick(std::prev(nodes.EndOfTrajectory(0))->data.time());
  const int64_t t = rng.Chance(0.2)
                        ? begin - rng.Int(0, 10000000)
                        : rng.Chance(0.25) ? end + rng.Int(0, 10000000)
                                           : begin + rng.Int(0, end - begin);
  const Rigid3d relative = Pose(rng, three_d);
  Rigid3d base = nodes.BeginOfTrajectory(0)->data.global_pose;
  for (const auto& node : nodes.trajectory(0)) {
    const int64_t at = Tick(node.data.time());
    if (at <= t) {
      base = node.data.global_pose;
      continue;
    }
    if (t > begin) {
      const auto before = *std::prev(
          nodes.lower_bound(0, node.data.time()));
      const double f = double(t - Tick(before.data.time())) /
                       double(at - Tick(before.data.time()));
      const Rigid3d a = before.data.global_pose, b = node.data.global_pose;
      base = Rigid3d(a.translation() + f * (b.translation() - a.translation()),
                     a.rotation().slerp(f, b.rotation()));
    }
    break;
  }
  const Rigid3d expected = base * relative;
  auto trajectory = RandomTrajectoryOptions(rng, kind);
  auto* initial = trajectory.mutable_initial_trajectory_pose();
  initial->set_to_trajectory_id(0);
  *initial->mutable_relative_pose() = tf::ToProto(relative);
  initial->set_timestamp(common::ToUniversal(T(t)));
  const Robot second = Robot::Make(rng, world, kind, 900000000,
                                   three_d ? rng.Int(2, 6) : rng.Int(2, 12));
  const int id = builder->AddTrajectoryBuilder(second.sensors, trajectory,
                                               record.Callback());
  VH_EXPECT(Distance(builder->pose_graph()->GetLocalToGlobalTransform(id),
                     expected) < 1e-6,
            "a new trajectory's frame is at the initial pose",
            Distance(builder->pose_graph()->GetLocalToGlobalTransform(id),
                     expected));
  for (const auto& r : second.stream) {
    r.add(builder->GetTrajectoryBuilder(id));
  }
  builder->FinishTrajectory(id);
  builder->pose_graph()->RunFinalOptimization();
  const auto submaps = builder->pose_graph()->GetAllSubmapData();
  size_t between = 0;
  for (const auto& c : builder->pose_graph()->constraints()) {
    between += c.submap_id.trajectory_id != c.node_id.trajectory_id;
  }
  vh::Count("initial_poses");
  vh::Count("constraints_between", between);
  if (submaps.SizeOfTrajectoryOrZero(id) == 0) return;
  const auto clusters = Graph(builder.get())->GetConnectedTrajectories();
  VH_EXPECT(clusters.size() == 1 && clusters[0].size() == 2,
            "a trajectory is connected with the one it was placed relative to",
            clusters.size());
  if (between > 0) return;
  // Nothing pulls the second trajectory anywhere else.
  const auto start = *submaps.BeginOfTrajectory(id);
  Rigid3d want = expected * start.data.submap->local_pose();
  if (!three_d) want = tf::Embed3D(tf::Project2D(want));
  VH_EXPECT(Distance(start.data.pose, want) < 0.3,
            "the trajectory starts at its initial pose",
            Distance(start.data.pose, want));
  vh::Max("initial_pose_um", 1e6 * Distance(start.data.pose, want));
  vh::Distinct(vh::Digest()
                   .Add(expected.translation().x())
                   .Add(submaps.SizeOfTrajectoryOrZero(id))
                   .Get());
}

}  // namespace

VH_SCENARIO(readings_2d, 400, 12000) { Run(rng, false); }
VH_SCENARIO(readings_3d, 200, 6000) { Run(rng, true); }
VH_SCENARIO(initial_pose_2d, 48, 1500) { InitialPose(rng, false); }
VH_SCENARIO(initial_pose_3d, 12, 400) { InitialPose(rng, true); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
