// C21: mapping with concurrent readers: no data race, no memory error, and
// every snapshot is consistent in itself.
#include <thread>

#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/mapping/proto/submap_visualization.pb.h"
#include "engine.h"

using namespace engine;

namespace {

constexpr int kOps = 17;

struct Reader {
  m::MapBuilderInterface* builder;
  vh::Rng rng;
  const std::vector<int>* trajectories;
  std::atomic<bool>* stop;
  bool shrinking;  // submaps may be removed
  uint32_t mask;   // which queries
  int64_t reads[kOps] = {};
  size_t max_nodes = 0, max_submaps = 0, max_constraints = 0;

  void Grows(size_t now, size_t* seen, const char* what) {
    VH_NOTE(shrinking || now >= *seen, "what was seen once stays",
            what << " " << now << " after " << *seen);
    *seen = std::max(*seen, now);
  }
  void Op(int op) {
    auto* graph = Graph(builder);
    const int id = (*trajectories)[rng.Int(0, trajectories->size() - 1)];
    ++reads[op];
    switch (op) {
      case 0: {
        const auto all = graph->GetAllSubmapData();
        Grows(all.size(), &max_submaps, "submaps");
        for (const auto& s : all) {
          VH_NOTE(s.data.submap != nullptr, "submap present", s.id);
          VH_NOTE(Finite(s.data.pose), "finite submap pose", s.id);
        }
        break;
      }
      case 1: {
        const auto all = graph->GetAllSubmapPoses();
        for (const auto& s : all) {
          VH_NOTE(s.data.version >= 0, "version", s.id);
          VH_NOTE(Finite(s.data.pose), "finite submap pose", s.id);
        }
        break;
      }
      case 2: {
        const SubmapId s{id, rng.Int(0, 4)};
        const auto one = graph->GetSubmapData(s);
        VH_NOTE(one.submap == nullptr || Finite(one.pose),
                "finite submap pose", s);
        break;
      }
      case 3:
        VH_NOTE(Finite(graph->GetLocalToGlobalTransform(id)),
                "finite transform", id);
        break;
      case 4: {
        const auto nodes = graph->GetTrajectoryNodes();
        Grows(nodes.size(), &max_nodes, "nodes");
        common::Time last = common::Time::min();
        int trajectory = -1;
        for (const auto& n : nodes) {
          VH_NOTE(n.data.constant_data != nullptr, "node has data", n.id);
          if (n.data.constant_data == nullptr) continue;
          if (n.id.trajectory_id != trajectory) last = common::Time::min();
          trajectory = n.id.trajectory_id;
          VH_NOTE(last <= n.data.constant_data->time, "nodes in time order",
                  n.id);
          last = n.data.constant_data->time;
          VH_NOTE(Finite(n.data.global_pose), "finite node pose", n.id);
        }
        break;
      }
      case 5: {
        for (const auto& n : graph->GetTrajectoryNodePoses()) {
          VH_NOTE(Finite(n.data.global_pose), "finite node pose", n.id);
          VH_NOTE(n.data.constant_pose_data.has_value(), "node has data",
                  n.id);
        }
        break;
      }
      case 6: {
        const auto states = graph->GetTrajectoryStates();
        (void)states;
        break;
      }
      case 7:
        for (const auto& l : graph->GetLandmarkPoses()) {
          VH_NOTE(Finite(l.second), "finite landmark", l.first);
        }
        break;
      case 8: {
        const auto all = graph->constraints();
        Grows(all.size(), &max_constraints, "constraints");
        for (const auto& c : all) {
          VH_NOTE(Finite(c.pose.zbar_ij), "finite constraint", c.submap_id);
        }
        break;
      }
      case 9:
        graph->IsTrajectoryFinished(id);
        graph->IsTrajectoryFrozen(id);
        break;
      case 10:
        for (const auto& d : graph->GetTrajectoryData()) {
          VH_NOTE(d.second.gravity_constant >= 0., "gravity", d.first);
        }
        break;
      case 11: {
        const auto proto = graph->ToProto(true);
        VH_NOTE(proto.trajectory_size() <=
                    static_cast<int>(trajectories->size()),
                "trajectories", proto.trajectory_size());
        break;
      }
      case 12:
        if (!rng.Chance(0.05)) break;
        graph->SetLandmarkPose("landmark" + std::to_string(rng.Int(0, 2)),
                               Robot::LandmarkPose(rng.Int(0, 2)),
                               rng.Chance(0.3));
        break;
      case 13: {
        const auto imu = graph->GetImuData();
        const auto odometry = graph->GetOdometryData();
        const auto gps = graph->GetFixedFramePoseData();
        (void)imu;
        (void)odometry;
        (void)gps;
        break;
      }
      case 14: {
        const auto landmarks = graph->GetLandmarkNodes();
        for (const auto& l : landmarks) {
          for (const auto& o : l.second.landmark_observations) {
            VH_NOTE(Finite(o.landmark_to_tracking_transform), "observation",
                    l.first);
          }
        }
        break;
      }
      case 15: {
        std::set<int> seen;
        for (const auto& c : graph->GetConnectedTrajectories()) {
          for (int t : c) {
            VH_NOTE(seen.insert(t).second, "one cluster", t);
          }
        }
        break;
      }
      case 16: {  // textures of finished submaps
        for (const auto& s : graph->GetAllSubmapData()) {
          if (!s.data.submap->insertion_finished() || !rng.Chance(0.3)) {
            continue;
          }
          m::proto::SubmapQuery::Response response;
          s.data.submap->ToResponseProto(s.data.pose, &response);
          VH_NOTE(response.textures_size() > 0, "texture", s.id);
          m::proto::Submap proto = s.data.submap->ToProto(true);
          VH_NOTE(proto.has_submap_2d() || proto.has_submap_3d(), "submap",
                  s.id);
        }
        break;
      }
    }
  }
  void Run() {
    while (!stop->load()) {
      const int op = rng.Int(0, kOps - 1);
      if ((mask >> op) & 1) Op(op);
      if (rng.Chance(0.5)) usleep(rng.Int(1, 300));
    }
  }
};

// Trajectory data is read while the optimization writes it: see below.
constexpr int kTrajectoryData = 10;
constexpr uint32_t kAll = ~(1u << kTrajectoryData);

void Run(vh::Rng& rng, bool three_d, uint32_t mask = kAll) {
  vmutex::Configure(rng.U64(), rng.Chance(0.3) ? 0 : rng.Int(1, 12));
  auto options = RandomOptions(rng, three_d);
  options.set_collate_by_trajectory(true);
  if (mask == 1u << kTrajectoryData) {
    options.mutable_pose_graph_options()->set_optimize_every_n_nodes(1);
  }
  if (three_d) {
    auto* o = options.mutable_pose_graph_options()
                  ->mutable_optimization_problem_options();
    o->set_use_online_imu_extrinsics_in_3d(rng.Chance(0.5));
    o->set_fix_z_in_3d(rng.Chance(0.2));
  }
  const sim::World world = sim::World::Random(rng);
  Record record;
  auto builder = m::CreateMapBuilder(options);
  std::atomic<int> optimizations{0};
  builder->pose_graph()->SetGlobalSlamOptimizationCallback(
      [&](const std::map<int, SubmapId>&, const std::map<int, NodeId>&) {
        ++optimizations;
      });
  const int n = rng.Int(1, 2);
  std::vector<Robot> robots;
  std::vector<int> ids;
  bool shrinking = false;
  for (int i = 0; i < n; ++i) {
    auto kind = RandomRobot(rng, three_d);
    if (mask == 1u << kTrajectoryData) kind.fixed_frame = true;
    robots.push_back(Robot::Make(rng, world, kind, rng.Int(0, 5000000),
                                 three_d ? rng.Int(4, 8) : rng.Int(8, 20)));
    auto trajectory = RandomTrajectoryOptions(rng, kind);
    if (rng.Chance(0.3)) {
      shrinking = true;
      trajectory.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(
          rng.Int(2, 3));
    }
    ids.push_back(builder->AddTrajectoryBuilder(robots[i].sensors, trajectory,
                                                record.Callback()));
  }
  Feeder feeder(builder.get());
  for (int i = 0; i < n; ++i) feeder.Add(i, robots[i]);
  std::atomic<bool> stop{false};
  std::vector<std::unique_ptr<Reader>> readers;
  std::vector<std::thread> threads;
  const int num_readers = rng.Int(1, 3);
  for (int i = 0; i < num_readers; ++i) {
    readers.push_back(absl::WrapUnique(
        new Reader{builder.get(), vh::Rng(rng.U64()), &ids, &stop,
                   shrinking, mask}));
  }
  for (auto& r : readers) {
    threads.emplace_back([&r] { r->Run(); });
  }
  while (feeder.Step()) {
    if (rng.Chance(0.02)) usleep(rng.Int(10, 2000));
  }
  for (int i = 0; i < n; ++i) {
    builder->FinishTrajectory(i);
    if (rng.Chance(0.3)) builder->pose_graph()->RunFinalOptimization();
  }
  builder->pose_graph()->RunFinalOptimization();
  stop = true;
  for (auto& t : threads) t.join();
  int64_t total = 0;
  for (auto& r : readers) {
    for (int i = 0; i < kOps; ++i) {
      total += r->reads[i];
      vh::Count("read_kind_" + std::to_string(i), r->reads[i]);
    }
  }
  GraphMonitor monitor{options, &record};
  monitor.trimming = shrinking;
  if (!shrinking) monitor.Check(builder.get());
  vh::Count("reads", total);
  vh::Count("optimizations", optimizations);
  vh::Count("nodes", builder->pose_graph()->GetTrajectoryNodes().size());
  if (total > 20 && optimizations > 1) {
    vh::Distinct(
        vh::Digest().Add(total).Add(int(optimizations)).Add(rng.U64()).Get());
  }
}

// GetTrajectoryData() during an optimization, seen by the race detector only.
void TrajectoryData(vh::Rng& rng) {
  for (int i = 0; i < 6; ++i) {
    std::string text;
    const uint64_t seed = rng.U64();
    const auto outcome = vh::RunForked(
        [&] {
          vh::Rng mine(seed);
          Run(mine, i % 2 == 0, 1u << kTrajectoryData);
        },
        60, &text);
    vh::Count("trajectory_data_runs");
    const bool race =
        text.find("ThreadSanitizer: data race") != std::string::npos;
    if (race && text.find("::GetTrajectoryData()") != std::string::npos &&
        (text.find("::Solve(") != std::string::npos ||
         // The frames of the solver's library can hide its caller.
         text.find("::RunOptimization()") != std::string::npos)) {
      vh::Report("data race between GetTrajectoryData and the optimization",
                 text.substr(0, 3000));
      return;
    }
    VH_EXPECT(!race && outcome == vh::Outcome::kReturned &&
                  text.find("MONITOR") == std::string::npos,
              "reading trajectory data during a run",
              text.substr(std::min(text.size(), text.find("WARNING: Thread")), 3000) << " ... " <<
              text.substr(text.size() > 2000 ? text.size() - 2000 : 0));
  }
}

// The map builder goes away while work is still going on in the background.
void Shutdown(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  auto options = RandomOptions(rng, three_d);
  options.set_num_background_threads(rng.Int(1, 4));
  options.set_collate_by_trajectory(true);
  auto* graph_options = options.mutable_pose_graph_options();
  graph_options->set_optimize_every_n_nodes(rng.Int(2, 15));
  graph_options->mutable_constraint_builder_options()->set_sampling_ratio(1.);
  const sim::World world = sim::World::Random(rng);
  Record record;
  std::atomic<int> optimizations{0};
  auto builder = m::CreateMapBuilder(options);
  builder->pose_graph()->SetGlobalSlamOptimizationCallback(
      [&](const std::map<int, SubmapId>&, const std::map<int, NodeId>&) {
        ++optimizations;
      });
  const int n = rng.Int(1, 2);
  std::vector<Robot> robots;
  for (int i = 0; i < n; ++i) {
    const auto kind = RandomRobot(rng, three_d);
    robots.push_back(Robot::Make(rng, world, kind, rng.Int(0, 5000000),
                                 three_d ? rng.Int(3, 7) : rng.Int(6, 20)));
    builder->AddTrajectoryBuilder(robots[i].sensors,
                                  RandomTrajectoryOptions(rng, kind),
                                  record.Callback());
  }
  Feeder feeder(builder.get());
  for (int i = 0; i < n; ++i) feeder.Add(i, robots[i]);
  int steps = rng.Chance(0.5) ? 1 << 30 : rng.Int(1, 2000);
  while (steps-- > 0 && feeder.Step()) {
  }
  for (int i = 0; i < n; ++i) builder->FinishTrajectory(i);
  const size_t nodes = builder->pose_graph()->GetTrajectoryNodes().size();
  const int before = optimizations;
  builder.reset();
  if (optimizations > before) vh::Count("work_finished_at_shutdown");
  vh::Count("shutdown_nodes", nodes);
  if (nodes > 3) vh::Distinct(vh::Digest().Add(nodes).Add(rng.U64()).Get());
}

}  // namespace

VH_SCENARIO(shutdown_2d, 24, 800) { Shutdown(rng, false); }
VH_SCENARIO(shutdown_3d, 6, 200) { Shutdown(rng, true); }
VH_SCENARIO(readers_2d, 24, 1200) { Run(rng, false); }
VH_SCENARIO(readers_3d, 10, 400) { Run(rng, true); }

VH_SCENARIO(trajectory_data, 1, 4) { TrajectoryData(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
