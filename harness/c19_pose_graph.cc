// C19: structural consistency of the pose graph.
#include "engine.h"

using namespace engine;

namespace {

void Run(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  const auto options = RandomOptions(rng, three_d);
  const sim::World world = sim::World::Random(rng);
  Record record;
  auto builder = m::CreateMapBuilder(options);
  Feeder feeder(builder.get());
  std::vector<std::unique_ptr<Robot>> robots;
  const int n = three_d ? rng.Int(1, 2) : rng.Int(1, 3);
  GraphMonitor monitor{options, &record};
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) {
    auto robot = RandomRobot(rng, three_d);
    // With one collator for all trajectories, finish in an order in which no
    // trajectory's data is held back by another (see held_back_data below).
    const bool ordered = n > 1 && !options.collate_by_trajectory();
    if (ordered) {
      robot.odometry = robot.landmarks = robot.fixed_frame = false;
      robot.imu = three_d;
      robot.scanners = 1;
    }
    robots.push_back(std::make_unique<Robot>(Robot::Make(
        rng, world, robot, rng.Int(0, 20000000),
        three_d ? rng.Int(4, 30) : rng.Int(5, 40))));
    auto trajectory = RandomTrajectoryOptions(rng, robot);
    ids.push_back(builder->AddTrajectoryBuilder(robots.back()->sensors,
                                                trajectory,
                                                record.Callback()));
    feeder.Add(ids.back(), *robots.back());
  }
  int optimizations = 0, late_nodes = 0;
  std::map<int, NodeId> last_node;
  builder->pose_graph()->SetGlobalSlamOptimizationCallback(
      [&](const std::map<int, SubmapId>& submaps,
          const std::map<int, NodeId>& nodes) {
        ++optimizations;
        for (const auto& node : nodes) {
          VH_NOTE(submaps.count(node.first), "callback covers both",
                  node.first);
          auto it = last_node.find(node.first);
          VH_NOTE(it == last_node.end() || !(node.second < it->second),
                  "optimized nodes never go back", node.second);
          last_node.erase(node.first);
          last_node.emplace(node.first, node.second);
        }
        // Nodes that came too late for this optimization move along with the
        // frame of their trajectory.
        const auto all = builder->pose_graph()->GetTrajectoryNodes();
        for (const auto& node : nodes) {
          if (!submaps.count(node.first)) continue;
          const auto newest = builder->pose_graph()->GetSubmapData(
              submaps.at(node.first));
          const Rigid3d frame =
              newest.pose * newest.submap->local_pose().inverse();
          VH_NOTE(Distance(frame,
                           builder->pose_graph()->GetLocalToGlobalTransform(
                               node.first)) < 1e-6,
                  "the local frame is that of the newest optimized submap",
                  node.first);
          for (const auto& late : all.trajectory(node.first)) {
            if (!(node.second < late.id)) continue;
            ++late_nodes;
            const double distance =
                Distance(late.data.global_pose,
                         frame * late.data.constant_data->local_pose);
            VH_NOTE(distance < 1e-6,
                    "nodes that were not optimized yet are placed by the "
                    "newest submap",
                    late.id << " after " << node.second << " off by "
                            << distance);
          }
        }
      });
  // Everything found was already taken into account, so there is nothing left
  // for another optimization. (In 3D the solver may run out of iterations
  // before it has converged.)
  const auto settled = [&] {
    const auto before = builder->pose_graph()->GetTrajectoryNodes();
    const size_t constraints = builder->pose_graph()->constraints().size();
    builder->pose_graph()->RunFinalOptimization();
    double worst = 0.;
    for (const auto& node : builder->pose_graph()->GetTrajectoryNodes()) {
      worst = std::max(worst, Distance(node.data.global_pose,
                                       before.at(node.id).global_pose));
    }
    vh::Max(std::string(three_d ? "3d." : "2d.") +
                "moved_by_another_optimization_mm",
            worst * 1e3);
    VH_EXPECT(three_d || worst < 0.25,
              "final optimization used all constraints",
              worst << " m, " << monitor.inter << " loop closures");
    VH_EXPECT(builder->pose_graph()->constraints().size() == constraints,
              "final optimization added constraints", constraints);
  };
  // Quiescent points in between.
  const int pauses = rng.Int(0, 2);
  std::set<int> pause_at;
  size_t total = 0;
  for (const auto& r : robots) total += r->stream.size();
  for (int i = 0; i < pauses; ++i) pause_at.insert(rng.Int(0, total));
  size_t fed = 0;
  while (feeder.Step()) {
    if (pause_at.count(++fed)) {
      builder->pose_graph()->RunFinalOptimization();
      monitor.Check(builder.get());
      settled();
    }
  }
  if (n == 1 || options.collate_by_trajectory()) {
    std::shuffle(ids.begin(), ids.end(), std::mt19937(rng.U64()));
  } else {
    std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) {
      return robots[a]->stream.back().t < robots[b]->stream.back().t;
    });
  }
  for (int id : ids) {
    builder->FinishTrajectory(id);
    if (rng.Chance(0.3)) builder->pose_graph()->RunFinalOptimization();
  }
  builder->pose_graph()->RunFinalOptimization();
  monitor.Check(builder.get());
  for (int id : ids) {
    VH_EXPECT(builder->pose_graph()->GetTrajectoryStates().at(id) ==
                  State::FINISHED,
              "finished trajectory", id);
  }
  VH_EXPECT(optimizations > 0 || monitor.nodes == 0, "optimized", n);
  {
    std::lock_guard<std::mutex> lock(record.mutex);
    for (const auto& node : last_node) {
      VH_EXPECT(node.second == record.nodes[node.first].back().id,
                "the last optimization covered all nodes", node.second);
    }
  }
  const std::string p = three_d ? "3d." : "2d.";
  settled();
  vh::Count(p + "nodes", monitor.nodes);
  vh::Count(p + "submaps", monitor.submaps);
  vh::Count(p + "within_submap", monitor.intra);
  vh::Count(p + "loop_closures", monitor.inter);
  vh::Count(p + "between_trajectories", monitor.inter_cross);
  vh::Count(p + "optimizations", optimizations);
  vh::Count(p + "nodes_during_optimizations", late_nodes);
  vh::Digest digest;
  digest.Add(monitor.nodes).Add(monitor.submaps).Add(monitor.inter);
  digest.Add(optimizations);
  for (const auto& node : builder->pose_graph()->GetTrajectoryNodes()) {
    digest.Add(node.data.global_pose.translation().x());
  }
  if (monitor.submaps > 1) vh::Distinct(digest.Get());
}

// Two robots share one collator; the first finishes while the second has not
// caught up, so part of the first robot's data is released later.
void HeldBack(vh::Rng& rng) {
  std::string text;
  const auto outcome = vh::RunForked([&] {
    auto options = RandomOptions(rng, false);
    options.set_collate_by_trajectory(false);
    const sim::World world = sim::World::Random(rng);
    Record record;
    auto builder = m::CreateMapBuilder(options);
    GraphMonitor monitor{options, &record};
    RobotOptions kind;
    std::vector<Robot> robots;
    for (int i = 0; i < 2; ++i) {
      robots.push_back(Robot::Make(rng, world, kind, 0, 12));
      builder->AddTrajectoryBuilder(robots[i].sensors,
                                    RandomTrajectoryOptions(rng, kind),
                                    record.Callback());
    }
    size_t other = 0;
    for (; other < 4; ++other) {
      robots[1].stream[other].add(builder->GetTrajectoryBuilder(1));
    }
    for (const auto& r : robots[0].stream) {
      r.add(builder->GetTrajectoryBuilder(0));
    }
    builder->FinishTrajectory(0);
    for (; other < robots[1].stream.size(); ++other) {
      robots[1].stream[other].add(builder->GetTrajectoryBuilder(1));
    }
    builder->FinishTrajectory(1);
    builder->pose_graph()->RunFinalOptimization();
    monitor.Check(builder.get());
  }, 60, &text);
  vh::Count("held_back_runs");
  // Depending on the timing, different CHECKs of the pose graph notice that
  // the trajectory has finished already.
  const bool refused =
      text.find("Check failed") != std::string::npos &&
      text.find("pose_graph_") != std::string::npos;
  if (outcome == vh::Outcome::kRefused && refused) {
    vh::Report("data of a finished trajectory that another trajectory held "
               "back ends the process",
               "FinishTrajectory(0) while trajectory 1 lags behind, shared "
               "collator");
  } else {
    VH_EXPECT(outcome == vh::Outcome::kReturned &&
                  text.find("MONITOR") == std::string::npos,
              "finishing a trajectory whose data is held back",
              text.substr(text.size() > 900 ? text.size() - 900 : 0));
  }
}

}  // namespace

VH_SCENARIO(map_2d, 64, 2000) { Run(rng, false); }
VH_SCENARIO(held_back_data, 2, 20) { HeldBack(rng); }
VH_SCENARIO(map_3d, 12, 400) { Run(rng, true); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
