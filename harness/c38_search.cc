// C38: the search for loop closures misses no candidate and makes up none.
//
// Every match is accepted here (the minimum scores are below any score), so
// the constraints in the graph show which pairs of node and submap were
// searched.
#include "engine.h"
#include "saved_map.h"

using namespace engine;

namespace {

using Pair = std::pair<SubmapId, NodeId>;

m::proto::MapBuilderOptions Options(vh::Rng& rng, bool three_d) {
  auto options = RandomOptions(rng, three_d);
  auto* graph = options.mutable_pose_graph_options();
  auto* builder = graph->mutable_constraint_builder_options();
  builder->set_min_score(0.01);
  builder->set_global_localization_min_score(0.01);
  builder->set_max_constraint_distance(1e4);
  builder->set_sampling_ratio(1.);
  graph->set_global_sampling_ratio(1.);
  auto* fast = builder->mutable_fast_correlative_scan_matcher_options();
  fast->set_linear_search_window(rng.Real(0.2, 0.6));
  fast->set_angular_search_window(rng.Real(0.05, 0.2));
  auto* fast3 = builder->mutable_fast_correlative_scan_matcher_options_3d();
  fast3->set_linear_xy_search_window(0.3);
  fast3->set_linear_z_search_window(0.2);
  fast3->set_angular_search_window(0.05);
  fast3->set_min_rotational_score(-2.);
  fast3->set_min_low_resolution_score(0.);
  return options;
}

// Small submaps, and nearly every scan a node.
m::proto::TrajectoryBuilderOptions TrajectoryOptions(
    vh::Rng& rng, const RobotOptions& robot) {
  auto options = RandomTrajectoryOptions(rng, robot);
  auto* o = options.mutable_trajectory_builder_2d_options();
  o->mutable_submaps_options()->set_num_range_data(rng.Int(1, 3));
  // Coarse, which makes searching cheap.
  o->mutable_submaps_options()->mutable_grid_options_2d()->set_resolution(
      0.3);
  o->mutable_adaptive_voxel_filter_options()->set_max_length(0.5);
  o->mutable_adaptive_voxel_filter_options()->set_min_num_points(20);
  o->mutable_motion_filter_options()->set_max_time_seconds(
      rng.Chance(0.5) ? 0.05 : 0.25);
  options.mutable_trajectory_builder_3d_options()
      ->mutable_submaps_options()
      ->set_num_range_data(rng.Int(1, 2));
  return options;
}

struct Found {
  std::set<Pair> intra, inter;
  std::vector<SubmapId> finished;  // finished submaps
  std::vector<SubmapId> submaps;
  std::vector<NodeId> nodes;

  explicit Found(m::MapBuilderInterface* builder) {
    for (const auto& c : Graph(builder)->constraints()) {
      auto& set = c.tag == Constraint::INTRA_SUBMAP ? intra : inter;
      VH_EXPECT(set.emplace(c.submap_id, c.node_id).second,
                "a pair is searched once", c.submap_id << " " << c.node_id);
    }
    for (const auto& s : Graph(builder)->GetAllSubmapData()) {
      submaps.push_back(s.id);
      if (s.data.submap->insertion_finished()) finished.push_back(s.id);
    }
    for (const auto& n : Graph(builder)->GetTrajectoryNodes()) {
      nodes.push_back(n.id);
    }
  }
};

// Maps a world. If `exact`, with limits on distance and numbers of searches.
void Run(vh::Rng& rng, bool three_d, bool exact) {
  auto options = Options(rng, three_d);
  auto* graph_options = options.mutable_pose_graph_options();
  auto* search = graph_options->mutable_constraint_builder_options();
  const int n =
      rng.Chance(three_d ? 0.8 : 0.4) || (three_d && exact) ? 1 : rng.Int(2, 3);
  double ratio = 1., global_ratio = 1., far = 1e4;
  if (exact) {
    // No optimization before the end, so that poses do not change and
    // trajectories do not get connected meanwhile.
    // Finishing a trajectory optimizes, too; until then all data must be in.
    graph_options->set_optimize_every_n_nodes(0);
    options.set_collate_by_trajectory(true);
    if (rng.Chance(0.6)) far = rng.Real(0.2, 1.5);
    if (rng.Chance(0.5)) ratio = rng.Real(0.1, 0.9);
    if (rng.Chance(0.5)) global_ratio = rng.Real(0.1, 0.9);
    search->set_max_constraint_distance(far);
    search->set_sampling_ratio(ratio);
    graph_options->set_global_sampling_ratio(global_ratio);
  } else if (rng.Chance(0.5)) {
    graph_options->set_global_constraint_search_after_n_seconds(
        rng.Chance(0.5) ? 0. : 1e6);
  }
  const sim::World world = sim::World::Random(rng);
  Record record;
  auto builder = m::CreateMapBuilder(options);
  Feeder feeder(builder.get());
  std::vector<std::unique_ptr<Robot>> robots;
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) {
    RobotOptions robot;
    robot.three_d = three_d;
    robot.imu = three_d;
    robots.push_back(std::make_unique<Robot>(
        Robot::Make(rng, world, robot, rng.Int(0, 10000000),
                    three_d ? rng.Int(4, n == 1 ? 12 : 5)
                            : rng.Int(6, n == 1 ? 30 : 12))));
    ids.push_back(builder->AddTrajectoryBuilder(
        robots.back()->sensors, TrajectoryOptions(rng, robot),
        record.Callback()));
    feeder.Add(ids.back(), *robots.back());
  }
  while (feeder.Step()) {
    if (!exact && rng.Chance(0.02)) {
      builder->pose_graph()->RunFinalOptimization();
    }
  }
  std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) {
    return robots[a]->stream.back().t < robots[b]->stream.back().t;
  });
  for (int id : ids) builder->FinishTrajectory(id);
  builder->pose_graph()->RunFinalOptimization();

  const Found found(builder.get());
  const std::set<SubmapId> finished(found.finished.begin(),
                                    found.finished.end());
  for (const Pair& pair : found.inter) {
    VH_EXPECT(finished.count(pair.first) && !found.intra.count(pair),
              "only finished submaps without the node are searched",
              pair.first << " " << pair.second);
  }
  std::map<SubmapId, int> near, near_found, unclear;
  std::map<int, int> cross, cross_found;
  const auto nodes = builder->pose_graph()->GetTrajectoryNodes();
  for (const SubmapId& s : found.finished) {
    const Rigid3d submap_pose =
        Graph(builder.get())->GetSubmapData(s).submap->local_pose();
    for (const NodeId& node : found.nodes) {
      const Pair pair(s, node);
      if (found.intra.count(pair)) continue;
      const bool is_found = found.inter.count(pair);
      vh::Count(three_d ? "3d.candidates" : "2d.candidates");
      if (s.trajectory_id != node.trajectory_id) {
        ++cross[node.trajectory_id];
        cross_found[node.trajectory_id] += is_found;
        VH_EXPECT(is_found || global_ratio < 1.,
                  "every node is matched with the submaps of other "
                  "trajectories",
                  s << " " << node);
        continue;
      }
      const Rigid3d& node_pose = nodes.at(node).constant_data->local_pose;
      Vector3d way = (submap_pose.inverse() * node_pose).translation();
      if (!three_d) way.z() = 0.;
      const double distance = way.norm();
      if (std::abs(distance - far) < 1e-3) {
        ++unclear[s];
        continue;
      }
      if (distance > far) {
        VH_EXPECT(!is_found, "submaps too far away are not searched",
                  s << " " << node << " " << distance << " > " << far);
        vh::Count("too_far");
        continue;
      }
      ++near[s];
      near_found[s] += is_found;
      VH_EXPECT(is_found || ratio < 1.,
                "every node is matched with the finished submaps nearby",
                s << " " << node << " " << distance << " < " << far);
    }
  }
  for (const auto& s : near) {
    if (ratio == 1.) break;
    vh::Count("sampled_submaps");
    const double expected = ratio * s.second;
    VH_EXPECT(std::abs(near_found[s.first] - expected) <=
                  1. + 1e-6 + unclear[s.first],
              "share of the candidates of a submap",
              s.first << " " << near_found[s.first] << " of " << s.second
                      << " at " << ratio);
  }
  for (const auto& t : cross) {
    if (global_ratio == 1.) break;
    vh::Count("sampled_trajectories");
    VH_EXPECT(std::abs(cross_found[t.first] - global_ratio * t.second) <=
                  1. + 1e-6,
              "share of the candidates between trajectories",
              t.first << " " << cross_found[t.first] << " of " << t.second
                      << " at " << global_ratio);
  }
  vh::Count(three_d ? "3d.found" : "2d.found", found.inter.size());
  if (!found.inter.empty()) {
    vh::Digest digest;
    for (const Pair& pair : found.inter) {
      digest.Add(pair.first.submap_index).Add(pair.second.node_index);
      digest.Add(pair.first.trajectory_id).Add(pair.second.trajectory_id);
    }
    digest.Add(ratio).Add(far);
    vh::Distinct(digest.Get());
  }
}

// New trajectories on top of a loaded map, frozen or not.
void Localize(vh::Rng& rng, bool three_d) {
  const auto options = Options(rng, three_d);
  const sim::World world = sim::World::Random(rng);
  File file;
  RobotOptions robot;
  robot.three_d = three_d;
  robot.imu = three_d;
  {
    Record record;
    auto builder = m::CreateMapBuilder(options);
    Feeder feeder(builder.get());
    const Robot r = Robot::Make(rng, world, robot, 0, rng.Int(6, 14));
    const int id = builder->AddTrajectoryBuilder(
        r.sensors, TrajectoryOptions(rng, robot), record.Callback());
    feeder.Add(id, r);
    while (feeder.Step()) {
    }
    builder->FinishTrajectory(id);
    builder->pose_graph()->RunFinalOptimization();
    VH_EXPECT(builder->SerializeStateToFile(rng.Chance(0.5), file.name),
              "state can be saved", file.name);
  }
  Record record;
  auto builder = m::CreateMapBuilder(options);
  const bool frozen = rng.Chance(0.6);
  const auto loaded = builder->LoadStateFromFile(file.name, frozen);
  // Loading continues in the background.
  builder->pose_graph()->RunFinalOptimization();
  const Found before(builder.get());
  Feeder feeder(builder.get());
  const Robot r = Robot::Make(rng, world, robot, 0,
                              three_d ? rng.Int(4, 8) : rng.Int(6, 16));
  const int id = builder->AddTrajectoryBuilder(
      r.sensors, TrajectoryOptions(rng, robot), record.Callback());
  feeder.Add(id, r);
  while (feeder.Step()) {
    if (rng.Chance(0.02)) builder->pose_graph()->RunFinalOptimization();
  }
  builder->FinishTrajectory(id);
  builder->pose_graph()->RunFinalOptimization();
  const Found after(builder.get());
  for (const SubmapId& s : after.finished) {
    for (const NodeId& node : after.nodes) {
      const Pair pair(s, node);
      if (s.trajectory_id != id && node.trajectory_id != id) {
        VH_EXPECT(after.inter.count(pair) == before.inter.count(pair),
                  "a loaded map is not searched for itself",
                  s << " " << node);
        continue;
      }
      if (after.intra.count(pair)) continue;
      vh::Count(frozen ? "localization_frozen" : "localization");
      VH_EXPECT(after.inter.count(pair),
                "new scans are matched with the loaded map, and its scans "
                "with the new submaps",
                s << " " << node << " frozen " << frozen);
    }
  }
  if (!after.finished.empty()) {
    vh::Distinct(vh::Digest()
                     .Add(after.nodes.size())
                     .Add(after.inter.size())
                     .Add(frozen)
                     .Add(after.finished.size())
                     .Get());
  }
}

}  // namespace

VH_SCENARIO(all_2d, 400, 10000) { Run(rng, false, false); }
VH_SCENARIO(exact_2d, 800, 20000) { Run(rng, false, true); }
VH_SCENARIO(all_3d, 8, 400) { Run(rng, true, false); }
VH_SCENARIO(exact_3d, 80, 2000) { Run(rng, true, true); }
VH_SCENARIO(localize_2d, 300, 8000) { Localize(rng, false); }
VH_SCENARIO(localize_3d, 8, 300) { Localize(rng, true); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
