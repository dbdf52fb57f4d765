// C20: the asynchronous constraint search returns, exactly once per round,
// exactly the constraints that searching directly gives.
#include <condition_variable>
#include <thread>

#include "cartographer/common/fixed_ratio_sampler.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
#include "engine.h"

using namespace engine;
namespace cons = cartographer::mapping::constraints;
namespace sm = cartographer::mapping::scan_matching;

namespace {

// One search as asked for.
struct Query {
  int submap, node;
  bool global;
  Rigid3d node_pose, submap_pose;  // 2D: node_pose is relative to the submap
};

// 2D and 3D behind one face.
struct World2D {
  using Builder = cons::ConstraintBuilder2D;
  using Submap = m::Submap2D;
  static constexpr bool three_d = false;
  static void Ask(Builder* b, const Query& q, const SubmapId& s,
                  const Submap* submap, const NodeId& n,
                  const m::TrajectoryNode::Data* data) {
    if (q.global) {
      b->MaybeAddGlobalConstraint(s, submap, n, data);
    } else {
      b->MaybeAddConstraint(s, submap, n, data, tf::Project2D(q.node_pose));
    }
  }
  static bool Near(const Query& q, double max) {
    return tf::Project2D(q.node_pose).translation().norm() <= max;
  }
  struct Direct {
    std::unique_ptr<sm::FastCorrelativeScanMatcher2D> fast;
    sm::CeresScanMatcher2D ceres;
    const Submap* submap;
    Direct(const cons::proto::ConstraintBuilderOptions& o, const Submap* s)
        : fast(absl::make_unique<sm::FastCorrelativeScanMatcher2D>(
              *s->grid(), o.fast_correlative_scan_matcher_options())),
          ceres(o.ceres_scan_matcher_options()),
          submap(s) {}
    bool Match(const cons::proto::ConstraintBuilderOptions& o, const Query& q,
               const m::TrajectoryNode::Data& data, Rigid3d* result) const {
      const auto frame = tf::Project2D(submap->local_pose());
      const auto& cloud = data.filtered_gravity_aligned_point_cloud;
      float score = 0.f;
      tf::Rigid2d estimate = tf::Rigid2d::Identity();
      const bool found =
          q.global ? fast->MatchFullSubmap(cloud,
                                           o.global_localization_min_score(),
                                           &score, &estimate)
                   : fast->Match(frame * tf::Project2D(q.node_pose), cloud,
                                 o.min_score(), &score, &estimate);
      if (!found) return false;
      ceres::Solver::Summary summary;
      ceres.Match(estimate.translation(), estimate, cloud, *submap->grid(),
                  &estimate, &summary);
      *result = tf::Embed3D(frame.inverse() * estimate);
      return true;
    }
  };
};
struct World3D {
  using Builder = cons::ConstraintBuilder3D;
  using Submap = m::Submap3D;
  static constexpr bool three_d = true;
  static void Ask(Builder* b, const Query& q, const SubmapId& s,
                  const Submap* submap, const NodeId& n,
                  const m::TrajectoryNode::Data* data) {
    if (q.global) {
      b->MaybeAddGlobalConstraint(s, submap, n, data, q.node_pose.rotation(),
                                  q.submap_pose.rotation());
    } else {
      b->MaybeAddConstraint(s, submap, n, data, q.node_pose, q.submap_pose);
    }
  }
  static bool Near(const Query& q, double max) {
    return (q.node_pose.translation() - q.submap_pose.translation()).norm() <=
           max;
  }
  struct Direct {
    std::unique_ptr<sm::FastCorrelativeScanMatcher3D> fast;
    sm::CeresScanMatcher3D ceres;
    const Submap* submap;
    Direct(const cons::proto::ConstraintBuilderOptions& o, const Submap* s)
        : fast(absl::make_unique<sm::FastCorrelativeScanMatcher3D>(
              s->high_resolution_hybrid_grid(),
              &s->low_resolution_hybrid_grid(),
              &s->rotational_scan_matcher_histogram(),
              o.fast_correlative_scan_matcher_options_3d())),
          ceres(o.ceres_scan_matcher_options_3d()),
          submap(s) {}
    bool Match(const cons::proto::ConstraintBuilderOptions& o, const Query& q,
               const m::TrajectoryNode::Data& data, Rigid3d* result) const {
      const auto match =
          q.global ? fast->MatchFullSubmap(q.node_pose.rotation(),
                                           q.submap_pose.rotation(), data,
                                           o.global_localization_min_score())
                   : fast->Match(q.node_pose, q.submap_pose, data,
                                 o.min_score());
      if (match == nullptr) return false;
      ceres::Solver::Summary summary;
      ceres.Match(match->pose_estimate.translation(), match->pose_estimate,
                  {{&data.high_resolution_point_cloud,
                    &submap->high_resolution_hybrid_grid(), nullptr},
                   {&data.low_resolution_point_cloud,
                    &submap->low_resolution_hybrid_grid(), nullptr}},
                  result, &summary);
      return true;
    }
  };
};

using Expected = std::vector<std::pair<std::pair<SubmapId, NodeId>, Rigid3d>>;

template <typename W>
struct Session {
  vh::Rng& rng;
  cons::proto::ConstraintBuilderOptions options;
  std::vector<const typename W::Submap*> submaps;
  std::vector<const m::TrajectoryNode::Data*> nodes;
  std::vector<std::unique_ptr<typename W::Direct>> direct;
  std::vector<std::unique_ptr<common::FixedRatioSampler>> samplers;
  std::unique_ptr<common::ThreadPool> pool;
  std::unique_ptr<typename W::Builder> builder;

  std::mutex mutex;
  int callbacks = 0, rounds = 0, started = 0;
  int found = 0, asked = 0, skipped = 0, deleted = 0, in_callback = 0;

  SubmapId Sid(int i) const { return SubmapId{i % 2, i}; }
  NodeId Nid(int i) const { return NodeId{i % 2, i}; }

  Query RandomQuery() {
    Query q;
    q.submap = rng.Int(0, submaps.size() - 1);
    q.node = rng.Int(0, nodes.size() - 1);
    q.global = rng.Chance(W::three_d ? 0.05 : 0.1);
    const Rigid3d off(
        Vector3d(rng.Real(-0.3, 0.3), rng.Real(-0.3, 0.3), 0.),
        sim::Yaw(rng.Real(-0.1, 0.1)));
    const Rigid3d truth = submaps[q.submap]->local_pose().inverse() *
                          nodes[q.node]->local_pose;
    if (W::three_d) {
      q.submap_pose = Rigid3d(Vector3d(1, 2, 0), sim::Yaw(rng.Real(-3, 3)));
      q.node_pose = q.submap_pose * truth * off;
    } else {
      q.node_pose = truth * off;
    }
    if (rng.Chance(0.15)) {  // far away
      q.node_pose = Rigid3d::Translation(Vector3d(
                        options.max_constraint_distance() + 3., 0, 0)) *
                    q.node_pose;
    }
    return q;
  }
  // What this query must give; tells the sampler.
  void Expect(const Query& q, Expected* expected) {
    ++asked;
    if (!q.global) {
      if (!W::Near(q, options.max_constraint_distance())) {
        ++skipped;
        return;
      }
      if (!samplers[q.submap]->Pulse()) {
        ++skipped;
        return;
      }
    }
    Rigid3d result;
    if (direct[q.submap]->Match(options, q, *nodes[q.node], &result)) {
      ++found;
      expected->push_back({{Sid(q.submap), Nid(q.node)}, result});
    }
  }
  static bool Less(const Expected::value_type& a,
                   const Expected::value_type& b) {
    if (!(a.first == b.first)) return a.first < b.first;
    for (int i = 0; i < 3; ++i) {
      const double x = a.second.translation()[i], y = b.second.translation()[i];
      if (x != y) return x < y;
    }
    return a.second.rotation().z() < b.second.rotation().z();
  }
  void Compare(Expected expected, const std::vector<Constraint>& got,
               int nodes_before_when_done) {
    Expected result;
    for (const auto& c : got) {
      VH_NOTE(c.tag == Constraint::INTER_SUBMAP, "kind of constraint",
              c.submap_id);
      VH_NOTE(c.pose.translation_weight ==
                      options.loop_closure_translation_weight() &&
                  c.pose.rotation_weight ==
                      options.loop_closure_rotation_weight(),
              "weights of a found constraint", c.submap_id);
      result.push_back({{c.submap_id, c.node_id}, c.pose.zbar_ij});
    }
    std::sort(result.begin(), result.end(), Less);
    std::sort(expected.begin(), expected.end(), Less);
    VH_NOTE(result.size() == expected.size(),
            "number of constraints of a round",
            result.size() << " instead of " << expected.size());
    for (size_t i = 0; i < std::min(result.size(), expected.size()); ++i) {
      VH_NOTE(result[i].first == expected[i].first,
              "constraints of the asked pairs",
              result[i].first.first << " " << result[i].first.second);
      VH_NOTE(Distance(result[i].second, expected[i].second) < 1e-6,
              "constraint pose of the direct search",
              Distance(result[i].second, expected[i].second));
    }
    VH_NOTE(builder->GetNumFinishedNodes() >= nodes_before_when_done,
            "all nodes finished before the callback",
            builder->GetNumFinishedNodes() << " of "
                                           << nodes_before_when_done);
  }

  // Asks the queries of one round; returns what it must find.
  Expected Round() {
    Expected expected;
    // With several callers, each has its own submaps.
    const int count = rng.Chance(0.1) ? 0 : rng.Int(1, W::three_d ? 5 : 12);
    std::vector<Query> queries;
    for (int i = 0; i < count; ++i) queries.push_back(RandomQuery());
    for (const auto& q : queries) Expect(q, &expected);
    const auto ask = [this](const Query& q) {
      W::Ask(builder.get(), q, Sid(q.submap), submaps[q.submap], Nid(q.node),
             nodes[q.node]);
    };
    if (count > 2 && rng.Chance(0.35)) {
      vh::Count("concurrent_callers");
      std::vector<std::thread> threads;
      const int n = 3;
      for (int t = 0; t < n; ++t) {
        threads.emplace_back([&, t] {
          for (const auto& q : queries) {
            if (q.submap % n == t) ask(q);
          }
        });
      }
      for (auto& t : threads) t.join();
      builder->NotifyEndOfNode();
      ++started;
    } else {
      for (const auto& q : queries) {
        ask(q);
        if (rng.Chance(0.5)) {
          builder->NotifyEndOfNode();
          ++started;
          const int finished = builder->GetNumFinishedNodes();
          VH_NOTE(0 <= finished && finished <= started,
                  "finished nodes at most the started ones", finished);
        }
      }
      builder->NotifyEndOfNode();
      ++started;
    }
    return expected;
  }
  void DeleteSome() {
    // Between rounds: a submap is removed, its number may come back.
    if (!rng.Chance(0.3)) return;
    const int s = rng.Int(0, submaps.size() - 1);
    builder->DeleteScanMatcher(Sid(s));
    samplers[s] =
        absl::make_unique<common::FixedRatioSampler>(options.sampling_ratio());
    ++deleted;
  }
  // Runs `remaining` rounds, the later ones from inside the callback if asked.
  void Go(int remaining, bool inside = false) {
    const Expected expected = Round();
    const int before = started;
    // Never wait inside a callback: it may occupy the only worker.
    const bool nested = inside || rng.Chance(0.4);
    {
      std::lock_guard<std::mutex> lock(mutex);
      ++rounds;
    }
    auto calls = std::make_shared<std::atomic<int>>(0);
    auto done = std::make_shared<std::atomic<bool>>(false);
    builder->WhenDone([=](const std::vector<Constraint>& result) {
      VH_NOTE(calls->fetch_add(1) == 0, "callback runs once", remaining);
      Compare(expected, result, before);
      if (nested && remaining > 1) {
        ++in_callback;
        DeleteSome();
        Go(remaining - 1, true);
      }
      {
        std::lock_guard<std::mutex> lock(mutex);
        ++callbacks;
      }
      done->store(true);
    });
    if (nested && remaining > 1) return;
    if (remaining == 1) return;
    vh::WaitOrDie([&] { return done->load(); }, "callback of a round", "");
    DeleteSome();
    Go(remaining - 1);
  }
  void Run(int total) {
    for (const auto* s : submaps) {
      direct.push_back(absl::make_unique<typename W::Direct>(options, s));
      samplers.push_back(absl::make_unique<common::FixedRatioSampler>(
          options.sampling_ratio()));
    }
    pool = absl::make_unique<common::ThreadPool>(rng.Int(1, 6));
    builder = absl::make_unique<typename W::Builder>(options, pool.get());
    const bool builder_first = rng.Chance(0.5);
    Go(total);
    vh::WaitOrDie(
        [&] {
          std::lock_guard<std::mutex> lock(mutex);
          return callbacks == total;
        },
        "every round has its callback", "");
    VH_NOTE(builder->GetNumFinishedNodes() == started,
            "finished nodes at the end",
            builder->GetNumFinishedNodes() << " of " << started);
    if (builder_first) builder.reset();
    pool.reset();
    builder.reset();
  }
};

// Builds a few submaps and nodes with the loop closure switched off.
struct Material {
  Record record;
  m::proto::MapBuilderOptions options;
  std::unique_ptr<m::MapBuilderInterface> builder;

  Material(vh::Rng& rng, bool three_d) {
    options = RandomOptions(rng, three_d);
    auto quiet = options;
    quiet.mutable_pose_graph_options()->set_optimize_every_n_nodes(0);
    quiet.mutable_pose_graph_options()->set_global_sampling_ratio(0.);
    quiet.mutable_pose_graph_options()
        ->mutable_constraint_builder_options()
        ->set_max_constraint_distance(0.);
    builder = m::CreateMapBuilder(quiet);
    RobotOptions kind;
    kind.three_d = three_d;
    kind.imu = three_d;
    kind.odometry = true;
    const sim::World world = sim::World::Random(rng);
    const Robot robot =
        Robot::Make(rng, world, kind, 0, three_d ? rng.Int(7, 10) : rng.Int(12, 20));
    auto trajectory = RandomTrajectoryOptions(rng, kind);
    // Every scan becomes a node; submaps are small.
    auto* o2 = trajectory.mutable_trajectory_builder_2d_options();
    o2->mutable_motion_filter_options()->set_max_time_seconds(0.05);
    o2->mutable_submaps_options()->set_num_range_data(rng.Int(2, 4));
    auto* o3 = trajectory.mutable_trajectory_builder_3d_options();
    o3->mutable_motion_filter_options()->set_max_time_seconds(0.05);
    o3->mutable_submaps_options()->set_num_range_data(rng.Int(1, 2));
    const int id = builder->AddTrajectoryBuilder(robot.sensors, trajectory,
                                                 record.Callback());
    Feeder feeder(builder.get());
    feeder.Add(id, robot);
    while (feeder.Step()) {
    }
    builder->FinishTrajectory(id);
    builder->pose_graph()->RunFinalOptimization();
  }
};

template <typename W>
void Scenario(vh::Rng& rng) {
  vmutex::Configure(rng.U64(), 0);
  Material material(rng, W::three_d);
  std::set<const m::Submap*> seen;
  Session<W> session{rng};
  session.options =
      material.options.pose_graph_options().constraint_builder_options();
  session.options.mutable_ceres_scan_matcher_options()
      ->mutable_ceres_solver_options()
      ->set_num_threads(1);
  session.options.mutable_ceres_scan_matcher_options_3d()
      ->mutable_ceres_solver_options()
      ->set_num_threads(1);
  session.options.set_max_constraint_distance(rng.Real(0.5, 4.));
  for (const auto& t : material.record.nodes) {
    for (const auto& a : t.second) {
      session.nodes.push_back(a.data.get());
      for (const auto& s : a.submaps) {
        if (s->insertion_finished() && seen.insert(s.get()).second) {
          session.submaps.push_back(
              static_cast<const typename W::Submap*>(s.get()));
        }
      }
    }
  }
  if (session.submaps.empty()) return;
  vmutex::Configure(rng.U64(), rng.Chance(0.3) ? 0 : rng.Int(1, 15));
  session.Run(rng.Int(1, W::three_d ? 4 : 6));
  vh::Count("rounds", session.rounds);
  vh::Count("callbacks", session.callbacks);
  vh::Count("asked", session.asked);
  vh::Count("found", session.found);
  vh::Count("skipped", session.skipped);
  vh::Count("matchers_deleted", session.deleted);
  vh::Count("rounds_started_in_callback", session.in_callback);
  if (session.found > 0) {
    vh::Digest d;
    d.Add(session.found).Add(session.asked).Add(session.started);
    d.Add(session.submaps.size()).Add(session.nodes.size());
    d.Add(session.nodes[0]->local_pose.translation().x());
    vh::Distinct(d.Get());
  }
}

// After a final optimization nothing runs in the background any more: all
// nodes are optimized and nothing changes until new data arrives.
void Quiescence(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.3) ? 0 : rng.Int(1, 15));
  auto options = RandomOptions(rng, three_d);
  options.set_collate_by_trajectory(true);
  const sim::World world = sim::World::Random(rng);
  Record record;
  auto builder = m::CreateMapBuilder(options);
  std::atomic<int> optimizations{0};
  std::mutex mutex;
  std::map<int, int> last;
  const int slow = rng.Chance(0.4) ? rng.Int(1, 20000) : 0;
  builder->pose_graph()->SetGlobalSlamOptimizationCallback(
      [&](const std::map<int, SubmapId>&,
          const std::map<int, NodeId>& nodes) {
        // Work is not done before the callback is.
        if (slow > 0) usleep(slow);
        ++optimizations;
        std::lock_guard<std::mutex> lock(mutex);
        for (const auto& n : nodes) {
          VH_NOTE(!last.count(n.first) || last[n.first] <= n.second.node_index,
                  "optimized nodes grow", n.second);
          last[n.first] = n.second.node_index;
        }
      });
  const int n = rng.Int(1, 2);
  std::vector<Robot> robots;
  for (int i = 0; i < n; ++i) {
    const auto kind = RandomRobot(rng, three_d);
    robots.push_back(Robot::Make(rng, world, kind, rng.Int(0, 5000000),
                                 three_d ? rng.Int(4, 8) : rng.Int(6, 20)));
    builder->AddTrajectoryBuilder(robots[i].sensors,
                                  RandomTrajectoryOptions(rng, kind),
                                  record.Callback());
  }
  Feeder feeder(builder.get());
  for (int i = 0; i < n; ++i) feeder.Add(i, robots[i]);
  const auto check = [&] {
    const int before = optimizations;
    builder->pose_graph()->RunFinalOptimization();
    const int after = optimizations;
    auto* graph = builder->pose_graph();
    const auto nodes = graph->GetTrajectoryNodes();
    VH_EXPECT(nodes.empty() || after > before,
              "a final optimization optimizes", after);
    {
      std::lock_guard<std::mutex> lock(mutex);
      std::lock_guard<std::mutex> lock2(record.mutex);
      for (const auto& t : record.nodes) {
        if (t.second.empty()) continue;
        VH_EXPECT(last.count(t.first) &&
                      last[t.first] == t.second.back().id.node_index,
                  "every node was optimized", t.second.back().id);
      }
    }
    const auto constraints = graph->constraints();
    const auto submaps = graph->GetAllSubmapPoses();
    usleep(rng.Int(100, 4000));
    VH_EXPECT(optimizations == after, "nothing runs after the final one",
              optimizations << " " << after);
    const auto constraints2 = graph->constraints();
    VH_EXPECT(constraints.size() == constraints2.size(),
              "constraints do not change at rest", constraints2.size());
    const auto nodes2 = graph->GetTrajectoryNodes();
    for (const auto& node : nodes) {
      VH_EXPECT(Distance(node.data.global_pose,
                         nodes2.at(node.id).global_pose) == 0.,
                "poses do not change at rest", node.id);
    }
    const auto submaps2 = graph->GetAllSubmapPoses();
    for (const auto& s : submaps) {
      VH_EXPECT(Distance(s.data.pose, submaps2.at(s.id).pose) == 0.,
                "submap poses do not change at rest", s.id);
    }
    vh::Count("quiescent_points");
    vh::Count("nodes_at_rest", nodes.size());
  };
  const double pause = rng.Real(0., 0.1);
  while (feeder.Step()) {
    if (rng.Chance(pause * 0.3)) check();
  }
  for (int i = 0; i < n; ++i) builder->FinishTrajectory(i);
  check();
  check();
  vh::Count("optimizations", optimizations);
  if (optimizations > 3) {
    vh::Distinct(vh::Digest().Add(rng.U64()).Add(int(optimizations)).Get());
  }
  // Ends with or without waiting.
  if (rng.Chance(0.5)) {
    builder->pose_graph()->RunFinalOptimization();
  }
}

}  // namespace

VH_SCENARIO(quiescence_2d, 24, 800) { Quiescence(rng, false); }
VH_SCENARIO(quiescence_3d, 8, 200) { Quiescence(rng, true); }
VH_SCENARIO(rounds_2d, 40, 1500) { Scenario<World2D>(rng); }
VH_SCENARIO(rounds_3d, 12, 300) { Scenario<World3D>(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
