// C22: trimming, deleting and freezing.
#include <cstdio>
#include <unistd.h>

#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "engine.h"

using namespace engine;

namespace {

using ConstraintKey = std::tuple<SubmapId, NodeId, int, double, double, double>;
ConstraintKey Key(const Constraint& c) {
  return ConstraintKey(c.submap_id, c.node_id, c.tag,
                       c.pose.zbar_ij.translation().x(),
                       c.pose.zbar_ij.rotation().z(),
                       c.pose.translation_weight);
}

// Everything a trimmer can see.
struct View {
  std::map<int, std::vector<SubmapId>> submaps;
  std::map<NodeId, std::pair<const m::TrajectoryNode::Data*, Rigid3d>> nodes;
  std::multiset<ConstraintKey> constraints;
  std::map<SubmapId, std::set<NodeId>> members;
  std::map<SubmapId, Rigid3d> optimized;

  View(const m::Trimmable& graph, const std::set<int>& trajectories) {
    for (int t : trajectories) {
      submaps[t] = graph.GetSubmapIds(t);
      VH_NOTE(graph.num_submaps(t) == static_cast<int>(submaps[t].size()),
              "number of submaps agrees with their list", t);
    }
    for (const auto& n : graph.GetTrajectoryNodes()) {
      nodes.emplace(n.id, std::make_pair(n.data.constant_data.get(),
                                         n.data.global_pose));
    }
    for (const auto& c : graph.GetConstraints()) {
      constraints.insert(Key(c));
      if (c.tag == Constraint::INTRA_SUBMAP) {
        members[c.submap_id].insert(c.node_id);
      }
    }
    for (const auto& s : graph.GetOptimizedSubmapData()) {
      optimized.emplace(s.id, s.data.pose);
    }
  }
};

// Removes random finished submaps and watches what disappears.
class RandomTrimmer : public m::PoseGraphTrimmer {
 public:
  RandomTrimmer(uint64_t seed, const std::set<int>& trajectories, double rate,
                std::set<SubmapId>* trimmed)
      : rng_(seed), trajectories_(trajectories), rate_(rate),
        trimmed_(trimmed) {}

  void Trim(m::Trimmable* graph) override {
    vh::Count("trimmer_calls");
    View before(*graph, trajectories_);
    std::vector<SubmapId> victims;
    for (const auto& s : before.optimized) {
      if (trajectories_.count(s.first.trajectory_id) && rng_.Chance(rate_)) {
        victims.push_back(s.first);
      }
    }
    std::shuffle(victims.begin(), victims.end(), std::mt19937(rng_.U64()));
    for (const SubmapId& id : victims) {
      graph->TrimSubmap(id);
      trimmed_->insert(id);
      View after(*graph, trajectories_);
      Compare(before, after, id);
      before = after;
      vh::Count("trimmed_submaps");
    }
  }
  bool IsFinished() override { return false; }

 private:
  void Compare(const View& before, const View& after, const SubmapId& id) {
    auto submaps = before.submaps;
    auto& list = submaps[id.trajectory_id];
    list.erase(std::remove(list.begin(), list.end(), id), list.end());
    VH_NOTE(submaps == after.submaps, "exactly the trimmed submap disappears",
            id);
    std::set<NodeId> retained, gone;
    for (const auto& member : before.members) {
      if (member.first != id) {
        retained.insert(member.second.begin(), member.second.end());
      }
    }
    auto it = before.members.find(id);
    if (it != before.members.end()) {
      for (const auto& n : it->second) {
        if (!retained.count(n)) gone.insert(n);
      }
    }
    vh::Count("trimmed_nodes", gone.size());
    if (!gone.empty()) vh::Count("trims_with_nodes");
    for (const auto& n : before.nodes) {
      VH_NOTE(gone.count(n.first) != after.nodes.count(n.first),
              "exactly the nodes of no other submap disappear",
              n.first << " with " << id << " members "
                      << (it == before.members.end() ? -1
                                                     : (int)it->second.size())
                      << " expected gone " << gone.count(n.first));
      if (after.nodes.count(n.first)) {
        const auto& other = after.nodes.at(n.first);
        VH_NOTE(other.first == n.second.first &&
                    Distance(other.second, n.second.second) == 0.,
                "remaining nodes keep data and pose", n.first);
      }
    }
    VH_NOTE(after.nodes.size() == before.nodes.size() - gone.size(),
            "no node appears when trimming", id);
    std::multiset<ConstraintKey> expected;
    int inter = 0;
    for (const auto& c : before.constraints) {
      if (std::get<0>(c) == id || gone.count(std::get<1>(c))) {
        inter += std::get<2>(c) != Constraint::INTRA_SUBMAP;
        continue;
      }
      expected.insert(c);
    }
    vh::Count("trimmed_loop_closures", inter);
    VH_NOTE(expected == after.constraints,
            "exactly the constraints touching what was trimmed disappear",
            id << ": " << after.constraints.size() << " instead of "
               << expected.size());
    VH_NOTE(!after.optimized.count(id) &&
                after.optimized.size() + 1 == before.optimized.size(),
            "the trimmed submap has no pose any more", id);
    for (const auto& s : after.optimized) {
      VH_NOTE(before.optimized.count(s.first) &&
                  Distance(before.optimized.at(s.first), s.second) == 0.,
              "remaining submaps keep their pose", s.first);
    }
  }
  vh::Rng rng_;
  const std::set<int> trajectories_;
  const double rate_;
  std::set<SubmapId>* const trimmed_;
};

// A mapping run in which trajectories are added, finished, trimmed and
// deleted.
struct Session {
  vh::Rng& rng;
  const bool three_d;
  m::proto::MapBuilderOptions options;
  sim::World world;
  Record record;
  std::unique_ptr<m::MapBuilderInterface> builder;
  std::vector<std::unique_ptr<Robot>> robots;
  std::map<int, Robot*> robot_of;
  GraphMonitor monitor{options, &record};
  int64_t now = 0;

  Session(vh::Rng& rng, bool three_d)
      : rng(rng), three_d(three_d), options(RandomOptions(rng, three_d)),
        world(sim::World::Random(rng)) {
    options.set_collate_by_trajectory(true);
    monitor.trimming = true;
  }
  void Start() { builder = m::CreateMapBuilder(options); }
  int Add(int scans, int keep = 0) {
    auto kind = RandomRobot(rng, three_d);
    robots.push_back(std::make_unique<Robot>(
        Robot::Make(rng, world, kind, now + rng.Int(0, 5000000), scans)));
    auto trajectory = RandomTrajectoryOptions(rng, kind);
    if (keep > 0) {
      trajectory.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(
          keep);
    }
    const int id = builder->AddTrajectoryBuilder(robots.back()->sensors,
                                                 trajectory,
                                                 record.Callback());
    robot_of[id] = robots.back().get();
    return id;
  }
  m::PoseGraph* graph() { return Graph(builder.get()); }
  State StateOf(int id) {
    const auto states = graph()->GetTrajectoryStates();
    // A trajectory without any node yet is not listed.
    return states.count(id) ? states.at(id) : State::ACTIVE;
  }
  int Submaps(int id) {
    return graph()->GetAllSubmapData().SizeOfTrajectoryOrZero(id);
  }
  int Nodes(int id) {
    return graph()->GetTrajectoryNodes().SizeOfTrajectoryOrZero(id);
  }
};

void Trimming(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  Session s(rng, three_d);
  s.Start();
  Feeder feeder(s.builder.get());
  const int n = rng.Int(1, three_d ? 2 : 3);
  std::set<int> ids;
  for (int i = 0; i < n; ++i) {
    const int id = s.Add(three_d ? rng.Int(8, 16) : rng.Int(15, 40));
    ids.insert(id);
    feeder.Add(id, *s.robot_of[id]);
  }
  std::set<SubmapId> trimmed;
  s.graph()->AddTrimmer(std::make_unique<RandomTrimmer>(
      rng.U64(), ids, rng.Real(0.05, 0.5), &trimmed));
  const double pause = rng.Chance(0.5) ? 0. : 0.02;
  while (feeder.Step()) {
    if (rng.Chance(pause)) {
      s.graph()->RunFinalOptimization();
      s.monitor.Check(s.builder.get());
    }
  }
  for (int id : ids) {
    s.builder->FinishTrajectory(id);
    if (rng.Chance(0.4)) {
      s.graph()->RunFinalOptimization();
      s.monitor.Check(s.builder.get());
    }
  }
  s.graph()->RunFinalOptimization();
  s.monitor.Check(s.builder.get());
  const auto submaps = s.graph()->GetAllSubmapData();
  for (const auto& id : trimmed) {
    VH_EXPECT(!submaps.Contains(id), "a trimmed submap stays away", id);
  }
  if (!trimmed.empty()) {
    vh::Distinct(vh::Digest()
                     .Add(trimmed.size())
                     .Add(s.monitor.nodes)
                     .Add(s.monitor.inter)
                     .Add(s.monitor.intra)
                     .Get());
  }
}

// What must not change about a trajectory.
struct Kept {
  std::map<NodeId, std::pair<Rigid3d, common::Time>> nodes;
  std::map<SubmapId, Rigid3d> submaps;
};
Kept Keep(m::PoseGraph* graph, int id) {
  Kept kept;
  const auto nodes = graph->GetTrajectoryNodes();
  const auto submaps = graph->GetAllSubmapData();
  for (const auto& n : nodes.trajectory(id)) {
    kept.nodes.emplace(n.id, std::make_pair(n.data.global_pose,
                                            n.data.constant_data->time));
  }
  for (const auto& s : submaps.trajectory(id)) {
    kept.submaps.emplace(s.id, s.data.pose);
  }
  return kept;
}
void SameContent(const Kept& a, const Kept& b, double tolerance,
                 const char* what) {
  VH_EXPECT(a.nodes.size() == b.nodes.size() &&
                a.submaps.size() == b.submaps.size(),
            std::string(what) + ": neither gains nor loses nodes and submaps",
            a.nodes.size() << " nodes then " << b.nodes.size() << ", "
                           << a.submaps.size() << " submaps then "
                           << b.submaps.size());
  for (const auto& n : a.nodes) {
    VH_EXPECT(b.nodes.count(n.first) &&
                  b.nodes.at(n.first).second == n.second.second,
              std::string(what) + ": same nodes", n.first);
    VH_EXPECT(Distance(b.nodes.at(n.first).first, n.second.first) <= tolerance,
              std::string(what) + ": node poses unchanged",
              n.first << " moved by "
                      << Distance(b.nodes.at(n.first).first, n.second.first));
  }
  for (const auto& n : a.submaps) {
    VH_EXPECT(b.submaps.count(n.first), std::string(what) + ": same submaps",
              n.first);
    VH_EXPECT(Distance(b.submaps.at(n.first), n.second) <= tolerance,
              std::string(what) + ": submap poses unchanged",
              n.first << " moved by "
                      << Distance(b.submaps.at(n.first), n.second));
  }
}

const double kAnywhere = 1e9;

void Gone(Session& s, int id) {
  VH_EXPECT(s.StateOf(id) == State::DELETED, "deleted trajectory says so", id);
  VH_EXPECT(s.Submaps(id) == 0, "deleted trajectory has no submaps", id);
  VH_EXPECT(s.Nodes(id) == 0, "deleted trajectory has no nodes",
            s.Nodes(id) << " nodes");
  VH_EXPECT(s.graph()->GetTrajectoryNodePoses().SizeOfTrajectoryOrZero(id) ==
                    0 &&
                s.graph()->GetAllSubmapPoses().SizeOfTrajectoryOrZero(id) == 0,
            "deleted trajectory has no poses", id);
  for (const auto& c : s.graph()->constraints()) {
    VH_EXPECT(c.submap_id.trajectory_id != id &&
                  c.node_id.trajectory_id != id,
              "deleted trajectory has no constraints", id);
  }
}

// Maps, then deletes some trajectories while others go on.
void Deleting(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  Session s(rng, three_d);
  s.Start();
  std::set<int> finished, deleted, pending;
  const int rounds = three_d ? 2 : rng.Int(2, 4);
  for (int r = 0; r < rounds; ++r) {
    Feeder feeder(s.builder.get());
    std::set<int> active;
    const int n = rng.Int(1, 2);
    for (int i = 0; i < n; ++i) {
      const int id = s.Add(three_d ? rng.Int(4, 9) : rng.Int(6, 20));
      active.insert(id);
      feeder.Add(id, *s.robot_of[id]);
    }
    std::map<int, Kept> others;
    bool requested = false;
    while (feeder.Step()) {
      if (rng.Chance(0.02) && !finished.empty()) {
        const int victim =
            *std::next(finished.begin(), rng.Int(0, finished.size() - 1));
        s.graph()->DeleteTrajectory(victim);
        finished.erase(victim);
        pending.insert(victim);
        requested = true;
      }
      if (requested && rng.Chance(0.02)) {
        s.graph()->RunFinalOptimization();
        deleted.insert(pending.begin(), pending.end());
        pending.clear();
        for (int id : deleted) Gone(s, id);
        s.monitor.Check(s.builder.get());
      }
    }
    for (int id : active) {
      s.builder->FinishTrajectory(id);
      finished.insert(id);
    }
    s.graph()->RunFinalOptimization();
    deleted.insert(pending.begin(), pending.end());
    pending.clear();
    s.monitor.Check(s.builder.get());
    for (int id : deleted) Gone(s, id);
    // A deletion at rest: everything else keeps its nodes and submaps.
    if (rng.Chance(0.6) && !finished.empty()) {
      const int victim =
          *std::next(finished.begin(), rng.Int(0, finished.size() - 1));
      finished.erase(victim);
      std::map<int, Kept> before;
      std::multiset<ConstraintKey> constraints;
      for (int id : finished) before[id] = Keep(s.graph(), id);
      for (const auto& c : s.graph()->constraints()) {
        if (c.submap_id.trajectory_id == victim ||
            c.node_id.trajectory_id == victim) {
          continue;
        }
        constraints.insert(Key(c));
      }
      s.graph()->DeleteTrajectory(victim);
      s.graph()->RunFinalOptimization();
      deleted.insert(victim);
      for (int id : deleted) Gone(s, id);
      for (int id : finished) {
        VH_EXPECT(s.StateOf(id) == State::FINISHED, "still finished", id);
        SameContent(before[id], Keep(s.graph(), id), kAnywhere,
                    "deleting another trajectory");
      }
      std::multiset<ConstraintKey> after;
      for (const auto& c : s.graph()->constraints()) after.insert(Key(c));
      VH_EXPECT(std::includes(after.begin(), after.end(), constraints.begin(),
                              constraints.end()),
                "constraints between other trajectories survive a deletion",
                after.size() << " of " << constraints.size());
      s.monitor.Check(s.builder.get());
    }
  }
  vh::Count("deleted_trajectories", deleted.size());
  if (!deleted.empty()) {
    vh::Distinct(vh::Digest()
                     .Add(deleted.size())
                     .Add(s.monitor.nodes)
                     .Add(s.monitor.inter)
                     .Get());
  }
}

struct File {
  std::string name;
  File() {
    char path[] = "/tmp/verif_c22_XXXXXX";
    const int fd = mkstemp(path);
    if (fd >= 0) close(fd);
    name = std::string(path) + ".pbstream";
    rename(path, name.c_str());
  }
  ~File() { unlink(name.c_str()); }
};

// Localizes in a frozen (or simply finished) map.
void Localizing(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  File file;
  sim::World world;
  const int maps = rng.Int(1, 2);
  {
    Session first(rng, three_d);
    first.Start();
    world = first.world;
    Feeder feeder(first.builder.get());
    for (int i = 0; i < maps; ++i) {
      const int id = first.Add(three_d ? rng.Int(5, 10) : rng.Int(8, 25));
      feeder.Add(id, *first.robot_of[id]);
    }
    while (feeder.Step()) {
    }
    for (int i = 0; i < maps; ++i) first.builder->FinishTrajectory(i);
    first.graph()->RunFinalOptimization();
    VH_EXPECT(first.builder->SerializeStateToFile(rng.Chance(0.5), file.name),
              "state saved", file.name);
  }
  Session s(rng, three_d);
  s.world = world;
  s.Start();
  const bool frozen = rng.Chance(0.8);
  std::set<int> loaded;
  for (const auto& id : s.builder->LoadStateFromFile(file.name, frozen)) {
    loaded.insert(id.second);
  }
  VH_EXPECT(static_cast<int>(loaded.size()) == maps, "trajectories loaded",
            loaded.size());
  s.monitor.loaded = loaded;
  s.graph()->RunFinalOptimization();
  std::map<int, Kept> kept;
  for (int id : loaded) kept[id] = Keep(s.graph(), id);
  // The first optimization may renormalize rotations.
  auto check_loaded = [&] {
    for (int id : loaded) {
      if (frozen) {
        VH_EXPECT(s.StateOf(id) == State::FROZEN &&
                      s.graph()->IsTrajectoryFrozen(id),
                  "frozen trajectory says so", id);
      }
      SameContent(kept[id], Keep(s.graph(), id), frozen ? 1e-7 : kAnywhere,
                  frozen ? "frozen trajectory" : "map being localized in");
    }
  };
  check_loaded();
  const int rounds = rng.Int(1, 2);
  int trims = 0;
  for (int r = 0; r < rounds; ++r) {
    Feeder feeder(s.builder.get());
    std::map<int, int> keep;
    const int n = rng.Int(1, 2);
    for (int i = 0; i < n; ++i) {
      const int k = rng.Chance(0.8) ? rng.Int(2, 4) : 0;
      const int id = s.Add(three_d ? rng.Int(8, 16) : rng.Int(15, 40), k);
      keep[id] = k;
      feeder.Add(id, *s.robot_of[id]);
    }
    const auto quiescent = [&](const std::set<int>& finished) {
      s.graph()->RunFinalOptimization();
      s.monitor.Check(s.builder.get());
      check_loaded();
      for (const auto& k : keep) {
        if (k.second == 0) continue;
        if (finished.count(k.first)) {
          Gone(s, k.first);
          continue;
        }
        VH_EXPECT(s.StateOf(k.first) == State::ACTIVE, "still active",
                  k.first);
        VH_EXPECT(s.Submaps(k.first) <= k.second,
                  "a localization trajectory keeps only so many submaps",
                  s.Submaps(k.first) << " of " << k.second);
        int built = 0;
        std::set<const m::Submap*> seen;
        {
          std::lock_guard<std::mutex> lock(s.record.mutex);
          for (const auto& a : s.record.nodes[k.first]) {
            for (const auto& submap : a.submaps) {
              built += seen.insert(submap.get()).second;
            }
          }
        }
        VH_EXPECT(s.Submaps(k.first) == std::min(built, k.second),
                  "a localization trajectory keeps its newest submaps",
                  s.Submaps(k.first) << " of " << built);
        int expected = built - s.Submaps(k.first);
        const auto submaps = s.graph()->GetAllSubmapData();
        for (const auto& submap : submaps.trajectory(k.first)) {
          VH_EXPECT(submap.id.submap_index == expected++,
                    "a localization trajectory keeps its newest submaps",
                    submap.id);
        }
        trims += built > k.second;
      }
    };
    while (feeder.Step()) {
      if (rng.Chance(0.015)) quiescent({});
    }
    std::set<int> finished;
    if (rng.Chance(0.5)) quiescent({});
    for (const auto& k : keep) {
      s.builder->FinishTrajectory(k.first);
      finished.insert(k.first);
      if (rng.Chance(0.5)) quiescent(finished);
    }
    quiescent(finished);
    // Deleting a frozen trajectory.
    if (rng.Chance(0.3) && !loaded.empty()) {
      const int victim = *loaded.begin();
      std::set<NodeId> nodes;
      for (const auto& n : kept[victim].nodes) nodes.insert(n.first);
      // A map loaded for further mapping counts as active until it is finished.
      if (!frozen) s.graph()->FinishTrajectory(victim);
      s.graph()->DeleteTrajectory(victim);
      s.graph()->RunFinalOptimization();
      loaded.erase(victim);
      Gone(s, victim);
      check_loaded();
      s.monitor.Check(s.builder.get());
      vh::Count("deleted_loaded_trajectories");
    }
  }
  vh::Count("localization_trims", trims);
  vh::Count(frozen ? "frozen_runs" : "unfrozen_runs");
  vh::Count("localization_loop_closures", s.monitor.inter);
  vh::Distinct(vh::Digest()
                   .Add(s.monitor.nodes)
                   .Add(s.monitor.inter)
                   .Add(trims)
                   .Add(frozen)
                   .Get());
}

// The overlap trimmer on a stand-in for the graph.
class FakeGraph : public m::Trimmable {
 public:
  int num_submaps(int t) const override {
    return submaps.SizeOfTrajectoryOrZero(t);
  }
  std::vector<SubmapId> GetSubmapIds(int t) const override {
    std::vector<SubmapId> ids;
    for (const auto& s : submaps.trajectory(t)) ids.push_back(s.id);
    return ids;
  }
  m::MapById<SubmapId, m::PoseGraphInterface::SubmapData>
  GetOptimizedSubmapData() const override {
    return submaps;
  }
  const m::MapById<NodeId, m::TrajectoryNode>& GetTrajectoryNodes()
      const override {
    return nodes;
  }
  const std::vector<Constraint>& GetConstraints() const override {
    return constraints;
  }
  void TrimSubmap(const SubmapId& id) override {
    VH_NOTE(submaps.Contains(id), "trims only submaps of the graph", id);
    VH_NOTE(trimmed.insert(id).second, "trims a submap once", id);
    if (submaps.Contains(id)) submaps.Trim(id);
  }
  bool IsFinished(int) const override { return false; }
  void SetTrajectoryState(int, State) override {
    VH_NOTE(false, "does not touch trajectory states", 0);
  }

  m::MapById<SubmapId, m::PoseGraphInterface::SubmapData> submaps;
  m::MapById<NodeId, m::TrajectoryNode> nodes;
  std::vector<Constraint> constraints;
  std::set<SubmapId> trimmed;
};

void Overlap(vh::Rng& rng, bool large) {
  // Submaps are grids with a common resolution whose cells fall well inside
  // cells of one lattice, so which cells overlap is exact.
  const double resolution = large ? 0.05 : rng.Chance(0.5) ? 0.05 : 1.;
  m::ValueConversionTables tables;
  FakeGraph graph;
  // Lattice cells of each submap (of the stand-in's lattice, up to an offset).
  struct Tile {
    std::vector<std::pair<int, int>> cells;
    common::Time fresh;
    bool counts;
  };
  std::map<SubmapId, Tile> tiles;
  int next_index[2] = {0, 0};
  int next_node[2] = {0, 0};
  std::set<int64_t> used;
  const Vector3d shift(rng.Real(-3, 3), rng.Real(-3, 3), 0.);
  auto add = [&](int trajectory) {
    const SubmapId id{trajectory, next_index[trajectory]++};
    const int w = large ? 300 : rng.Int(1, 6), h = large ? 300 : rng.Int(1, 6);
    const bool finished = large || rng.Chance(0.85);
    const double density = large ? 1. : rng.Chance(0.3) ? rng.Real(0, 1) : 1.;
    m::proto::Submap2D proto;
    proto.set_num_range_data(1);
    proto.set_finished(finished);
    const Rigid3d local(Vector3d(rng.Real(-5, 5), rng.Real(-5, 5), 0),
                        sim::Yaw(rng.Real(-3, 3)));
    *proto.mutable_local_pose() = tf::ToProto(local);
    auto* grid = proto.mutable_grid();
    // Whichever submap comes first defines the lattice: all agree on it.
    const Eigen::Vector2d corner =
        shift.head<2>() +
        resolution * Eigen::Vector2d(rng.Int(-5, 5), rng.Int(-5, 5));
    auto* limits = grid->mutable_limits();
    limits->set_resolution(resolution);
    *limits->mutable_max() = tf::ToProto(corner);
    limits->mutable_cell_limits()->set_num_x_cells(w);
    limits->mutable_cell_limits()->set_num_y_cells(h);
    // Global pose: the local frame lands on the lattice, turned by a multiple
    // of 90 degrees, a little off.
    const int turn = rng.Int(0, 3);
    const int ox = large ? rng.Int(0, 2) : rng.Int(-4, 4);
    const int oy = large ? rng.Int(0, 2) : rng.Int(-4, 4);
    const double dx = rng.Real(-0.2, 0.2), dy = rng.Real(-0.2, 0.2);
    const Eigen::Vector2d first = corner - Eigen::Vector2d(0.5, 0.5) * resolution;
    const Rigid3d global_from_local =
        Rigid3d::Translation(
            shift + resolution * Vector3d(ox + dx, oy + dy, 0.)) *
        Rigid3d::Rotation(sim::Yaw(turn * M_PI / 2)) *
        Rigid3d::Translation(Vector3d(-first.x(), -first.y(), 0.));
    int min_x = w, max_x = -1, min_y = h, max_y = -1;
    Tile tile;
    for (int y = 0; y < h; ++y) {
      for (int x = 0; x < w; ++x) {
        const bool known = rng.Chance(density);
        grid->add_cells(known ? rng.Int(1, 32767) : 0);
        if (!known) continue;
        min_x = std::min(min_x, x), max_x = std::max(max_x, x);
        min_y = std::min(min_y, y), max_y = std::max(max_y, y);
        // Cell (x, y) has its center at corner - res * (y + .5, x + .5).
        const int c[4] = {1, 0, -1, 0}, s[4] = {0, 1, 0, -1};
        const int lx = -y, ly = -x;
        tile.cells.emplace_back(ox + c[turn] * lx - s[turn] * ly,
                                oy + s[turn] * lx + c[turn] * ly);
      }
    }
    if (max_x >= 0) {
      auto* box = grid->mutable_known_cells_box();
      box->set_min_x(min_x), box->set_max_x(max_x);
      box->set_min_y(min_y), box->set_max_y(max_y);
    }
    if (rng.Chance(0.8)) {
      grid->mutable_probability_grid_2d();
    } else {
      auto* tsdf = grid->mutable_tsdf_2d();
      tsdf->set_truncation_distance(0.3);
      tsdf->set_max_weight(10.);
      for (int i = 0; i < grid->cells_size(); ++i) {
        tsdf->add_weight_cells(grid->cells(i));
      }
      grid->set_min_correspondence_cost(-0.3);
      grid->set_max_correspondence_cost(0.3);
    }
    graph.submaps.Insert(id, m::PoseGraphInterface::SubmapData{
                                 std::make_shared<const m::Submap2D>(
                                     proto, &tables),
                                 global_from_local * local});
    // Nodes: the newest is what counts; times increase within a trajectory.
    const int members = rng.Chance(0.1) ? 0 : rng.Int(1, 3);
    static int64_t clock = 0;
    tile.counts = finished && members > 0;
    for (int k = 0; k < members; ++k) {
      const NodeId node{trajectory, next_node[trajectory]++};
      clock += 10;
      m::TrajectoryNode::Data data;
      data.time = T(clock);
      tile.fresh = data.time;
      graph.nodes.Insert(node,
                         {std::make_shared<const m::TrajectoryNode::Data>(data),
                          Rigid3d::Identity()});
      const Constraint constraint{id, node, {Rigid3d::Identity(), 1., 1.},
                                  Constraint::INTRA_SUBMAP};
      graph.constraints.insert(
          graph.constraints.begin() + rng.Int(0, graph.constraints.size()),
          constraint);
    }
    tiles.emplace(id, tile);
    // Loop closures with later nodes do not make a submap fresher.
    if (rng.Chance(0.5) && tiles.size() > 1) {
      const NodeId node{trajectory, next_node[trajectory]++};
      clock += 10;
      m::TrajectoryNode::Data data;
      data.time = T(clock);
      graph.nodes.Insert(node,
                         {std::make_shared<const m::TrajectoryNode::Data>(data),
                          Rigid3d::Identity()});
      graph.constraints.push_back(
          {std::next(tiles.begin(), rng.Int(0, tiles.size() - 1))->first, node,
           {Rigid3d::Identity(), 1., 1.}, Constraint::INTER_SUBMAP});
    }
  };

  const int fresh_count = rng.Int(1, 3);
  const int min_added = large ? 0 : rng.Int(0, 3);
  // A submap is kept if it covers at least this many cells; half a cell more
  // or less does not matter.
  int min_cells = large ? rng.Int(25000, 60000) : rng.Int(0, 12);
  double min_area = (min_cells + 0.02) * resolution * resolution;
  m::OverlappingSubmapsTrimmer2D trimmer(fresh_count, min_area, min_added);
  // Submaps that were there after the last trimming, and how many have been
  // added since. They agree on how many are new unless submaps disappeared for
  // other reasons: then it is open whether these count.
  int counted = 0, added = 0;
  const int rounds = large ? 1 : rng.Int(1, 6);
  bool trimmed_any = false;
  for (int r = 0; r < rounds; ++r) {
    const int n = large ? rng.Int(1, 2) : rng.Int(0, 4);
    for (int i = 0; i < n; ++i) add(large ? 0 : rng.Int(0, 1));
    added += n;
    // Submaps disappear for other reasons, too.
    if (!large && rng.Chance(0.25)) {
      while (!tiles.empty() && rng.Chance(0.7)) {
        auto it = std::next(tiles.begin(), rng.Int(0, tiles.size() - 1));
        const SubmapId id = it->first;
        graph.submaps.Trim(id);
        graph.constraints.erase(
            std::remove_if(graph.constraints.begin(), graph.constraints.end(),
                           [&](const Constraint& c) {
                             return c.submap_id == id;
                           }),
            graph.constraints.end());
        tiles.erase(it);
      }
    }
    const int size = tiles.size();
    // Coverage.
    std::map<std::pair<int, int>, std::vector<std::pair<common::Time, SubmapId>>>
        cells;
    for (const auto& tile : tiles) {
      if (!tile.second.counts) continue;
      for (const auto& cell : tile.second.cells) {
        cells[cell].emplace_back(tile.second.fresh, tile.first);
      }
    }
    std::map<SubmapId, int> covered;
    for (auto& cell : cells) {
      std::sort(cell.second.rbegin(), cell.second.rend());
      for (int k = 0; k < fresh_count && k < (int)cell.second.size(); ++k) {
        ++covered[cell.second[k].second];
      }
    }
    std::set<SubmapId> expected, open;
    const bool may_run = added > min_added;
    const bool must_run = size > counted + min_added;
    if (may_run) {
      for (const auto& tile : tiles) {
        if (!tile.second.counts) continue;
        const int count =
            covered.count(tile.first) ? covered[tile.first] : 0;
        if (count == min_cells) {
          open.insert(tile.first);
        } else if (count < min_cells) {
          expected.insert(tile.first);
        }
      }
    }
    graph.trimmed.clear();
    trimmer.Trim(&graph);
    VH_EXPECT(!trimmer.IsFinished(), "the overlap trimmer stays", r);
    for (const auto& id : graph.trimmed) {
      VH_EXPECT(expected.count(id) || open.count(id),
                "an overlap-trimmed submap covers too little",
                id << " covers " << covered[id] << " of " << min_cells
                   << " fresh " << fresh_count << " size " << size
                   << " counted " << counted << " added " << added
                   << " min added " << min_added);
    }
    const bool ran = must_run || !graph.trimmed.empty();
    if (!ran && !expected.empty()) vh::Count("overlap_deferred");
    for (const auto& id : ran ? expected : std::set<SubmapId>()) {
      VH_EXPECT(graph.trimmed.count(id),
                "a submap covering too little is trimmed",
                id << " covers " << covered[id] << " of " << min_cells);
    }
    vh::Count("overlap_trims", graph.trimmed.size());
    if (ran) {
      counted = size - graph.trimmed.size();
      added = 0;
      vh::Count("overlap_rounds");
    } else if (may_run && expected.empty()) {
      // It may have run without finding anything.
      counted = std::max(counted, size);
    }
    trimmed_any |= !graph.trimmed.empty();
    for (const auto& id : graph.trimmed) {
      tiles.erase(id);
      graph.constraints.erase(
          std::remove_if(graph.constraints.begin(), graph.constraints.end(),
                         [&](const Constraint& c) {
                           return c.submap_id == id;
                         }),
          graph.constraints.end());
    }
  }
  if (trimmed_any) {
    vh::Distinct(vh::Digest().Add(tiles.size()).Add(min_cells).Add(shift.x())
                     .Get());
  }
}

// The overlap trimmer in a mapping run.
void OverlapRun(vh::Rng& rng) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 10));
  Session s(rng, false);
  auto* o = s.options.mutable_pose_graph_options()
                ->mutable_overlapping_submaps_trimmer_2d();
  o->set_fresh_submaps_count(rng.Int(1, 2));
  o->set_min_covered_area(rng.Real(0.5, 20.));
  o->set_min_added_submaps_count(rng.Int(0, 3));
  s.Start();
  Feeder feeder(s.builder.get());
  const int n = rng.Int(1, 2);
  for (int i = 0; i < n; ++i) {
    const int id = s.Add(rng.Int(20, 50));
    feeder.Add(id, *s.robot_of[id]);
  }
  while (feeder.Step()) {
    if (rng.Chance(0.01)) {
      s.graph()->RunFinalOptimization();
      s.monitor.Check(s.builder.get());
    }
  }
  for (int i = 0; i < n; ++i) s.builder->FinishTrajectory(i);
  s.graph()->RunFinalOptimization();
  s.monitor.Check(s.builder.get());
  int built = 0;
  {
    std::set<const m::Submap*> seen;
    std::lock_guard<std::mutex> lock(s.record.mutex);
    for (const auto& t : s.record.nodes) {
      for (const auto& a : t.second) {
        for (const auto& submap : a.submaps) seen.insert(submap.get());
      }
    }
    built = seen.size();
  }
  vh::Count("overlap_run_trims", built - s.monitor.submaps);
  // Going on after a deletion.
  if (rng.Chance(0.5)) {
    s.graph()->DeleteTrajectory(0);
    s.graph()->RunFinalOptimization();
    Gone(s, 0);
    s.monitor.Check(s.builder.get());
  }
}

}  // namespace

VH_SCENARIO(trim_2d, 40, 1500) { Trimming(rng, false); }
VH_SCENARIO(trim_3d, 8, 300) { Trimming(rng, true); }
VH_SCENARIO(delete_2d, 24, 800) { Deleting(rng, false); }
VH_SCENARIO(delete_3d, 6, 200) { Deleting(rng, true); }
VH_SCENARIO(localize_2d, 24, 800) { Localizing(rng, false); }
VH_SCENARIO(localize_3d, 8, 200) { Localizing(rng, true); }
VH_SCENARIO(overlap, 600, 20000) { Overlap(rng, false); }
VH_SCENARIO(overlap_large, 6, 40) { Overlap(rng, true); }
VH_SCENARIO(overlap_run, 12, 400) { OverlapRun(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
