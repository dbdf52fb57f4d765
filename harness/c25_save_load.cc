// C25: saving, loading and saving again.
#include "saved_map.h"

namespace {

// Adds loop closures to a saved state, also between its trajectories, and
// writes it again.
void AddLoopClosures(vh::Rng& rng, const File& file, Saved* saved,
                     Map* original, double wt, double wr) {
  std::vector<SubmapId> submaps;
  std::vector<NodeId> nodes;
  for (const auto& part : saved->parts) {
    if (!part.has_submap()) continue;
    const auto& proto = part.submap();
    if (!proto.submap_2d().finished() && !proto.submap_3d().finished()) {
      continue;
    }
    submaps.push_back({proto.submap_id().trajectory_id(),
                       proto.submap_id().submap_index()});
  }
  for (const auto& n : original->nodes) nodes.push_back(n.first);
  std::vector<std::pair<SubmapId, NodeId>> pairs;
  for (const SubmapId& s : submaps) {
    for (const NodeId& n : nodes) {
      if (original->constraints.count(std::make_tuple(
              s, n, static_cast<int>(Constraint::INTRA_SUBMAP))) ||
          original->constraints.count(std::make_tuple(
              s, n, static_cast<int>(Constraint::INTER_SUBMAP)))) {
        continue;
      }
      pairs.emplace_back(s, n);
    }
  }
  auto* graph = saved->parts[0].mutable_pose_graph();
  for (int i = rng.Int(1, 6); i > 0 && !pairs.empty(); --i) {
    int chosen = rng.Int(0, pairs.size() - 1);
    for (int retry = 0; retry < 20 && pairs[chosen].first.trajectory_id ==
                                          pairs[chosen].second.trajectory_id;
         ++retry) {
      chosen = rng.Int(0, pairs.size() - 1);
    }
    const SubmapId s = pairs[chosen].first;
    const NodeId n = pairs[chosen].second;
    pairs.erase(pairs.begin() + chosen);
    const Rigid3d pose = original->submaps.at(s).pose.inverse() *
                         original->nodes.at(n).pose;
    original->constraints[{s, n, Constraint::INTER_SUBMAP}].push_back(
        {pose, wt, wr});
    auto* c = graph->add_constraint();
    c->mutable_submap_id()->set_trajectory_id(s.trajectory_id);
    c->mutable_submap_id()->set_submap_index(s.submap_index);
    c->mutable_node_id()->set_trajectory_id(n.trajectory_id);
    c->mutable_node_id()->set_node_index(n.node_index);
    *c->mutable_relative_pose() = tf::ToProto(pose);
    c->set_translation_weight(wt);
    c->set_rotation_weight(wr);
    c->set_tag(m::proto::PoseGraph::Constraint::INTER_SUBMAP);
    vh::Count("added_loop_closures");
  }
  io::ProtoStreamWriter writer(file.name);
  writer.WriteProto(saved->header);
  for (const auto& part : saved->parts) writer.WriteProto(part);
  VH_EXPECT(writer.Close(), "state can be written", file.name);
}

void Run(vh::Rng& rng, bool three_d) {
  vmutex::Configure(rng.U64(), rng.Chance(0.6) ? 0 : rng.Int(1, 5));
  File file;
  World a(rng, three_d);
  a.Drive(rng.Int(1, 3), true, true);
  for (int id : std::set<int>(a.active)) {
    if (rng.Chance(0.7)) a.Finish(id);
  }
  a.graph()->RunFinalOptimization();
  if (rng.Chance(0.4) && a.finished.size() > 1) {
    // Deletes one (that is not gone by itself).
    for (int id : std::set<int>(a.finished)) {
      const auto states = a.graph()->GetTrajectoryStates();
      if (!states.count(id) || states.at(id) != State::FINISHED) continue;
      a.graph()->DeleteTrajectory(id);
      a.deleted.insert(id);
      a.finished.erase(id);
      break;
    }
    a.graph()->RunFinalOptimization();
  }
  const bool unfinished = rng.Chance(0.6);
  Map original =
      FromGraph(a.graph(), unfinished, [](int) { return true; });
  Saved first = Save(a.builder.get(), unfinished, file);
  Map written = FromSaved(first);
  Same(original, written, "saved", Skip{false, false, false, true, false});
  for (const auto& o : written.options) {
    VH_EXPECT(a.settings.count(o.first) && a.settings[o.first] == o.second,
              "saved settings are those of the trajectory", o.first);
  }
  a.FinishAll();
  if (rng.Chance(0.6)) {
    const auto& o =
        a.options.pose_graph_options().constraint_builder_options();
    AddLoopClosures(rng, file, &first, &original,
                    o.loop_closure_translation_weight(),
                    o.loop_closure_rotation_weight());
    written = FromSaved(first);
  }
  vh::Count("saved_submaps", original.submaps.size());
  vh::Count("saved_nodes", original.nodes.size());
  vh::Count("saved_constraints", original.constraints.size());
  vh::Count("saved_landmarks", original.landmarks.size());
  vh::Count("saved_odometry", original.odometry.size());
  vh::Count("saved_imu", original.imu.size());
  vh::Count("saved_fixed", original.fixed.size());

  // Load.
  const bool frozen = rng.Chance(0.4);
  const bool populated = rng.Chance(0.4);
  World b(rng, three_d);
  b.world = a.world;
  if (populated) {
    b.Drive(rng.Int(1, 2), false, false);
    if (rng.Chance(0.7)) b.FinishAll();
    b.graph()->RunFinalOptimization();
  }
  const std::set<int> own = [&] {
    std::set<int> s = b.active;
    s.insert(b.finished.begin(), b.finished.end());
    return s;
  }();
  const auto not_own = [&](int t) { return own.count(t) == 0; };
  const Map own_before = FromGraph(b.graph(), true, [&](int t) {
    return own.count(t) != 0;
  });
  std::map<int, int> to;
  if (rng.Chance(0.5)) {
    to = b.builder->LoadStateFromFile(file.name, frozen);
  } else {
    io::ProtoStreamReader reader(file.name);
    to = b.builder->LoadState(&reader, frozen);
  }
  std::set<int> ids;
  VH_EXPECT(to.size() == original.trajectories.size(),
            "every saved trajectory is loaded", to.size());
  for (const auto& t : to) {
    VH_EXPECT(original.trajectories.count(t.first) && !own.count(t.second) &&
                  ids.insert(t.second).second,
              "loaded under new numbers", t.first << " as " << t.second);
  }
  // Everything arrives, though partly in the background.
  const Map expected = Renumber(written, to);
  size_t landmarks = expected.landmarks.size();
  WaitUntil([&] {
    const Map now = FromGraph(b.graph(), true, not_own);
    if (frozen) {
      for (const auto& t : to) {
        if (!b.graph()->IsTrajectoryFrozen(t.second)) return false;
      }
    } else if (now.constraints.size() < expected.constraints.size() ||
               now.imu != expected.imu || now.odometry != expected.odometry ||
               now.fixed != expected.fixed ||
               now.observations != expected.observations) {
      return false;
    }
    return now.data == expected.data && now.landmarks.size() >= landmarks;
  });
  Map loaded = FromGraph(b.graph(), true, not_own);
  Map live = Renumber(original, to);
  Skip skip;
  skip.node_bytes = true;
  skip.options = true;
  skip.constraints = skip.sensor_data = frozen;
  skip.landmarks = false;
  Same(live, loaded, "loaded", skip);
  Same(own_before,
       FromGraph(b.graph(), true, [&](int t) { return own.count(t) != 0; }),
       "already there", Skip{false, false, false, true, true});
  const auto states = b.graph()->GetTrajectoryStates();
  for (const auto& t : to) {
    VH_EXPECT(!frozen || states.at(t.second) == State::FROZEN,
              "loaded as frozen", t.second);
    VH_EXPECT(frozen || states.at(t.second) != State::FROZEN,
              "not loaded as frozen", t.second);
  }
  // Loaded trajectories are connected by their constraints or, without them,
  // by being frozen.
  {
    std::map<int, int> part;
    const auto parts = Graph(b.builder.get())->GetConnectedTrajectories();
    for (size_t i = 0; i < parts.size(); ++i) {
      for (int t : parts[i]) part[t] = i;
    }
    std::map<int, int> want;
    for (int t : ids) want[t] = frozen ? 0 : t;
    for (const auto& c : b.graph()->constraints()) {
      const int x = c.submap_id.trajectory_id, y = c.node_id.trajectory_id;
      if (frozen || !want.count(x) || !want.count(y)) continue;
      const int from = want[y], into = want[x];
      for (auto& w : want) {
        if (w.second == from) w.second = into;
      }
    }
    for (int x : ids) {
      for (int y : ids) {
        if (!part.count(x) || !part.count(y)) continue;
        VH_EXPECT((part[x] == part[y]) == (want[x] == want[y]),
                  "loaded trajectories are connected as they were",
                  x << " and " << y << " frozen " << frozen);
        vh::Count("connections", x != y);
        vh::Count(three_d ? "connected_by_constraints_3d"
                          : "connected_by_constraints_2d",
                  x != y && !frozen && want[x] == want[y]);
      }
    }
  }
  // Save again.
  if (!populated && !frozen) {
    File again;
    const Map second = FromSaved(Save(b.builder.get(), true, again));
    Same(expected, second, "saved again",
         Skip{false, false, false, false, false});
    vh::Count("saved_again");
  }
  // The loaded map can be used and extended.
  b.monitor.loaded = ids;
  b.Drive(1, rng.Chance(0.5), false);
  b.FinishAll();
  b.graph()->RunFinalOptimization();
  b.monitor.Check(b.builder.get());
  const auto landmark_poses = b.graph()->GetLandmarkPoses();
  for (const auto& l : loaded.landmarks) {
    VH_EXPECT(landmark_poses.count(l.first) &&
                  Distance(landmark_poses.at(l.first), l.second) < 1e-6,
              "a loaded landmark stays where it was saved", l.first);
    vh::Count("fixed_landmarks");
  }
  if (frozen) {
    const Map later = FromGraph(b.graph(), true, not_own);
    for (const auto& n : loaded.nodes) {
      VH_EXPECT(later.nodes.count(n.first) &&
                    Distance(later.nodes.at(n.first).pose, n.second.pose) <
                        1e-6,
                "a frozen map stays where it was saved", n.first);
    }
  }
  vh::Count(frozen ? "frozen" : "unfrozen");
  vh::Count("populated", populated);
  if (original.nodes.size() > 1) {
    vh::Distinct(vh::Digest()
                     .Add(original.nodes.size())
                     .Add(original.submaps.size())
                     .Add(original.constraints.size())
                     .Add(frozen)
                     .Add(original.nodes.begin()->second.pose.translation().x())
                     .Get());
  }
}

}  // namespace

VH_SCENARIO(save_2d, 48, 1600) { Run(rng, false); }
VH_SCENARIO(save_3d, 16, 500) { Run(rng, true); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
