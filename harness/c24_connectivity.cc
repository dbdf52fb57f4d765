// C24: trajectory connectivity equals reachability in the graph of recorded
// connections, checked against a breadth-first search model.
#include <thread>

#include "cartographer/common/time.h"
#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "cartographer/mapping/proto/connected_components.pb.h"
#include "vh.h"

namespace m = cartographer::mapping;
namespace common = cartographer::common;

namespace {

struct Model {
  std::set<int> added;
  std::map<std::pair<int, int>, int> count;
  std::map<std::pair<int, int>, int64_t> time;

  static std::pair<int, int> Key(int a, int b) {
    return a < b ? std::make_pair(a, b) : std::make_pair(b, a);
  }
  std::set<int> Reach(int a) const {
    std::set<int> seen{a};
    std::vector<int> todo{a};
    while (!todo.empty()) {
      const int x = todo.back();
      todo.pop_back();
      for (const auto& c : count) {
        int y;
        if (c.first.first == x) {
          y = c.first.second;
        } else if (c.first.second == x) {
          y = c.first.first;
        } else {
          continue;
        }
        if (seen.insert(y).second) todo.push_back(y);
      }
    }
    return seen;
  }
  bool Connected(int a, int b) const { return a == b || Reach(a).count(b); }
  void Connect(int a, int b, int64_t t) {
    if (Connected(a, b)) {
      auto& x = time[Key(a, b)];
      x = std::max(x, t);
    } else {
      for (int x : Reach(a)) {
        for (int y : Reach(b)) time[Key(x, y)] = t;
      }
    }
    added.insert(a);
    added.insert(b);
    ++count[Key(a, b)];
  }
};

std::set<std::set<int>> AsSets(const std::vector<std::vector<int>>& c) {
  std::set<std::set<int>> out;
  size_t n = 0, total = 0;
  std::set<int> all;
  for (const auto& v : c) {
    std::set<int> s(v.begin(), v.end());
    VH_EXPECT(s.size() == v.size() && !v.empty(), "component repeats member",
              v.size());
    out.insert(s);
    all.insert(s.begin(), s.end());
    n += v.size();
    ++total;
  }
  VH_EXPECT(all.size() == n && out.size() == total, "components overlap", n);
  return out;
}
std::set<std::set<int>> ModelComponents(const Model& model) {
  std::set<std::set<int>> out;
  for (int a : model.added) out.insert(model.Reach(a));
  return out;
}

std::vector<int> Ids(vh::Rng& rng) {
  std::vector<int> ids;
  const int n = rng.Int(2, 12);
  std::set<int> s;
  while (static_cast<int>(s.size()) < n) {
    s.insert(rng.Chance(0.7) ? rng.Int(0, 14) : rng.Int(0, 100000));
  }
  return std::vector<int>(s.begin(), s.end());
}

}  // namespace

VH_SCENARIO(components, 3000, 60000) {
  const std::vector<int> ids = Ids(rng);
  auto pick = [&] { return ids[rng.Int(0, ids.size() - 1)]; };
  m::ConnectedComponents cc;
  Model model;
  const int steps = rng.Int(3, 40);
  vh::Digest digest;
  int joins = 0;
  for (int i = 0; i < steps; ++i) {
    const int a = pick(), b = pick();
    switch (rng.Int(0, 6)) {
      case 0:
        cc.Add(a);
        model.added.insert(a);
        break;
      case 1:
      case 2:
      case 3:
        if (!model.Connected(a, b)) ++joins;
        cc.Connect(a, b);
        model.Connect(a, b, 0);
        break;
      case 4:
        if (model.added.count(a)) {
          const auto c = cc.GetComponent(a);
          VH_EXPECT(std::set<int>(c.begin(), c.end()) == model.Reach(a) &&
                        c.size() == model.Reach(a).size(),
                    "component of a trajectory", a);
        }
        break;
      case 5:
        VH_EXPECT(AsSets(cc.Components()) == ModelComponents(model),
                  "components", steps);
        break;
      default:
        break;
    }
    digest.Add(a).Add(b);
    for (int k = 0; k < 4; ++k) {
      const int x = pick(), y = pick();
      VH_EXPECT(cc.TransitivelyConnected(x, y) == model.Connected(x, y),
                "transitively connected", x << " " << y);
      const auto it = model.count.find(Model::Key(x, y));
      VH_EXPECT(cc.ConnectionCount(x, y) ==
                    (it == model.count.end() ? 0 : it->second),
                "connection count", x << " " << y);
    }
  }
  const auto components = cc.Components();
  VH_EXPECT(AsSets(components) == ModelComponents(model), "components", steps);
  // The message form is sorted and complete.
  const auto proto = m::ToProto(components);
  std::vector<std::vector<int>> got;
  for (const auto& c : proto.connected_component()) {
    got.emplace_back(c.trajectory_id().begin(), c.trajectory_id().end());
  }
  std::vector<std::vector<int>> want;
  for (const auto& s : ModelComponents(model)) {
    want.emplace_back(s.begin(), s.end());
  }
  std::sort(want.begin(), want.end());
  VH_EXPECT(got == want, "components message", steps);
  for (int x : ids) {
    for (int y : ids) {
      VH_EXPECT(cc.TransitivelyConnected(x, y) == model.Connected(x, y),
                "transitively connected", x << " " << y);
    }
  }
  if (joins > 1) vh::Distinct(digest.Get());
  vh::Count("joins", joins);
  if (vh::WantSample()) {
    vh::Sample(VH_STR(ids.size() << " trajectories, " << steps << " steps, "
                                 << joins << " joins, "
                                 << components.size() << " components"));
  }
}

VH_SCENARIO(state, 3000, 60000) {
  const std::vector<int> ids = Ids(rng);
  m::TrajectoryConnectivityState state;
  Model model;
  auto pick = [&] { return ids[rng.Int(0, ids.size() - 1)]; };
  const int steps = rng.Int(3, 40);
  vh::Digest digest;
  int joins = 0;
  for (int i = 0; i < steps; ++i) {
    const int a = pick(), b = pick();
    if (rng.Chance(0.6)) {
      for (int x : {a, b}) {
        if (model.added.insert(x).second || rng.Chance(0.1)) state.Add(x);
      }
      const int64_t t = rng.Int(1, 1000);
      if (!model.Connected(a, b)) ++joins;
      state.Connect(a, b, common::FromUniversal(t));
      model.Connect(a, b, t);
      digest.Add(a).Add(b).Add(t);
    } else if (rng.Chance(0.3)) {
      state.Add(a);
      model.added.insert(a);
    }
    for (int k = 0; k < 4; ++k) {
      const int x = pick(), y = pick();
      VH_EXPECT(state.TransitivelyConnected(x, y) == model.Connected(x, y),
                "transitively connected", x << " " << y);
      const auto it = model.time.find(Model::Key(x, y));
      const common::Time want =
          it == model.time.end() ? common::Time()
                                 : common::FromUniversal(it->second);
      VH_EXPECT(state.LastConnectionTime(x, y) == want, "last connection time",
                x << " " << y << ": "
                  << common::ToUniversal(state.LastConnectionTime(x, y))
                  << " instead of " << common::ToUniversal(want));
    }
    if (rng.Chance(0.2)) {
      VH_EXPECT(AsSets(state.Components()) == ModelComponents(model),
                "components", steps);
    }
  }
  VH_EXPECT(AsSets(state.Components()) == ModelComponents(model), "components",
            steps);
  if (joins > 1) vh::Distinct(digest.Get());
  vh::Count("joins", joins);
}

// Connections made by several threads while others query.
VH_SCENARIO(threads, 60, 1500) {
  const std::vector<int> ids = Ids(rng);
  m::ConnectedComponents cc;
  const int writers = rng.Int(2, 3);
  std::vector<std::vector<std::pair<int, int>>> edges(writers);
  Model model;
  for (int x : ids) {
    cc.Add(x);
    model.added.insert(x);
  }
  vh::Digest digest;
  for (auto& e : edges) {
    for (int i = rng.Int(5, 30); i > 0; --i) {
      const int a = ids[rng.Int(0, ids.size() - 1)];
      const int b = ids[rng.Int(0, ids.size() - 1)];
      e.emplace_back(a, b);
      model.Connect(a, b, 0);
      digest.Add(a).Add(b);
    }
  }
  std::vector<std::thread> threads;
  std::atomic<int> running{writers};
  for (int w = 0; w < writers; ++w) {
    threads.emplace_back([&, w] {
      for (const auto& e : edges[w]) {
        cc.Connect(e.first, e.second);
        VH_NOTE(cc.TransitivelyConnected(e.first, e.second),
                "own connection not visible", e.first << " " << e.second);
      }
      --running;
    });
  }
  const uint64_t reader_seed = rng.U64();
  threads.emplace_back([&, reader_seed] {
    vh::Rng r(reader_seed);
    std::set<std::pair<int, int>> seen;
    do {
      const int a = ids[r.Int(0, ids.size() - 1)];
      const int b = ids[r.Int(0, ids.size() - 1)];
      const bool now = cc.TransitivelyConnected(a, b);
      if (now) seen.insert(Model::Key(a, b));
      VH_NOTE(now || !seen.count(Model::Key(a, b)), "connection lost",
              a << " " << b);
      VH_NOTE(!now || model.Connected(a, b), "connection made up",
              a << " " << b);
      size_t n = 0;
      for (const auto& c : cc.Components()) n += c.size();
      VH_NOTE(n == ids.size(), "component snapshot incomplete", n);
      cc.GetComponent(a);
      cc.ConnectionCount(a, b);
    } while (running > 0);
  });
  for (auto& t : threads) t.join();
  VH_EXPECT(AsSets(cc.Components()) == ModelComponents(model),
            "components after concurrent connects", writers);
  for (int x : ids) {
    for (int y : ids) {
      const auto it = model.count.find(Model::Key(x, y));
      VH_EXPECT(cc.ConnectionCount(x, y) ==
                    (it == model.count.end() ? 0 : it->second),
                "connection count after concurrent connects", x << " " << y);
    }
  }
  vh::Distinct(digest.Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
