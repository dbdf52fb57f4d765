// C08: per-trajectory containers agree with an ordered map.
#include "cartographer/common/time.h"
#include "cartographer/mapping/id.h"
#include "cartographer/sensor/map_by_time.h"
#include "vh.h"

namespace common = cartographer::common;
namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;

namespace {

struct Item {
  int value;
  common::Time time;
};

int Index(const mapping::NodeId& id) { return id.node_index; }
int Index(const mapping::SubmapId& id) { return id.submap_index; }

using Key = std::pair<int, int>;

template <typename IdType>
struct Monitor {
  mapping::MapById<IdType, Item> map;
  std::map<Key, Item> model;
  std::map<int, bool> appendable;  // absent: fresh trajectory
  uint64_t ops = 0;

  std::vector<std::pair<Key, Item>> OfTrajectory(int t) const {
    std::vector<std::pair<Key, Item>> r;
    for (const auto& e : model) {
      if (e.first.first == t) r.push_back(e);
    }
    return r;
  }
  Key K(const IdType& id) const { return {id.trajectory_id, Index(id)}; }

  void CheckSame(const std::vector<std::pair<Key, Item>>& expected,
                 const typename mapping::MapById<IdType, Item>::ConstIterator&
                     begin,
                 const typename mapping::MapById<IdType, Item>::ConstIterator&
                     end,
                 const char* what) {
    auto it = begin;
    for (const auto& e : expected) {
      VH_EXPECT(it != end, "iteration-short",
                what << ": ends before " << e.first.first << "/"
                     << e.first.second);
      VH_EXPECT(K((*it).id) == e.first && (*it).data.value == e.second.value &&
                    it->data.value == e.second.value && K(it->id) == e.first,
                "iteration",
                what << ": expected " << e.first.first << "/" << e.first.second
                     << " got " << (*it).id);
      ++it;
    }
    VH_EXPECT(it == end, "iteration-long", what << ": more than expected");
    for (auto e = expected.rbegin(); e != expected.rend(); ++e) {
      --it;
      VH_EXPECT(K((*it).id) == e->first && (*it).data.value == e->second.value,
                "reverse-iteration",
                what << ": expected " << e->first.first << "/"
                     << e->first.second << " got " << (*it).id);
    }
    VH_EXPECT(it == begin, "reverse-iteration-begin", what);
  }

  void Check(vh::Rng& rng) {
    VH_EXPECT(map.size() == model.size() && map.empty() == model.empty(),
              "size", map.size() << " versus " << model.size());
    CheckSame({model.begin(), model.end()}, map.begin(), map.end(), "all");
    std::set<int> trajectories;
    for (const auto& e : model) trajectories.insert(e.first.first);
    std::vector<int> ids;
    for (int t : map.trajectory_ids()) ids.push_back(t);
    VH_EXPECT(ids == std::vector<int>(trajectories.begin(),
                                      trajectories.end()),
              "trajectory-ids", ids.size());
    for (int t = 0; t < 7; ++t) {
      const auto expected = OfTrajectory(t);
      VH_EXPECT(map.SizeOfTrajectoryOrZero(t) == expected.size(),
                "trajectory-size", t);
      if (!expected.empty()) {
        CheckSame(expected, map.BeginOfTrajectory(t), map.EndOfTrajectory(t),
                  "trajectory");
        CheckSame(expected, map.trajectory(t).begin(), map.trajectory(t).end(),
                  "trajectory range");
      } else {
        VH_EXPECT(map.BeginOfTrajectory(t) == map.EndOfTrajectory(t),
                  "empty-trajectory", t);
      }
      // Time search.
      for (int q = 0; q < 3; ++q) {
        int64_t tt = rng.Int(-2, 400);
        if (!expected.empty() && rng.Chance(0.6)) {
          tt = common::ToUniversal(
                   expected[rng.Int(0, expected.size() - 1)].second.time) +
               rng.Int(-1, 1);
        }
        const auto it = map.lower_bound(t, common::FromUniversal(tt));
        const std::pair<Key, Item>* first = nullptr;
        for (const auto& e : expected) {
          if (common::ToUniversal(e.second.time) >= tt) {
            first = &e;
            break;
          }
        }
        if (first == nullptr) {
          VH_EXPECT(it == map.EndOfTrajectory(t), "lower-bound-end",
                    "trajectory " << t << " time " << tt);
        } else {
          VH_EXPECT(it != map.end() && K(it->id) == first->first,
                    "lower-bound",
                    "trajectory " << t << " time " << tt << " expected index "
                                  << first->first.second);
        }
      }
    }
    for (int q = 0; q < 6; ++q) {
      Key k(rng.Int(0, 6), rng.Int(0, 40));
      if (!model.empty() && rng.Chance(0.5)) {
        k = std::next(model.begin(), rng.Int(0, model.size() - 1))->first;
      }
      const IdType id(k.first, k.second);
      const bool have = model.count(k) != 0;
      VH_EXPECT(map.Contains(id) == have, "contains", id);
      const auto it = map.find(id);
      VH_EXPECT((it != map.end()) == have, "find", id);
      if (have) {
        VH_EXPECT(K(it->id) == k && it->data.value == model.at(k).value &&
                      map.at(id).value == model.at(k).value,
                  "at", id);
      }
    }
  }
};

template <typename IdType>
void RunMapById(vh::Rng& rng) {
  Monitor<IdType> m;
  std::map<int, int64_t> last_time;
  int next_value = 1;
  const int steps = rng.Int(1, 70);
  const double trim = rng.Real(0.05, 0.6);
  vh::Digest digest;
  uint64_t trims = 0;
  for (int step = 0; step < steps; ++step) {
    const int t = rng.Int(0, 5);
    const auto existing = m.OfTrajectory(t);
    if (!m.model.empty() && rng.Chance(trim)) {
      // First, last, or any element of any trajectory.
      Key k = std::next(m.model.begin(),
                        rng.Int(0, m.model.size() - 1))->first;
      const auto of = m.OfTrajectory(k.first);
      const int mode = rng.Int(0, 2);
      if (mode == 1) k = of.front().first;
      if (mode == 2) k = of.back().first;
      m.map.Trim(IdType(k.first, k.second));
      if (k == of.back().first) m.appendable[k.first] = false;
      m.model.erase(k);
      if (of.size() == 1) m.appendable.erase(k.first);
      digest.Add(k.first * 1000 + k.second);
      ++trims;
    } else {
      Item item{next_value++, common::FromUniversal(0)};
      const bool can_append =
          m.appendable.count(t) == 0 ? true : m.appendable[t];
      if (can_append && rng.Chance(0.7)) {
        const int64_t base = existing.empty()
                                 ? rng.Int(0, 50)
                                 : common::ToUniversal(
                                       existing.back().second.time);
        item.time = common::FromUniversal(base + rng.Int(0, 20));
        const IdType id = m.map.Append(t, item);
        VH_EXPECT(id.trajectory_id == t &&
                      (existing.empty()
                           ? Index(id) == 0
                           : Index(id) == existing.back().first.second + 1),
                  "append-index", id);
        m.model[m.K(id)] = item;
        m.appendable.emplace(t, true);
      } else {
        // Insert at a free index, with a time that fits its neighbours.
        int index = rng.Int(0, 40);
        const Key k(t, index);
        if (m.model.count(k)) continue;
        int64_t lo = 0, hi = 400;
        for (const auto& e : existing) {
          const int64_t et = common::ToUniversal(e.second.time);
          if (e.first.second < index) lo = std::max(lo, et);
          if (e.first.second > index) hi = std::min(hi, et);
        }
        if (lo > hi) hi = lo;
        item.time = common::FromUniversal(rng.Int(lo, hi));
        m.map.Insert(IdType(t, index), item);
        m.model[k] = item;
        m.appendable[t] = false;
      }
    }
    ++m.ops;
    m.Check(rng);
  }
  if (rng.Chance(0.02)) {
    // Misuse is refused, not silently absorbed.
    for (const auto& e : m.appendable) {
      if (!e.second) {
        VH_EXPECT(vh::RunForked([&] {
                    m.map.Append(e.first,
                                 Item{0, common::FromUniversal(1000)});
                  }) == vh::Outcome::kRefused,
                  "append-after-removal",
                  "appending after the newest element was removed or others "
                  "inserted is not refused");
        vh::Count("refusals");
        break;
      }
    }
    if (!m.model.empty()) {
      const Key k = m.model.begin()->first;
      VH_EXPECT(vh::RunForked([&] {
                  m.map.Insert(IdType(k.first, k.second),
                               Item{0, common::FromUniversal(0)});
                }) == vh::Outcome::kRefused,
                "double-insert", "inserting an existing id is not refused");
    }
    VH_EXPECT(vh::RunForked([&] { m.map.Trim(IdType(0, 1000)); }) ==
                  vh::Outcome::kRefused,
              "trim-missing", "removing a missing id is not refused");
  }
  vh::Count("operations", m.ops);
  vh::Count("removals", trims);
  if (trims > 0 && m.ops > trims) vh::Distinct(digest.Add(m.ops).Get());
  vh::Sample(VH_STR(m.ops << " operations, " << trims << " removals, "
                          << m.model.size() << " left"));
}

}  // namespace

VH_SCENARIO(nodes, 1500, 60000) { RunMapById<mapping::NodeId>(rng); }
VH_SCENARIO(submaps, 1000, 40000) { RunMapById<mapping::SubmapId>(rng); }

VH_SCENARIO(by_time, 4000, 150000) {
  struct Node {
    common::Time time;
  };
  sensor::MapByTime<Item> map;
  std::map<int, std::map<int64_t, int>> model;
  mapping::MapById<mapping::NodeId, Node> nodes;
  std::map<int, std::map<int, int64_t>> node_model;
  const int trajectories = rng.Int(1, 4);
  int value = 1;
  for (int t = 0; t < trajectories; ++t) {
    const int n = rng.Int(1, 12);
    int64_t time = rng.Int(0, 20);
    for (int i = 0; i < n; ++i) {
      nodes.Append(t, Node{common::FromUniversal(time)});
      node_model[t][i] = time;
      time += rng.Int(1, 30);
    }
    if (rng.Chance(0.15)) continue;
    const int m = rng.Int(1, 60);
    int64_t dt = rng.Int(-20, 20);
    const bool dense = rng.Chance(0.5);
    for (int i = 0; i < m; ++i) {
      // Sometimes exactly at a node's time.
      if (rng.Chance(0.2)) {
        const auto it = std::next(node_model[t].begin(), rng.Int(0, n - 1));
        if (it->second > dt) dt = it->second;
      }
      map.Append(t, Item{value, common::FromUniversal(dt)});
      model[t][dt] = value++;
      dt += rng.Int(1, dense ? 4 : 40);
    }
  }
  auto check = [&](const char* what) {
    std::vector<int> ids;
    for (int t : map.trajectory_ids()) ids.push_back(t);
    std::vector<int> expected;
    for (const auto& e : model) {
      if (!e.second.empty()) expected.push_back(e.first);
    }
    VH_EXPECT(ids == expected, "time-trajectory-ids", what);
    for (int t = 0; t < trajectories; ++t) {
      const bool have = model.count(t) && !model[t].empty();
      VH_EXPECT(map.HasTrajectory(t) == have, "has-trajectory", what);
      if (!have) continue;
      auto it = map.BeginOfTrajectory(t);
      for (const auto& e : model[t]) {
        VH_EXPECT(it != map.EndOfTrajectory(t) && it->value == e.second &&
                      (*it).value == e.second &&
                      common::ToUniversal(it->time) == e.first,
                  "time-iteration", what << " at time " << e.first);
        ++it;
      }
      VH_EXPECT(it == map.EndOfTrajectory(t), "time-iteration-long", what);
      --it;
      VH_EXPECT(it->value == model[t].rbegin()->second, "time-reverse", what);
      size_t n = 0;
      for (const auto& item : map.trajectory(t)) {
        (void)item;
        ++n;
      }
      VH_EXPECT(n == model[t].size(), "time-range", what);
      for (int q = 0; q < 3; ++q) {
        const int64_t tt = rng.Int(-25, 500);
        const auto lb = map.lower_bound(t, common::FromUniversal(tt));
        const auto ref = model[t].lower_bound(tt);
        if (ref == model[t].end()) {
          VH_EXPECT(lb == map.EndOfTrajectory(t), "time-lower-bound-end", tt);
        } else {
          VH_EXPECT(lb != map.EndOfTrajectory(t) && lb->value == ref->second,
                    "time-lower-bound", tt);
        }
      }
    }
  };
  check("after appending");
  // Remove nodes in random order, trimming the data each time.
  uint64_t removed = 0;
  vh::Digest digest;
  while (nodes.size() > 0 && rng.Chance(0.95)) {
    std::vector<Key> all;
    for (const auto& t : node_model) {
      for (const auto& n : t.second) all.push_back({t.first, n.first});
    }
    const Key k = all[rng.Int(0, all.size() - 1)];
    const int t = k.first;
    auto& ns = node_model[t];
    const auto it = ns.find(k.second);
    const bool first = it == ns.begin(), last = std::next(it) == ns.end();
    const int64_t lo = first ? INT64_MIN : std::prev(it)->second;
    const int64_t hi = last ? INT64_MAX : std::next(it)->second;
    map.Trim(nodes, mapping::NodeId(t, k.second));
    nodes.Trim(mapping::NodeId(t, k.second));
    ns.erase(it);
    if (model.count(t)) {
      // Data outside the gap stays; inside the gap only what interpolation at
      // the gap's ends needs stays.
      std::vector<int64_t> inside;
      for (const auto& e : model[t]) {
        if (e.first >= lo && e.first <= hi) inside.push_back(e.first);
      }
      std::set<int64_t> keep;
      if (!inside.empty()) {
        if (!first) keep.insert(inside.front());
        if (!last) keep.insert(inside.back());
      }
      for (int64_t x : inside) {
        if (keep.count(x)) continue;
        model[t].erase(x);
        ++removed;
      }
      if (model[t].empty()) model.erase(t);
    }
    digest.Add(t * 100 + k.second);
    check("after trimming");
  }
  vh::Count("time_data_removed", removed);
  if (removed > 0) vh::Distinct(digest.Add(removed).Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
