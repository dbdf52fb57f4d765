// C01: every task exactly once, on a pool thread, after its dependencies.
#include <atomic>
#include <memory>

#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "vh.h"

using cartographer::common::Task;
using cartographer::common::ThreadPool;

namespace {

struct Node {
  std::vector<int> deps;
  std::atomic<int> runs{0};
  std::atomic<uint64_t> begin{0}, end{0};
  // Plain on purpose: the race detector sees whether dependants are ordered.
  int64_t value = 0;
  int busy_us = 0;
  bool yields = false;
  std::vector<int> children;  // scheduled from inside the work item
  int pool = 0;
  std::weak_ptr<Task> handle;
  bool has_work = true;
};

struct Graph {
  std::vector<std::unique_ptr<Node>> nodes;
  std::mutex mutex;  // guards handles and 'known'
  std::vector<char> known;
  std::atomic<uint64_t> clock{1};
  std::atomic<int> done{0};
  std::set<std::thread::id> scheduler_threads;
  std::vector<std::unique_ptr<ThreadPool>> pools;
  std::atomic<int> late_deps{0}, expired_deps{0}, parallel{0}, max_parallel{0};
};

void Schedule(Graph* g, int i);

void Run(Graph* g, int i) {
  Node& n = *g->nodes[i];
  const int par = ++g->parallel;
  int m = g->max_parallel;
  while (par > m && !g->max_parallel.compare_exchange_weak(m, par)) {
  }
  n.begin = g->clock++;
  VH_NOTE(++n.runs == 1, "task-ran-twice", "task " << i);
  VH_NOTE(g->scheduler_threads.count(std::this_thread::get_id()) == 0,
          "ran-on-caller", "task " << i << " ran on a scheduling thread");
  int64_t sum = i + 1;
  for (int d : n.deps) {
    const Node& dep = *g->nodes[d];
    VH_NOTE(!dep.has_work || dep.end != 0, "ran-before-dependency",
            "task " << i << " began before dependency " << d << " ended");
    // A handle expired in another pool is not ordered by this pool's lock.
    if (dep.pool == n.pool) sum += dep.value;
  }
  if (n.yields) std::this_thread::yield();
  if (n.busy_us) usleep(n.busy_us);
  for (int c : n.children) Schedule(g, c);
  n.value = sum;
  n.end = g->clock++;
  --g->parallel;
  ++g->done;
}

void Schedule(Graph* g, int i) {
  Node& n = *g->nodes[i];
  auto task = std::make_unique<Task>();
  if (n.has_work) task->SetWorkItem([g, i]() { Run(g, i); });
  for (int d : n.deps) {
    std::weak_ptr<Task> h;
    {
      std::lock_guard<std::mutex> lock(g->mutex);
      h = g->nodes[d]->handle;
    }
    if (h.expired()) {
      ++g->expired_deps;
      VH_NOTE(!g->nodes[d]->has_work || g->nodes[d]->end != 0,
              "expired-before-completion",
              "handle of task " << d << " expired before it completed");
    } else if (g->nodes[d]->end != 0) {
      ++g->late_deps;
    }
    task->AddDependency(h);
  }
  auto handle = g->pools[n.pool]->Schedule(std::move(task));
  std::lock_guard<std::mutex> lock(g->mutex);
  n.handle = handle;
  g->known[i] = 1;
}

}  // namespace

// Random graphs scheduled by several threads onto one or two pools.
VH_SCENARIO(graphs, 1200, 30000) {
  vmutex::Configure(rng.U64(), rng.Chance(0.3) ? 0 : rng.Int(1, 40));
  Graph g;
  const int n = rng.Int(1, rng.Chance(0.2) ? 120 : 30);
  const int schedulers = rng.Int(1, 4);
  const int num_pools = rng.Chance(0.2) ? 2 : 1;
  const bool destroy_early = rng.Chance(0.3);
  const double density = rng.Unit() * 0.6;
  const double sleepy = rng.Unit() * 0.2;
  // With two pools every task counts, so that no pool is destroyed while a
  // task of the other one has still to release one of its tasks.
  const double workless = rng.Chance(0.3) && num_pools == 1 ? 0.2 : 0.;
  g.known.assign(n, 0);
  for (int i = 0; i < n; ++i) {
    g.nodes.push_back(std::make_unique<Node>());
    Node& node = *g.nodes.back();
    if (rng.Chance(sleepy)) node.busy_us = rng.Int(1, 400);
    node.yields = rng.Chance(0.3);
    node.pool = num_pools == 1 ? 0 : rng.Int(0, 1);
    node.has_work = !rng.Chance(workless);
  }
  // Owner of a node: scheduler thread index, or a parent task.
  std::vector<std::vector<int>> per_thread(schedulers);
  std::vector<int> owner(n), parent(n, -1);
  for (int i = 0; i < n; ++i) {
    const int candidate = rng.Int(0, std::max(0, i - 1));
    if (i > 0 && num_pools == 1 && !destroy_early && rng.Chance(0.15) &&
        g.nodes[candidate]->has_work) {
      parent[i] = candidate;
      owner[i] = -1;
      g.nodes[candidate]->children.push_back(i);
    } else {
      owner[i] = rng.Int(0, schedulers - 1);
      per_thread[owner[i]].push_back(i);
    }
  }
  // Dependencies.  A node may depend on a node known to be scheduled before:
  // an earlier one of the same scheduler thread, one scheduled by a proper
  // ancestor chain (earlier sibling), or any earlier one the scheduler waits
  // for (cross-thread, below).
  std::vector<std::vector<int>> wait_for(n);
  int edges = 0;
  for (int i = 0; i < n; ++i) {
    for (int d = 0; d < i; ++d) {
      if (!rng.Chance(density / (1 + 0.1 * i))) continue;
      if (num_pools == 2 && destroy_early) continue;
      if (owner[i] >= 0 && owner[i] == owner[d]) {
        g.nodes[i]->deps.push_back(d);
      } else if (owner[i] >= 0 && owner[d] >= 0) {
        g.nodes[i]->deps.push_back(d);
        wait_for[i].push_back(d);
      } else if (owner[i] < 0 && parent[i] == parent[d]) {
        g.nodes[i]->deps.push_back(d);
      } else if (owner[i] < 0 && parent[i] == d) {
        continue;
      } else {
        continue;
      }
      ++edges;
    }
  }
  std::mutex m;
  for (int p = 0; p < num_pools; ++p) {
    g.pools.push_back(std::make_unique<ThreadPool>(rng.Int(1, 6)));
  }
  std::vector<std::thread> threads;
  std::atomic<bool> go{false};
  for (int t = 0; t < schedulers; ++t) {
    threads.emplace_back([&, t]() {
      while (!go) std::this_thread::yield();
      for (int i : per_thread[t]) {
        for (int d : wait_for[i]) {
          for (;;) {
            {
              std::lock_guard<std::mutex> lock(g.mutex);
              if (g.known[d]) break;
            }
            std::this_thread::yield();
          }
        }
        Schedule(&g, i);
      }
    });
  }
  for (auto& t : threads) g.scheduler_threads.insert(t.get_id());
  g.scheduler_threads.insert(std::this_thread::get_id());
  go = true;
  for (auto& t : threads) t.join();
  int expected = 0;
  for (auto& node : g.nodes) expected += node->has_work;
  if (destroy_early) {
    g.pools.clear();
    VH_EXPECT(g.done == expected, "dropped-on-destruction",
              g.done << " of " << expected
                     << " tasks ran before the pool was destroyed");
  } else {
    vh::WaitOrDie([&]() { return g.done == expected; }, "stalled",
                  VH_STR("only " << g.done << " of " << expected
                                 << " tasks completed"));
    g.pools.clear();
  }
  vh::Digest digest;
  std::vector<std::pair<uint64_t, int>> order;
  // Order also holds through tasks that have no work item themselves.
  std::vector<uint64_t> latest(n, 0);
  for (int i = 0; i < n; ++i) {
    uint64_t l = 0;
    for (int d : g.nodes[i]->deps) l = std::max(l, latest[d]);
    if (g.nodes[i]->has_work) {
      VH_EXPECT(l < g.nodes[i]->begin, "dependency-order",
                "task " << i << " began before a transitive dependency ended");
      l = std::max<uint64_t>(l, g.nodes[i]->end);
    }
    latest[i] = l;
  }
  for (int i = 0; i < n; ++i) {
    const Node& node = *g.nodes[i];
    VH_EXPECT(node.runs == (node.has_work ? 1 : 0), "run-count",
              "task " << i << " ran " << node.runs << " times");
    for (int d : node.deps) {
      if (!node.has_work || !g.nodes[d]->has_work) continue;
      VH_EXPECT(g.nodes[d]->end < node.begin, "dependency-order",
                "task " << i << " began at " << node.begin
                        << ", dependency " << d << " ended at "
                        << g.nodes[d]->end);
    }
    VH_EXPECT(node.handle.expired(), "task-leaked",
              "task " << i << " still alive after the pool is gone");
    order.push_back({node.begin, i});
  }
  std::sort(order.begin(), order.end());
  for (auto& o : order) digest.Add(o.second);
  digest.Add(edges);
  if (n > 2 && edges > 0) vh::Distinct(digest.Get());
  vh::Count("tasks_run", g.done);
  vh::Count("dependency_edges", edges);
  vh::Count("dependencies_already_complete", g.late_deps);
  vh::Count("dependencies_expired", g.expired_deps);
  vh::Max("parallel_tasks", g.max_parallel);
  if (vh::WantSample()) {
    std::string s;
    for (auto& o : order) s += std::to_string(o.second) + " ";
    vh::Sample(VH_STR(n << " tasks, " << edges << " edges, " << schedulers
                        << " scheduling threads; start order " << s));
  }
}

// Chains through tasks without work items and diamond shapes, repeated
// quickly: dependencies complete while they are being registered.
VH_SCENARIO(registration_race, 3000, 60000) {
  vmutex::Configure(rng.U64(), rng.Int(0, 60));
  ThreadPool pool(rng.Int(1, 4));
  const int rounds = rng.Int(2, 12);
  std::vector<std::atomic<int>> ran(rounds);
  std::vector<int64_t> value(rounds, 0);
  std::atomic<int> total{0};
  std::weak_ptr<Task> last, before;
  for (int i = 0; i < rounds; ++i) {
    auto task = std::make_unique<Task>();
    const bool two = i > 1 && rng.Chance(0.5);
    task->SetWorkItem([&, i, two]() {
      VH_NOTE(++ran[i] == 1, "task-ran-twice", "task " << i);
      if (i > 0) {
        VH_NOTE(value[i - 1] == i, "ran-before-dependency",
                "task " << i << " does not see the effect of its dependency");
      }
      if (two) {
        VH_NOTE(value[i - 2] == i - 1, "ran-before-dependency",
                "task " << i << " does not see the effect of its dependency");
      }
      value[i] = i + 1;
      ++total;
    });
    task->AddDependency(last);
    if (two) task->AddDependency(before);
    before = last;
    last = pool.Schedule(std::move(task));
  }
  vh::WaitOrDie([&]() { return total == rounds; }, "stalled",
                VH_STR(total << " of " << rounds << " tasks completed"));
  vh::Count("tasks_run", rounds);
  vh::Count("chained_rounds", rounds);
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
