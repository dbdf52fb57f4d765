// C02: the blocking queue is a linearizable bounded FIFO.
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>

#include "cartographer/common/internal/blocking_queue.h"
#include "cartographer/common/time.h"
#include "vh.h"

namespace {

struct Item {
  int id;
  int64_t payload;  // written by the producer, read by the consumer
};
using Ptr = std::shared_ptr<Item>;
using Queue = cartographer::common::BlockingQueue<Ptr>;

enum Kind { kPush, kPushT, kPop, kPopT, kPeek, kPeekT, kSize, kWaitEmpty };
const char* const kNames[] = {"push",  "push_timed", "pop",  "pop_timed",
                              "peek",  "peek_timed", "size", "wait_empty"};

struct Op {
  Kind kind;
  int arg = -1;          // pushed id
  int64_t result = -1;   // popped/peeked id (-1: none), size, or 0/1
  uint64_t call = 0, ret = 0;
  int thread = 0;
  int64_t timeout_us = 0;
};

std::string Show(const Op& op) {
  return VH_STR("t" << op.thread << " [" << op.call << "," << op.ret << "] "
                    << kNames[op.kind] << "(" << op.arg << ")="
                    << op.result);
}

// Searches for a linearization (Wing & Gong with memoization).
class Linearizer {
 public:
  Linearizer(std::vector<Op> ops, size_t capacity)
      : ops_(std::move(ops)), capacity_(capacity) {
    std::sort(ops_.begin(), ops_.end(),
              [](const Op& a, const Op& b) { return a.call < b.call; });
  }
  // 1: linearizable, 0: not, -1: gave up.
  int Check() {
    budget_ = 3000000;
    const bool ok = Search(0, std::deque<int>());
    if (budget_ <= 0) return ok ? 1 : -1;
    return ok ? 1 : 0;
  }

 private:
  bool Apply(const Op& op, std::deque<int>* q) const {
    const bool full = capacity_ != 0 && q->size() >= capacity_;
    switch (op.kind) {
      case kPush:
        if (full) return false;
        q->push_back(op.arg);
        return true;
      case kPushT:
        if (op.result == 0) return full;
        if (full) return false;
        q->push_back(op.arg);
        return true;
      case kPop:
      case kPopT:
        if (op.result < 0) return op.kind == kPopT && q->empty();
        if (q->empty() || q->front() != op.result) return false;
        q->pop_front();
        return true;
      case kPeek:
      case kPeekT:
        if (op.result < 0) return q->empty();
        return !q->empty() && q->front() == op.result;
      case kSize:
        return static_cast<int64_t>(q->size()) == op.result;
      case kWaitEmpty:
        return q->empty();
    }
    return false;
  }
  bool Search(uint64_t done, const std::deque<int>& q) {
    const uint64_t all =
        ops_.size() == 64 ? ~0ull : ((1ull << ops_.size()) - 1);
    if (done == all) return true;
    if (--budget_ <= 0) return false;
    vh::Digest d;
    d.Add(done);
    for (int id : q) d.Add(id);
    if (!seen_.insert(d.Get()).second) return false;
    uint64_t first_return = ~0ull;
    for (size_t i = 0; i < ops_.size(); ++i) {
      if (!(done >> i & 1)) first_return = std::min(first_return, ops_[i].ret);
    }
    for (size_t i = 0; i < ops_.size(); ++i) {
      if (done >> i & 1) continue;
      if (ops_[i].call > first_return) break;
      std::deque<int> next = q;
      if (!Apply(ops_[i], &next)) continue;
      if (Search(done | (1ull << i), next)) return true;
    }
    return false;
  }
  std::vector<Op> ops_;
  const size_t capacity_;
  int64_t budget_ = 0;
  std::unordered_set<uint64_t> seen_;
};

struct Harness {
  explicit Harness(size_t capacity) : queue(capacity) {}
  Queue queue;
  std::atomic<uint64_t> clock{1};
  std::vector<Ptr> items;
  std::map<const Item*, int> by_address;

  void Prepare(int n) {
    for (int i = 0; i < n; ++i) {
      items.push_back(std::make_shared<Item>());
      items.back()->id = i;
      items.back()->payload = 0;
      by_address[items.back().get()] = i;
    }
  }
  int IdOf(const Item* p) const {
    if (p == nullptr) return -1;
    auto it = by_address.find(p);
    return it == by_address.end() ? -2 : it->second;
  }
  void Do(Op* op) {
    const auto timeout = std::chrono::microseconds(op->timeout_us);
    const auto duration =
        std::chrono::duration_cast<cartographer::common::Duration>(timeout);
    op->call = clock++;
    const auto t0 = std::chrono::steady_clock::now();
    bool timed_out = false;
    switch (op->kind) {
      case kPush:
        items[op->arg]->payload = op->arg * 7 + 1;
        queue.Push(items[op->arg]);
        op->result = 1;
        break;
      case kPushT:
        items[op->arg]->payload = op->arg * 7 + 1;
        op->result = queue.PushWithTimeout(items[op->arg], duration);
        timed_out = !op->result;
        break;
      case kPop:
      case kPopT: {
        Ptr p = op->kind == kPop ? queue.Pop() : queue.PopWithTimeout(duration);
        op->result = IdOf(p.get());
        timed_out = p == nullptr;
        if (p != nullptr) {
          VH_NOTE(p->payload == p->id * 7 + 1, "payload-not-visible",
                  "consumer sees stale payload of element " << p->id);
        }
        break;
      }
      case kPeek:
        op->result = IdOf(queue.template Peek<Item>());
        break;
      case kPeekT:
        op->result = IdOf(queue.template PeekWithTimeout<Item>(duration));
        timed_out = op->result == -1;
        break;
      case kSize:
        op->result = queue.Size();
        break;
      case kWaitEmpty:
        queue.WaitUntilEmpty();
        op->result = 1;
        break;
    }
    op->ret = clock++;
    if (timed_out && op->timeout_us > 4000) {
      const double elapsed =
          std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
              .count();
      VH_NOTE(elapsed > op->timeout_us * 1e-6 - 2e-3, "gave-up-early",
              kNames[op->kind] << " gave up after " << elapsed
                               << " s, timeout " << op->timeout_us << " us");
      vh::Count("timeouts_observed");
    }
  }
};

}  // namespace

VH_SCENARIO(histories, 4000, 120000) {
  vmutex::Configure(rng.U64(), rng.Int(0, 70));
  const size_t capacity = rng.Chance(0.25) ? 0 : rng.Int(1, 3);
  const int threads = rng.Int(2, 4);
  const int per_thread = rng.Int(2, 20 / threads);
  Harness h(capacity);
  const int kRescue = 24;
  h.Prepare(threads * per_thread + kRescue);
  std::vector<std::vector<Op>> plans(threads);
  int next_id = 0;
  const bool with_wait = rng.Chance(0.4);
  const double timed = rng.Unit();
  for (int t = 0; t < threads; ++t) {
    const double push_bias = rng.Unit();
    for (int i = 0; i < per_thread; ++i) {
      Op op;
      op.thread = t;
      op.timeout_us = rng.Chance(0.5) ? 0 : rng.Int(1, 600);
      if (rng.Chance(0.02)) op.timeout_us = rng.Int(5000, 9000);
      const double dice = rng.Unit();
      if (dice < 0.8) {
        const bool push = rng.Chance(push_bias);
        op.kind = push ? (rng.Chance(timed) ? kPushT : kPush)
                       : (rng.Chance(timed) ? kPopT : kPop);
        if (push) op.arg = next_id++;
      } else if (dice < 0.87) {
        op.kind = kPeek;
      } else if (dice < 0.92) {
        op.kind = kPeekT;
      } else if (dice < 0.97 || !with_wait) {
        op.kind = kSize;
      } else {
        op.kind = kWaitEmpty;
      }
      plans[t].push_back(op);
    }
  }
  std::vector<std::atomic<int>> pending(threads);
  std::atomic<int> finished{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> workers;
  for (int t = 0; t < threads; ++t) {
    pending[t] = -1;
    workers.emplace_back([&, t]() {
      while (!go) std::this_thread::yield();
      for (Op& op : plans[t]) {
        pending[t] = op.kind;
        h.Do(&op);
        pending[t] = -1;
      }
      ++finished;
    });
  }
  go = true;
  // Unblocks workers whose partner operations have run out.
  std::vector<Op> rescue;
  int idle = 0, left = kRescue;
  for (int64_t spins = 0; finished < threads; ++spins) {
    usleep(100);
    int pops = 0, others = 0, blocked = 0;
    for (auto& p : pending) {
      const int k = p;
      if (k == kPop) ++pops;
      if (k == kPush || k == kWaitEmpty) ++others;
      if (k == kPop || k == kPush || k == kWaitEmpty) ++blocked;
    }
    if (blocked + finished < threads) {
      idle = 0;
      continue;
    }
    if (++idle < 20) continue;
    if (idle > 600000) vh::Die("stalled", "queue operations make no progress");
    if (idle % 10 != 0) continue;
    Op op;
    op.thread = threads;
    if (others > 0) {
      op.kind = kPopT;
    } else if (pops > 0 && left > 0) {
      op.kind = kPushT;
      op.arg = next_id + (kRescue - left);
      --left;
    } else {
      continue;
    }
    h.Do(&op);
    if (op.result > 0 || op.kind == kPushT || op.result == 0) {
      if (!(op.kind == kPopT && op.result < 0)) rescue.push_back(op);
    }
  }
  for (auto& w : workers) w.join();
  std::vector<Op> all;
  for (auto& p : plans) all.insert(all.end(), p.begin(), p.end());
  all.insert(all.end(), rescue.begin(), rescue.end());
  // Drain what is left: everything pushed must come out, in order.
  for (;;) {
    Op op;
    op.kind = kPopT;
    op.thread = threads;
    h.Do(&op);
    all.push_back(op);
    if (op.result < 0 || all.size() > 100) break;
  }
  Op size;
  size.kind = kSize;
  size.thread = threads;
  h.Do(&size);
  all.push_back(size);
  vh::Digest digest;
  int overlaps = 0;
  std::sort(all.begin(), all.end(),
            [](const Op& a, const Op& b) { return a.call < b.call; });
  for (size_t i = 0; i < all.size(); ++i) {
    digest.Add(all[i].kind).Add(all[i].result + 2).Add(all[i].thread);
    if (i > 0 && all[i].call < all[i - 1].ret) ++overlaps;
    VH_EXPECT(all[i].result != -2, "foreign-element", Show(all[i]));
    if (all[i].kind == kSize && capacity > 0) {
      VH_EXPECT(all[i].result <= static_cast<int64_t>(capacity),
                "over-capacity", Show(all[i]));
    }
  }
  if (all.size() > 64) {
    vh::Count("histories_too_long");
    return;
  }
  Linearizer lin(all, capacity);
  const int verdict = lin.Check();
  if (verdict < 0) {
    vh::Count("linearizability_search_gave_up");
    return;
  }
  if (verdict == 0) {
    std::string s;
    for (const Op& op : all) s += Show(op) + "\n";
    vh::Report("not-linearizable",
               VH_STR("capacity " << capacity << "\n" << s));
    throw vh::CaseAbort();
  }
  vh::Count("operations", all.size());
  vh::Count("overlapping_operations", overlaps);
  vh::Count("histories_checked");
  if (overlaps > 1) vh::Distinct(digest.Get());
  if (vh::WantSample() && overlaps > 2) {
    std::string s = VH_STR("capacity " << capacity << ": ");
    for (const Op& op : all) s += Show(op) + "; ";
    vh::Sample(s);
  }
}

// Many elements: conservation and order.
VH_SCENARIO(stream, 60, 1500) {
  vmutex::Configure(rng.U64(), rng.Int(0, 10));
  const size_t capacity = rng.Chance(0.3) ? 0 : rng.Int(1, 8);
  const int producers = rng.Int(1, 4), consumers = rng.Int(1, 4);
  const int n = 400;
  Harness h(capacity);
  h.Prepare(n * producers);
  std::vector<std::vector<int>> got(consumers);
  std::vector<std::vector<Op>> log(producers + consumers);
  std::atomic<int> taken{0}, size_bad{0};
  std::vector<std::thread> workers;
  const bool timed = rng.Chance(0.5);
  for (int p = 0; p < producers; ++p) {
    workers.emplace_back([&, p]() {
      for (int i = 0; i < n; ++i) {
        Op op;
        op.kind = timed && i % 3 == 0 ? kPushT : kPush;
        op.arg = p * n + i;
        op.timeout_us = 200;
        do {
          h.Do(&op);
        } while (op.result == 0);
        log[p].push_back(op);
      }
    });
  }
  for (int c = 0; c < consumers; ++c) {
    workers.emplace_back([&, c]() {
      for (;;) {
        Op op;
        op.kind = kPopT;
        op.timeout_us = 300;
        h.Do(&op);
        if (op.result >= 0) {
          got[c].push_back(op.result);
          log[producers + c].push_back(op);
          ++taken;
        } else if (op.result == -1 && taken == n * producers) {
          return;
        }
        if (capacity > 0 && h.queue.Size() > capacity) ++size_bad;
      }
    });
  }
  vh::WaitOrDie([&]() { return taken >= n * producers; }, "stalled",
                "elements lost: consumers starve");
  for (auto& w : workers) w.join();
  VH_EXPECT(size_bad == 0, "over-capacity", "size exceeded the capacity");
  std::vector<int> count(n * producers, 0);
  std::vector<Op> push(n * producers), pop(n * producers);
  for (auto& l : log) {
    for (auto& op : l) {
      if (op.kind == kPopT) {
        ++count[op.result];
        pop[op.result] = op;
      } else {
        push[op.arg] = op;
      }
    }
  }
  for (int i = 0; i < n * producers; ++i) {
    VH_EXPECT(count[i] == 1, "exactly-once",
              "element " << i << " delivered " << count[i] << " times");
    VH_EXPECT(push[i].call < pop[i].ret, "popped-before-push", i);
  }
  // push(a) before push(b) implies not pop(b) before pop(a).
  for (int a = 0; a < n * producers; ++a) {
    for (int b = 0; b < n * producers; ++b) {
      if (push[a].ret < push[b].call) {
        VH_EXPECT(!(pop[b].ret < pop[a].call), "fifo-order",
                  "element " << a << " pushed before " << b
                             << " but popped after it");
      }
    }
  }
  vh::Count("elements_streamed", n * producers);
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
