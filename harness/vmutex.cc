// Stand-in for absl::Mutex / absl::CondVar used by the verification builds
// only.
//
// libabsl is a shared library, so the definitions below take precedence over
// its own; the headers the sources see are untouched.  The stand-in keeps
// absl's documented semantics but is built on pthread primitives, which
// ThreadSanitizer understands (the distribution's libabsl is not instrumented:
// with it every guarded access would look like a race).  It also injects
// seeded scheduling perturbation before acquiring and after releasing, where
// real preemption can happen too.
#include "vmutex.h"

#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>

#include "absl/synchronization/mutex.h"
#include "absl/time/time.h"

namespace vmutex {
std::atomic<int> g_jitter{0};
std::atomic<uint64_t> g_seed{1};
std::atomic<uint64_t> g_epoch{1};
std::atomic<uint64_t> g_lock_ops{0};
std::atomic<uint64_t> g_contended{0};
std::atomic<uint64_t> g_waits{0};
std::atomic<uint64_t> g_delays{0};

namespace {

struct Impl {
  pthread_rwlock_t rw;
  // For threads waiting for a condition.
  pthread_mutex_t aux;
  pthread_cond_t cond;
  std::atomic<int> waiters{0};
  uint64_t generation = 0;
  std::atomic<bool> writer{false};
};

uint64_t Next() {
  static std::atomic<uint64_t> counter{0};
  thread_local uint64_t state = 0, epoch = 0;
  const uint64_t now = g_epoch.load(std::memory_order_relaxed);
  if (state == 0 || epoch != now) {
    epoch = now;
    state = (g_seed.load(std::memory_order_relaxed) +
             0x9e3779b97f4a7c15ull *
                 (1 + counter.fetch_add(1, std::memory_order_relaxed))) |
            1;
  }
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return state;
}

void Jitter() {
  const int level = g_jitter.load(std::memory_order_relaxed);
  if (level == 0) return;
  const uint64_t r = Next();
  const int dice = static_cast<int>((r >> 8) % 100);
  if (dice < level) {
    g_delays.fetch_add(1, std::memory_order_relaxed);
    if ((r >> 20) % 4 == 0) {
      usleep(static_cast<useconds_t>((r >> 32) % 300));
    } else {
      sched_yield();
    }
  }
}

Impl* Get(const void* mu) {
  auto* slot =
      reinterpret_cast<std::atomic<Impl*>*>(const_cast<void*>(mu));
  Impl* impl = slot->load(std::memory_order_acquire);
  if (impl != nullptr) return impl;
  Impl* fresh = new Impl;
  pthread_rwlock_init(&fresh->rw, nullptr);
  pthread_mutex_init(&fresh->aux, nullptr);
  pthread_cond_init(&fresh->cond, nullptr);
  if (slot->compare_exchange_strong(impl, fresh, std::memory_order_acq_rel,
                                    std::memory_order_acquire)) {
    return fresh;
  }
  pthread_cond_destroy(&fresh->cond);
  pthread_mutex_destroy(&fresh->aux);
  pthread_rwlock_destroy(&fresh->rw);
  delete fresh;
  return impl;
}

#if defined(__SANITIZE_THREAD__)
constexpr bool kTryFirst = false;  // a try-lock leaves no lock-order edge
#else
constexpr bool kTryFirst = true;
#endif

void Acquire(Impl* impl, bool shared) {
  Jitter();
  g_lock_ops.fetch_add(1, std::memory_order_relaxed);
  if (shared) {
    if (kTryFirst) {
      if (pthread_rwlock_tryrdlock(&impl->rw) == 0) return;
      g_contended.fetch_add(1, std::memory_order_relaxed);
    }
    if (pthread_rwlock_rdlock(&impl->rw) != 0) abort();
  } else {
    if (!kTryFirst || pthread_rwlock_trywrlock(&impl->rw) != 0) {
      if (kTryFirst) g_contended.fetch_add(1, std::memory_order_relaxed);
      if (pthread_rwlock_wrlock(&impl->rw) != 0) {
        fprintf(stderr, "FATAL: mutex locked twice by one thread\n");
        abort();
      }
    }
    impl->writer.store(true, std::memory_order_relaxed);
  }
}

void WakeWaiters(Impl* impl) {
  if (impl->waiters.load(std::memory_order_relaxed) > 0) {
    pthread_mutex_lock(&impl->aux);
    ++impl->generation;
    pthread_cond_broadcast(&impl->cond);
    pthread_mutex_unlock(&impl->aux);
  }
}

void Release(Impl* impl) {
  WakeWaiters(impl);
  if (impl->writer.load(std::memory_order_relaxed)) {
    impl->writer.store(false, std::memory_order_relaxed);
  }
  pthread_rwlock_unlock(&impl->rw);
  Jitter();
}

timespec Deadline(absl::Duration timeout) {
  constexpr int64_t kMax = 1000000000ll * 86400 * 365;
  int64_t nanos = timeout >= absl::Nanoseconds(kMax)
                      ? kMax
                      : absl::ToInt64Nanoseconds(timeout);
  if (nanos < 0) nanos = 0;
  timespec deadline;
  clock_gettime(CLOCK_REALTIME, &deadline);
  deadline.tv_sec += nanos / 1000000000ll;
  deadline.tv_nsec += nanos % 1000000000ll;
  if (deadline.tv_nsec >= 1000000000l) {
    deadline.tv_nsec -= 1000000000l;
    ++deadline.tv_sec;
  }
  return deadline;
}

// Waits, with the lock held in the current mode, until the condition holds or
// the deadline passes.
bool AwaitImpl(Impl* impl, const absl::Condition& cond,
               const timespec* deadline) {
  for (bool first = true; !cond.Eval(); first = false) {
    g_waits.fetch_add(1, std::memory_order_relaxed);
    // What this thread changed before it waits may be what another waiter
    // waits for.
    if (first) WakeWaiters(impl);
    const bool shared = !impl->writer.load(std::memory_order_relaxed);
    pthread_mutex_lock(&impl->aux);
    impl->waiters.fetch_add(1, std::memory_order_relaxed);
    const uint64_t generation = impl->generation;
    if (!shared) impl->writer.store(false, std::memory_order_relaxed);
    pthread_rwlock_unlock(&impl->rw);
    int rc = 0;
    while (impl->generation == generation && rc != ETIMEDOUT) {
      rc = deadline == nullptr
               ? pthread_cond_wait(&impl->cond, &impl->aux)
               : pthread_cond_timedwait(&impl->cond, &impl->aux, deadline);
    }
    impl->waiters.fetch_sub(1, std::memory_order_relaxed);
    pthread_mutex_unlock(&impl->aux);
    if (shared) {
      pthread_rwlock_rdlock(&impl->rw);
    } else {
      pthread_rwlock_wrlock(&impl->rw);
      impl->writer.store(true, std::memory_order_relaxed);
    }
    if (rc == ETIMEDOUT) return cond.Eval();
  }
  return true;
}

}  // namespace

void Configure(uint64_t seed, int jitter_percent) {
  g_seed = seed;
  g_jitter = jitter_percent;
  ++g_epoch;
}

}  // namespace vmutex

namespace absl {
ABSL_NAMESPACE_BEGIN
static_assert(sizeof(Mutex) >= sizeof(void*), "slot must fit");

void Mutex::Lock() { vmutex::Acquire(vmutex::Get(this), false); }
void Mutex::Unlock() { vmutex::Release(vmutex::Get(this)); }
void Mutex::ReaderLock() { vmutex::Acquire(vmutex::Get(this), true); }
void Mutex::ReaderUnlock() { vmutex::Release(vmutex::Get(this)); }
bool Mutex::TryLock() {
  vmutex::Impl* impl = vmutex::Get(this);
  if (pthread_rwlock_trywrlock(&impl->rw) != 0) return false;
  impl->writer.store(true, std::memory_order_relaxed);
  return true;
}
bool Mutex::ReaderTryLock() {
  return pthread_rwlock_tryrdlock(&vmutex::Get(this)->rw) == 0;
}
void Mutex::Await(const Condition& cond) {
  vmutex::AwaitImpl(vmutex::Get(this), cond, nullptr);
}
bool Mutex::AwaitWithTimeout(const Condition& cond, Duration timeout) {
  if (cond.Eval()) return true;
  if (timeout <= ZeroDuration()) return false;
  const timespec deadline = vmutex::Deadline(timeout);
  return vmutex::AwaitImpl(vmutex::Get(this), cond, &deadline);
}
bool Mutex::AwaitWithDeadline(const Condition& cond, Time deadline) {
  return AwaitWithTimeout(cond, deadline - Now());
}
void Mutex::LockWhen(const Condition& cond) {
  Lock();
  Await(cond);
}
void Mutex::ReaderLockWhen(const Condition& cond) {
  ReaderLock();
  Await(cond);
}
bool Mutex::LockWhenWithTimeout(const Condition& cond, Duration timeout) {
  Lock();
  return AwaitWithTimeout(cond, timeout);
}
bool Mutex::LockWhenWithDeadline(const Condition& cond, Time deadline) {
  Lock();
  return AwaitWithDeadline(cond, deadline);
}
Mutex::~Mutex() {
  auto* slot = reinterpret_cast<std::atomic<vmutex::Impl*>*>(this);
  vmutex::Impl* impl = slot->load(std::memory_order_acquire);
  if (impl == nullptr) return;
  // Like absl, allow destruction right after another thread's Unlock made
  // the condition visible: wait until that Unlock is through.
  while (pthread_rwlock_trywrlock(&impl->rw) != 0) sched_yield();
  pthread_rwlock_unlock(&impl->rw);
  pthread_cond_destroy(&impl->cond);
  pthread_mutex_destroy(&impl->aux);
  pthread_rwlock_destroy(&impl->rw);
  slot->store(nullptr, std::memory_order_release);
  delete impl;
}
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}

// A condition variable is a generation counter guarded by its own mutex.
void CondVar::Wait(Mutex* mu) { WaitWithTimeout(mu, InfiniteDuration()); }
bool CondVar::WaitWithTimeout(Mutex* mu, Duration timeout) {
  vmutex::Impl* impl = vmutex::Get(this);
  const timespec deadline = vmutex::Deadline(timeout);
  pthread_mutex_lock(&impl->aux);
  impl->waiters.fetch_add(1, std::memory_order_relaxed);
  const uint64_t generation = impl->generation;
  mu->Unlock();
  int rc = 0;
  while (impl->generation == generation && rc != ETIMEDOUT) {
    rc = pthread_cond_timedwait(&impl->cond, &impl->aux, &deadline);
  }
  impl->waiters.fetch_sub(1, std::memory_order_relaxed);
  pthread_mutex_unlock(&impl->aux);
  mu->Lock();
  return rc == ETIMEDOUT;
}
bool CondVar::WaitWithDeadline(Mutex* mu, Time deadline) {
  return WaitWithTimeout(mu, deadline - Now());
}
void CondVar::Signal() { vmutex::WakeWaiters(vmutex::Get(this)); }
void CondVar::SignalAll() { vmutex::WakeWaiters(vmutex::Get(this)); }
CondVar::~CondVar() {}

ABSL_NAMESPACE_END
}  // namespace absl
