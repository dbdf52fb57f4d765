#ifndef VERIF_VMUTEX_H_
#define VERIF_VMUTEX_H_
#include <atomic>
#include <cstdint>
namespace vmutex {
// Probability (percent) of a perturbation before each Lock / after each Unlock.
void Configure(uint64_t seed, int jitter_percent);
extern std::atomic<uint64_t> g_lock_ops, g_contended, g_waits, g_delays;
}  // namespace vmutex
#endif
