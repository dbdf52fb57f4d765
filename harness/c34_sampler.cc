// C34: a fixed-ratio sampler stays within one sample of its ratio.
#include "cartographer/common/fixed_ratio_sampler.h"
#include "vh.h"

using cartographer::common::FixedRatioSampler;

VH_SCENARIO(drift, 4000, 100000) {
  double ratio;
  switch (rng.Int(0, 5)) {
    case 0: ratio = 1.; break;
    case 1: ratio = 1. / rng.Int(1, 40); break;
    case 2: ratio = std::pow(10., -rng.Real(0, 5)); break;
    case 3: ratio = 1. - std::pow(10., -rng.Real(0, 5)); break;
    case 4: ratio = rng.Int(1, 100) / 100.; break;
    default: ratio = rng.Real(1e-6, 1.); break;
  }
  if (ratio <= 0.) ratio = 1e-6;
  FixedRatioSampler sampler(ratio), twin(ratio);
  const int64_t n = rng.Chance(0.05) ? 200000 : rng.Int(10, 4000);
  int64_t accepted = 0;
  // A sampler's answers depend on its own events only: 'twin' gets the same
  // events interleaved with questions for its state.
  for (int64_t i = 1; i <= n; ++i) {
    const bool take = sampler.Pulse();
    if (i % 64 == 0) twin.DebugString();
    VH_EXPECT(twin.Pulse() == take, "samplers with the same events differ",
              "ratio " << ratio << " event " << i);
    accepted += take;
    VH_EXPECT(ratio < 1. || take, "ratio one dropped an event", i);
    VH_EXPECT(std::abs(accepted - ratio * i) <= 1. + 1e-6,
              "sampler drifts from its ratio",
              "ratio " << ratio << ": " << accepted << " of " << i);
    VH_EXPECT(i > 1 || take, "first event of a positive ratio dropped", ratio);
  }
  vh::Count("events", n);
  vh::Count("accepted", accepted);
  if (accepted > 1) vh::Distinct(vh::Digest().AddD(ratio).Add(n).Get());
  if (vh::WantSample()) {
    vh::Sample(VH_STR("ratio " << ratio << ": " << accepted << " of " << n));
  }
}

// Days of sensor data.
VH_SCENARIO(long_run, 8, 32) {
  const double ratio = rng.Chance(0.5) ? rng.Real(0.01, 1.)
                                       : 1. / rng.Int(1, 300);
  FixedRatioSampler sampler(ratio);
  const int64_t n = 40000000;
  int64_t accepted = 0;
  for (int64_t i = 1; i <= n; ++i) {
    accepted += sampler.Pulse();
    if ((i & 1023) == 0) {
      VH_EXPECT(std::abs(accepted - ratio * i) <= 1. + 1e-5,
                "sampler drifts from its ratio",
                "ratio " << ratio << ": " << accepted << " of " << i);
    }
  }
  vh::Count("events", n);
  vh::Count("accepted", accepted);
}

VH_SCENARIO(zero, 20, 100) {
  FixedRatioSampler sampler(0.);
  for (int i = 0; i < 1000; ++i) {
    VH_EXPECT(!sampler.Pulse(), "ratio zero accepted an event", i);
  }
}

// Ratios out of range are refused.
VH_SCENARIO(refused, 16, 64) {
  const double bad = rng.Chance(0.5) ? 1. + rng.Real(1e-6, 5.)
                                     : -rng.Real(1e-6, 5.);
  VH_EXPECT(vh::RunForked([bad] { FixedRatioSampler s(bad); }) ==
                vh::Outcome::kRefused,
            "ratio out of range accepted", bad);
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
