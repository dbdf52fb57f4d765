// C32: metrics report exactly what was recorded, also under concurrency.
#include <atomic>
#include <thread>

#include "cartographer/cloud/metrics/prometheus/family_factory.h"
#include "cartographer/common/histogram.h"
#include "cartographer/metrics/counter.h"
#include "cartographer/metrics/gauge.h"
#include "cartographer/metrics/histogram.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "vh.h"

namespace cm = cartographer::metrics;
using Factory = cartographer::cloud::metrics::prometheus::FamilyFactory;
using Labels = std::map<std::string, std::string>;

namespace {

std::vector<::prometheus::MetricFamily> Collect(const Factory& factory) {
  auto collectable = factory.GetCollectable().lock();
  VH_EXPECT(collectable != nullptr, "registry gone", "");
  return collectable->Collect();
}

const ::prometheus::ClientMetric* Find(
    const std::vector<::prometheus::MetricFamily>& families,
    const std::string& name, const Labels& labels) {
  const ::prometheus::ClientMetric* found = nullptr;
  for (const auto& f : families) {
    if (f.name != name) continue;
    for (const auto& metric : f.metric) {
      Labels l;
      for (const auto& x : metric.label) l[x.name] = x.value;
      if (l == labels) {
        VH_EXPECT(found == nullptr, "metric reported twice", name);
        found = &metric;
      }
    }
  }
  return found;
}

Labels RandomLabels(vh::Rng& rng) {
  static const char* keys[] = {"kind", "trajectory", "sensor"};
  Labels l;
  for (const char* k : keys) {
    if (rng.Chance(0.6)) l[k] = "v" + std::to_string(rng.Int(0, 2));
  }
  return l;
}

// Amounts that add up exactly in any order.
double Amount(vh::Rng& rng) { return rng.Int(0, 64) / 4.; }

struct HistModel {
  std::vector<uint64_t> buckets;
  uint64_t count = 0;
  double sum = 0;
};

cm::Histogram::BucketBoundaries Boundaries(vh::Rng& rng) {
  if (rng.Chance(0.5)) {
    const double width = rng.Int(1, 16) / 8.;
    const int n = rng.Int(1, 12);
    const auto b = cm::Histogram::FixedWidth(width, n);
    VH_EXPECT(static_cast<int>(b.size()) == n, "number of fixed-width buckets",
              b.size());
    for (int i = 0; i < n; ++i) {
      VH_EXPECT(std::abs(b[i] - (i + 1) * width) < 1e-9 * (i + 1),
                "fixed-width boundary", i << ": " << b[i]);
    }
    return b;
  }
  const double base = rng.Chance(0.5) ? 2. : rng.Real(1.1, 5.);
  const double scale = rng.Int(1, 8) / 4.;
  const double max = rng.Real(0.1, 300.);
  const auto b = cm::Histogram::ScaledPowersOf(base, scale, max);
  double expected = scale;
  for (double x : b) {
    VH_EXPECT(std::abs(x - expected) <= 1e-9 * expected && x < max,
              "scaled-power boundary", x << " for " << expected);
    expected *= base;
  }
  VH_EXPECT(expected >= max * (1. - 1e-9), "scaled powers end early",
            expected << " < " << max);
  return b;
}

}  // namespace

VH_SCENARIO(record, 1500, 30000) {
  Factory factory;
  auto* counters = factory.NewCounterFamily("test_counter", "c");
  auto* counters2 = factory.NewCounterFamily("test_counter2", "c2");
  auto* gauges = factory.NewGaugeFamily("test_gauge", "g");
  const auto boundaries = Boundaries(rng);
  auto* histograms =
      factory.NewHistogramFamily("test_histogram", "h", boundaries);
  std::map<Labels, double> c_model, c2_model, g_model;
  std::map<Labels, HistModel> h_model;
  std::map<Labels, cm::Counter*> c_ptr;
  std::map<Labels, cm::Gauge*> g_ptr;
  std::map<Labels, cm::Histogram*> h_ptr;
  vh::Digest digest;
  const int steps = rng.Int(1, 60);
  for (int i = 0; i < steps; ++i) {
    const Labels l = RandomLabels(rng);
    const double x = Amount(rng);
    const int op = rng.Int(0, 8);
    digest.Add(op).AddD(x);
    switch (op) {
      case 0:
      case 1: {
        auto* c = counters->Add(l);
        VH_EXPECT(!c_ptr.count(l) || c_ptr[l] == c,
                  "asking again for a counter gives another one", "");
        c_ptr[l] = c;
        if (op == 0) {
          c->Increment();
          c_model[l] += 1.;
        } else {
          c->Increment(x);
          c_model[l] += x;
        }
        break;
      }
      case 2:
        counters2->Add(l)->Increment(x);
        c2_model[l] += x;
        break;
      case 3:
      case 4:
      case 5:
      case 6: {
        auto* g = gauges->Add(l);
        VH_EXPECT(!g_ptr.count(l) || g_ptr[l] == g,
                  "asking again for a gauge gives another one", "");
        g_ptr[l] = g;
        if (op == 3) {
          g->Set(x);
          g_model[l] = x;
        } else if (op == 4) {
          g->Increment(x);
          g_model[l] += x;
        } else if (op == 5) {
          g->Decrement(x);
          g_model[l] -= x;
        } else if (rng.Chance(0.5)) {
          g->Increment();
          g_model[l] += 1.;
        } else {
          g->Decrement();
          g_model[l] -= 1.;
        }
        break;
      }
      default: {
        auto* h = histograms->Add(l);
        VH_EXPECT(!h_ptr.count(l) || h_ptr[l] == h,
                  "asking again for a histogram gives another one", "");
        h_ptr[l] = h;
        double v = rng.Chance(0.3) && !boundaries.empty()
                       ? boundaries[rng.Int(0, boundaries.size() - 1)]
                       : rng.Int(-40, 1200) / 8.;
        h->Observe(v);
        auto& hm = h_model[l];
        hm.buckets.resize(boundaries.size() + 1);
        size_t b = 0;
        while (b < boundaries.size() && v > boundaries[b]) ++b;
        ++hm.buckets[b];
        ++hm.count;
        hm.sum += v;
      }
    }
  }
  const auto families = Collect(factory);
  auto scalar = [&](const std::string& name,
                    const std::map<Labels, double>& model, bool gauge) {
    size_t reported = 0;
    for (const auto& f : families) {
      if (f.name == name) reported += f.metric.size();
    }
    VH_EXPECT(reported == model.size(), "label combinations reported",
              name << ": " << reported << " instead of " << model.size());
    for (const auto& e : model) {
      const auto* metric = Find(families, name, e.first);
      VH_EXPECT(metric != nullptr, "metric missing", name);
      const double got = gauge ? metric->gauge.value : metric->counter.value;
      VH_EXPECT(got == e.second, gauge ? "gauge value" : "counter value",
                name << ": " << got << " instead of " << e.second);
    }
  };
  scalar("test_counter", c_model, false);
  scalar("test_counter2", c2_model, false);
  scalar("test_gauge", g_model, true);
  for (const auto& e : h_model) {
    const auto* metric = Find(families, "test_histogram", e.first);
    VH_EXPECT(metric != nullptr, "histogram missing", "");
    const auto& h = metric->histogram;
    VH_EXPECT(h.sample_count == e.second.count, "histogram count",
              h.sample_count << " instead of " << e.second.count);
    VH_EXPECT(std::abs(h.sample_sum - e.second.sum) <
                  1e-9 * (1. + std::abs(e.second.sum)),
              "histogram sum", h.sample_sum);
    VH_EXPECT(h.bucket.size() == e.second.buckets.size(),
              "number of buckets", h.bucket.size());
    uint64_t cumulative = 0;
    for (size_t b = 0; b < h.bucket.size(); ++b) {
      cumulative += e.second.buckets[b];
      VH_EXPECT(h.bucket[b].cumulative_count == cumulative &&
                    (b == boundaries.size() ||
                     h.bucket[b].upper_bound == boundaries[b]),
                "histogram bucket",
                b << ": " << h.bucket[b].cumulative_count << " instead of "
                  << cumulative);
    }
  }
  if (c_model.size() + g_model.size() + h_model.size() > 2) {
    vh::Distinct(digest.Get());
  }
  if (vh::WantSample()) {
    vh::Sample(VH_STR(steps << " recordings, " << c_model.size()
                            << " counters, " << g_model.size() << " gauges, "
                            << h_model.size() << " histograms"));
  }
}

VH_SCENARIO(threads, 60, 1200) {
  Factory factory;
  auto* counters = factory.NewCounterFamily("test_counter", "c");
  auto* gauges = factory.NewGaugeFamily("test_gauge", "g");
  const cm::Histogram::BucketBoundaries boundaries{1., 2., 4., 8.};
  auto* histograms =
      factory.NewHistogramFamily("test_histogram", "h", boundaries);
  const int n = rng.Int(2, 4);
  std::mutex mutex;
  std::map<Labels, double> c_total, g_total;
  std::map<Labels, HistModel> h_total;
  std::map<Labels, std::set<cm::Counter*>> pointers;
  std::vector<std::thread> threads;
  std::atomic<bool> stop{false};
  for (int t = 0; t < n; ++t) {
    const uint64_t seed = rng.U64();
    threads.emplace_back([&, seed] {
      vh::Rng r(seed);
      std::map<Labels, double> c, g;
      std::map<Labels, HistModel> h;
      std::map<Labels, std::set<cm::Counter*>> p;
      for (int i = 0; i < 150; ++i) {
        const Labels l = RandomLabels(r);
        const double x = Amount(r);
        switch (r.Int(0, 3)) {
          case 0: {
            auto* counter = counters->Add(l);
            p[l].insert(counter);
            counter->Increment(x);
            c[l] += x;
            break;
          }
          case 1:
            gauges->Add(l)->Increment(x);
            g[l] += x;
            break;
          case 2:
            gauges->Add(l)->Decrement(x);
            g[l] -= x;
            break;
          default: {
            histograms->Add(l)->Observe(x);
            auto& hm = h[l];
            hm.buckets.resize(boundaries.size() + 1);
            size_t b = 0;
            while (b < boundaries.size() && x > boundaries[b]) ++b;
            ++hm.buckets[b];
            ++hm.count;
          }
        }
      }
      std::lock_guard<std::mutex> lock(mutex);
      for (const auto& e : c) c_total[e.first] += e.second;
      for (const auto& e : g) g_total[e.first] += e.second;
      for (const auto& e : p) {
        pointers[e.first].insert(e.second.begin(), e.second.end());
      }
      for (const auto& e : h) {
        auto& hm = h_total[e.first];
        hm.buckets.resize(boundaries.size() + 1);
        for (size_t b = 0; b < hm.buckets.size(); ++b) {
          hm.buckets[b] += e.second.buckets[b];
        }
        hm.count += e.second.count;
      }
    });
  }
  // Counters never run backwards while others record.
  std::map<Labels, double> seen;
  for (int i = 0; i < 10; ++i) {
    for (const auto& f : Collect(factory)) {
      if (f.name != "test_counter") continue;
      for (const auto& metric : f.metric) {
        Labels l;
        for (const auto& x : metric.label) l[x.name] = x.value;
        VH_NOTE(metric.counter.value >= seen[l], "counter ran backwards",
                metric.counter.value << " after " << seen[l]);
        seen[l] = metric.counter.value;
      }
    }
  }
  for (auto& t : threads) t.join();
  const auto families = Collect(factory);
  vh::Digest digest;
  for (const auto& e : c_total) {
    const auto* metric = Find(families, "test_counter", e.first);
    VH_EXPECT(metric != nullptr && metric->counter.value == e.second,
              "counter after concurrent increments",
              (metric ? metric->counter.value : -1.) << " instead of "
                                                     << e.second);
    VH_EXPECT(pointers[e.first].size() == 1,
              "threads got different counters for the same labels",
              pointers[e.first].size());
    digest.AddD(e.second);
  }
  for (const auto& e : g_total) {
    const auto* metric = Find(families, "test_gauge", e.first);
    VH_EXPECT(metric != nullptr && metric->gauge.value == e.second,
              "gauge after concurrent changes",
              (metric ? metric->gauge.value : -1.) << " instead of "
                                                   << e.second);
  }
  for (const auto& e : h_total) {
    const auto* metric = Find(families, "test_histogram", e.first);
    VH_EXPECT(metric != nullptr &&
                  metric->histogram.sample_count == e.second.count,
              "histogram count after concurrent observations", "");
    uint64_t cumulative = 0;
    for (size_t b = 0; b < e.second.buckets.size(); ++b) {
      cumulative += e.second.buckets[b];
      VH_EXPECT(metric->histogram.bucket[b].cumulative_count == cumulative,
                "histogram bucket after concurrent observations", b);
    }
  }
  vh::Distinct(digest.Get());
}

// Metrics that were never registered swallow everything.
VH_SCENARIO(null_metrics, 4, 16) {
  for (int i = 0; i < 10; ++i) {
    cm::Counter::Null()->Increment();
    cm::Counter::Null()->Increment(Amount(rng));
    cm::Gauge::Null()->Set(1.);
    cm::Gauge::Null()->Increment();
    cm::Gauge::Null()->Decrement(2.);
    cm::Histogram::Null()->Observe(Amount(rng));
  }
}

VH_SCENARIO(summary, 2000, 40000) {
  cartographer::common::Histogram histogram;
  const int buckets = rng.Int(1, 12);
  VH_EXPECT(histogram.ToString(buckets) == "Count: 0", "empty summary", "");
  const int n = rng.Int(1, 80);
  std::vector<float> values;
  const double offset = rng.Int(-20, 20), spread = rng.Real(0.5, 30.);
  for (int i = 0; i < n; ++i) {
    float v = static_cast<float>(offset + spread * rng.Unit());
    if (rng.Chance(0.2)) v = offset;
    if (rng.Chance(0.1)) v = std::round(v);
    values.push_back(v);
    histogram.Add(v);
  }
  const std::string text = histogram.ToString(buckets);
  const float min = *std::min_element(values.begin(), values.end());
  const float max = *std::max_element(values.begin(), values.end());
  double mean = 0.;
  for (float v : values) mean += v;
  mean /= n;
  unsigned count;
  double got_min, got_max, got_mean;
  VH_EXPECT(sscanf(text.c_str(), "Count: %u  Min: %lf  Max: %lf  Mean: %lf",
                   &count, &got_min, &got_max, &got_mean) == 4,
            "summary format", text);
  VH_EXPECT(static_cast<int>(count) == n, "summary count", text);
  const double eps = 2e-5;
  VH_EXPECT(std::abs(got_min - min) <= eps * (1. + std::abs(min)) &&
                std::abs(got_max - max) <= eps * (1. + std::abs(max)),
            "summary extremes", text << " for " << min << " " << max);
  VH_EXPECT(std::abs(got_mean - mean) <=
                eps * (1. + std::abs(min) + std::abs(max)),
            "summary mean", text << " for " << mean);
  // Bucket lines.
  std::istringstream is(text);
  std::string line;
  std::getline(is, line);
  int64_t total = 0, lines = 0;
  double previous_upper = min;
  while (std::getline(is, line)) {
    double lower, upper;
    VH_EXPECT(sscanf(line.c_str(), "[%lf, %lf", &lower, &upper) == 2,
              "bucket line", line);
    const size_t c = line.find("Count: "), t = line.find("Total: ");
    VH_EXPECT(c != std::string::npos && t != std::string::npos, "bucket line",
              line);
    const int64_t bucket = atoll(line.c_str() + c + 7);
    const int64_t so_far = atoll(line.c_str() + t + 7);
    total += bucket;
    ++lines;
    VH_EXPECT(so_far == total, "running total", line);
    const double want_upper =
        min + (static_cast<double>(max) - min) * lines / buckets;
    VH_EXPECT(std::abs(upper - want_upper) < 1e-4 * (1. + std::abs(upper)) &&
                  std::abs(lower - previous_upper) <
                      1e-4 * (1. + std::abs(lower)),
              "bucket bounds", line << " for upper bound " << want_upper);
    // Values within rounding of a bound may be in either bucket.
    int64_t sure = 0, maybe = 0;
    const double tol = 1e-4 * (1. + std::abs(upper) + std::abs(lower));
    for (float v : values) {
      if (v > lower + tol && v < upper - tol) ++sure;
      if (v > lower - tol && v < upper + tol) ++maybe;
    }
    VH_EXPECT(bucket >= sure && bucket <= maybe, "bucket count",
              line << ": between " << sure << " and " << maybe);
    previous_upper = upper;
  }
  if (min != max) {
    VH_EXPECT(lines == buckets && total == n, "summary buckets", text);
    vh::Distinct(vh::Digest().AddS(text).Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
