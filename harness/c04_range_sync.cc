// C04: combining range sensors keeps every point, its time, origin, intensity.
#include <array>
#include <memory>

#include "cartographer/common/time.h"
#include "cartographer/mapping/internal/range_data_collator.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "vh.h"

namespace common = cartographer::common;
namespace sensor = cartographer::sensor;
using cartographer::mapping::RangeDataCollator;

namespace {

struct Point {
  int sensor, message;
  int64_t when;  // absolute, universal ticks
  Eigen::Vector3f position;
  float intensity;
  double relative;
  int emitted = 0;
  bool late = false;  // older than what had been emitted when it arrived
};

struct Message {
  int64_t time;
  std::vector<int> points;
  int64_t last = INT64_MIN;  // newest point
  Eigen::Vector3f origin;
};

}  // namespace

VH_SCENARIO(sensors, 16000, 400000) {
  const int num_sensors = rng.Int(1, 4);
  std::vector<std::string> names;
  std::vector<double> period(num_sensors), duration(num_sensors);
  for (int s = 0; s < num_sensors; ++s) {
    names.push_back("range_" + std::to_string((s * 7 + 3) % 10));
    period[s] = rng.Real(0.02, 0.4);
    // Sometimes scans overlap their predecessor, sometimes they leave gaps.
    duration[s] = period[s] * rng.Real(0.1, 1.6);
  }
  RangeDataCollator collator(names);
  const double end_time = rng.Real(0.3, 2.5);
  const int64_t epoch = common::ToUniversal(common::FromUniversal(
      rng.Int(1, 700000) * 10000000ll + rng.Int(0, 9999999)));
  std::vector<double> next(num_sensors);
  for (int s = 0; s < num_sensors; ++s) next[s] = rng.Real(0., period[s]);
  std::vector<int> silent_after(num_sensors, 1 << 30);
  if (rng.Chance(0.2)) silent_after[rng.Int(0, num_sensors - 1)] = rng.Int(0, 3);
  const bool coincide = rng.Chance(0.2);  // equal stamps across sensors
  std::vector<Point> points;
  std::map<std::array<float, 3>, int> by_position;
  std::vector<std::vector<Message>> messages(num_sensors);
  std::vector<char> pending(num_sensors, 0);
  bool have_end = false;
  int64_t last_end = INT64_MIN;
  int outputs = 0, emitted_total = 0, boundary = 0;
  vh::Digest digest;

  auto feed = [&](int s, int64_t time, int n, double dur, bool final) {
    sensor::TimedPointCloudData data;
    data.time = common::FromUniversal(time);
    Message m;
    m.time = time;
    data.origin = m.origin = Eigen::Vector3f(s, 0.25f * messages[s].size(), -s);
    std::vector<float> rel;
    for (int i = 0; i + 1 < n; ++i) {
      rel.push_back(-dur * rng.Unit());
      if (have_end && rng.Chance(0.05)) {
        // Exactly where the last combined scan ended.
        const double r = common::ToSeconds(common::FromUniversal(last_end) -
                                           data.time);
        if (r <= 0 && r > -2) rel.back() = r;
      }
    }
    if (n > 0) rel.push_back(rng.Chance(0.85) ? 0.f : -0.3f * dur * rng.Unit());
    std::sort(rel.begin(), rel.end());
    const int mode = rng.Int(0, 3);  // intensities: 0,1 full, 2 none, 3 partial
    size_t with_intensity = mode <= 1 ? n : mode == 2 ? 0 : rng.Int(0, n);
    for (int i = 0; i < n; ++i) {
      Point p;
      p.sensor = s;
      p.message = messages[s].size();
      p.relative = rel[i];
      p.when = common::ToUniversal(data.time + common::FromSeconds(rel[i]));
      p.position = Eigen::Vector3f(points.size() + 1, s + 0.5f,
                                   -static_cast<float>(i));
      p.intensity = 0.f;
      if (static_cast<size_t>(i) < with_intensity) {
        p.intensity = 1.f + points.size();
        data.intensities.push_back(p.intensity);
      }
      by_position[{p.position.x(), p.position.y(), p.position.z()}] =
          points.size();
      m.points.push_back(points.size());
      m.last = std::max(m.last, p.when);
      data.ranges.push_back({p.position, rel[i]});
      points.push_back(p);
    }
    // Is the message part of a merge that happens now?
    const bool was_pending = pending[s];
    if (!was_pending && have_end) {
      for (int i : m.points) points[i].late = points[i].when < last_end;
    }
    if (!was_pending) pending[s] = 1;
    messages[s].push_back(m);
    auto result = collator.AddRangeData(names[s], data);
    vh::Count("messages");
    const bool output = !result.ranges.empty() || result.time != common::Time();
    if (output) {
      ++outputs;
      const int64_t end = common::ToUniversal(result.time);
      const int64_t begin = have_end ? last_end : INT64_MIN;
      VH_EXPECT(end >= begin, "interval-order",
                "combined scan ends at " << end << " before the previous end "
                                         << begin);
      float previous = -1e30f;
      for (const auto& r : result.ranges) {
        const auto& pos = r.point_time.position;
        auto it = by_position.find({pos.x(), pos.y(), pos.z()});
        VH_EXPECT(it != by_position.end(), "foreign-point",
                  "emitted point was never measured: " << pos.transpose());
        Point& p = points[it->second];
        VH_EXPECT(++p.emitted == 1, "duplicate-point",
                  "point emitted " << p.emitted << " times");
        VH_EXPECT(!p.late, "late-point-emitted",
                  "point older than earlier output was emitted");
        VH_EXPECT(p.when >= begin && p.when <= end, "outside-interval",
                  "point at " << p.when << " in scan [" << begin << ", " << end
                              << "]");
        if (p.when == begin || p.when == end) ++boundary;
        const double absolute =
            common::ToSeconds(result.time - common::FromUniversal(p.when)) +
            r.point_time.time;
        VH_EXPECT(std::abs(absolute) < 4e-6, "time-shifted",
                  "absolute point time is off by " << absolute << " s");
        VH_EXPECT(r.intensity == p.intensity, "intensity",
                  "intensity " << r.intensity << " instead of "
                               << p.intensity);
        VH_EXPECT(r.origin_index < result.origins.size(), "origin-index",
                  r.origin_index);
        VH_EXPECT(result.origins[r.origin_index] ==
                      messages[p.sensor][p.message].origin,
                  "origin", "wrong origin for sensor " << p.sensor);
        VH_EXPECT(r.point_time.time >= previous, "not-sorted",
                  r.point_time.time << " after " << previous);
        previous = r.point_time.time;
        ++emitted_total;
      }
      digest.Add(result.ranges.size()).Add(end - epoch);
      have_end = true;
      last_end = end;
    }
    if (was_pending) {
      // The older message of this sensor must be through now.
      const Message& old = messages[s][messages[s].size() - 2];
      VH_EXPECT(have_end && (old.points.empty() || old.last <= last_end),
                "older-message-held",
                "two scans of one sensor are pending at the same time");
      for (int i : m.points) points[i].late = points[i].when < last_end;
    }
    for (int k = 0; k < num_sensors; ++k) {
      if (k == s && was_pending) {
        // Buffered until the next merge, whatever its times are.
        pending[k] = 1;
      } else if (pending[k] && output) {
        const Message& newest = messages[k].back();
        if (newest.points.empty() || newest.last <= last_end) pending[k] = 0;
      }
    }
    bool all = true;
    for (int k = 0; k < num_sensors; ++k) all = all && pending[k];
    // In the two-scans case the new scan waits for the next message.
    VH_EXPECT(!(all && !was_pending), "held-back",
              "all sensors have data but nothing older remains unsent");
    // What should be out is out.
    if (output) {
      for (int k = 0; k < num_sensors; ++k) {
        const size_t count = messages[k].size();
        for (size_t i = count - std::min<size_t>(count, 3); i < count; ++i) {
          if (k == s && was_pending && i + 1 == count) continue;
          for (int index : messages[k][i].points) {
            const Point& p = points[index];
            if (p.when <= last_end && !p.late) {
              VH_EXPECT(p.emitted == 1, "lost-point",
                        "point of sensor " << k << " at " << p.when
                                           << " missing from scans up to "
                                           << last_end);
            }
          }
        }
      }
    }
    (void)final;
  };

  std::vector<int> sent(num_sensors, 0);
  double now = 0.;
  for (int guard = 0; guard < 200; ++guard) {
    int s = -1;
    for (int k = 0; k < num_sensors; ++k) {
      if (sent[k] >= silent_after[k]) continue;
      if (s < 0 || next[k] < next[s]) s = k;
    }
    if (s < 0 || next[s] > end_time) break;
    now = std::max(now, next[s]);
    double stamp = now;
    if (coincide) stamp = std::round(stamp * 10) / 10.;
    feed(s, epoch + std::llround(stamp * 1e7), rng.Int(0, 14),
         duration[s], false);
    ++sent[s];
    next[s] += period[s] * rng.Real(0.7, 1.3);
  }
  // Everything still buffered comes out once each sensor speaks twice more.
  for (int round = 1; round <= 2; ++round) {
    for (int s = 0; s < num_sensors; ++s) {
      feed(s, epoch + std::llround((now + 10. * round) * 1e7) + s, 1, 0., true);
    }
  }
  int late = 0;
  for (const Point& p : points) {
    if (p.late) ++late;
    if (p.when > epoch + std::llround((now + 5.) * 1e7)) continue;
    VH_EXPECT(p.emitted == (p.late ? 0 : 1), "lost-point",
              "point of sensor " << p.sensor << " at " << p.when - epoch
                                 << " emitted " << p.emitted << " times");
  }
  vh::Count("points_in", points.size());
  vh::Count("points_out", emitted_total);
  vh::Count("points_late", late);
  vh::Count("combined_scans", outputs);
  vh::Count("points_on_interval_border", boundary);
  if (outputs > 1 && emitted_total > 3) vh::Distinct(digest.Get());
  vh::Sample(VH_STR(num_sensors << " sensors, " << points.size()
                                << " points in, " << emitted_total << " out in "
                                << outputs << " scans, " << late << " late"));
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
