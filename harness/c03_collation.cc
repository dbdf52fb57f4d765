// C03: merged sensor streams are ordered, complete and never premature.
#include <memory>

#include "cartographer/common/time.h"
#include "cartographer/sensor/data.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "vh.h"

namespace common = cartographer::common;
using cartographer::sensor::Collator;
using cartographer::sensor::CollatorInterface;
using cartographer::sensor::Data;
using cartographer::sensor::TrajectoryCollator;

namespace {

class Tagged : public Data {
 public:
  Tagged(const std::string& sensor_id, int64_t time, int trajectory, int index)
      : Data(sensor_id), time(time), trajectory(trajectory), index(index) {}
  common::Time GetTime() const override { return common::FromUniversal(time); }
  void AddToTrajectoryBuilder(
      cartographer::mapping::TrajectoryBuilderInterface*) override {}
  const int64_t time;
  const int trajectory;
  const int index;
};

struct Sensor {
  std::string id;
  std::vector<int64_t> times;  // all messages it will ever send
  int added = 0;
  std::vector<int> released;
  bool finished = false;
};

struct Trajectory {
  std::vector<Sensor> sensors;
  bool added = false, finished = false;
  int64_t last_released = INT64_MIN;
};

struct World {
  std::map<int, Trajectory> trajectories;
  bool global = false;  // one merge over all trajectories
  int64_t last_released = INT64_MIN;
  bool flushed = false;
  uint64_t releases = 0;

  // First time at which all sensors (that ever have data) have data.
  static int64_t Start(const Trajectory& t) {
    int64_t start = INT64_MIN;
    for (const auto& s : t.sensors) {
      if (!s.times.empty()) start = std::max(start, s.times[0]);
    }
    return start;
  }
  static bool Expected(const Trajectory& t, const Sensor& s, int i) {
    const int64_t start = Start(t);
    if (s.times[i] >= start) return true;
    return i + 1 == static_cast<int>(s.times.size()) ||
           s.times[i + 1] > start;
  }

  void OnRelease(int trajectory_id, const std::string& sensor_id,
                 std::unique_ptr<Data> data) {
    auto* d = dynamic_cast<Tagged*>(data.get());
    ++releases;
    if (d == nullptr) {
      vh::Report("foreign-data", "released something that was never added");
      return;
    }
    VH_NOTE(d->trajectory == trajectory_id && d->GetSensorId() == sensor_id,
            "wrong-receiver",
            "data of " << d->trajectory << "/" << d->GetSensorId()
                       << " delivered as " << trajectory_id << "/"
                       << sensor_id);
    Trajectory& t = trajectories[d->trajectory];
    int64_t& last = global ? last_released : t.last_released;
    VH_NOTE(d->time >= last, "out-of-order",
            "released time " << d->time << " after " << last);
    last = std::max(last, d->time);
    for (auto& s : t.sensors) {
      if (s.id != d->GetSensorId()) continue;
      VH_NOTE(s.released.empty() || s.released.back() < d->index,
              "sensor-order",
              "sensor " << s.id << " message " << d->index << " released after "
                        << (s.released.empty() ? -1 : s.released.back()));
      VH_NOTE(Expected(t, s, d->index), "stale-start-data",
              "message " << d->index << " at " << d->time
                         << " before the common start " << Start(t)
                         << " was released");
      s.released.push_back(d->index);
    }
    // No unfinished sensor may still deliver something earlier.
    for (auto& other : trajectories) {
      if (!global && other.first != d->trajectory) continue;
      if (!other.second.added) continue;
      for (auto& s : other.second.sensors) {
        if (other.first == d->trajectory && s.id == d->GetSensorId()) continue;
        if (s.finished) continue;
        const int last_index = s.released.empty() ? -1 : s.released.back();
        VH_NOTE(s.added - 1 > last_index, "released-too-early",
                "time " << d->time << " released while sensor "
                        << other.first << "/" << s.id
                        << " has nothing pending");
      }
    }
  }

  // Nothing that can be decided is held back.
  void CheckProgress() {
    std::vector<std::vector<int>> scopes;
    if (global) {
      scopes.emplace_back();
      for (auto& t : trajectories) {
        if (t.second.added) scopes[0].push_back(t.first);
      }
    } else {
      for (auto& t : trajectories) {
        if (t.second.added) scopes.push_back({t.first});
      }
    }
    for (auto& scope : scopes) {
      bool blocked = false;
      int64_t best = INT64_MAX;
      bool best_decided = true;
      std::string who;
      for (int id : scope) {
        const Trajectory& t = trajectories[id];
        int64_t start = INT64_MIN;
        bool start_known = true;
        for (const auto& s : t.sensors) {
          if (s.added > 0) start = std::max(start, s.times[0]);
          if (s.added == 0 && !s.finished) start_known = false;
        }
        for (const auto& s : t.sensors) {
          int i = s.released.empty() ? 0 : s.released.back() + 1;
          // Skip what is to be dropped.
          while (start_known && i + 1 < s.added && s.times[i] < start &&
                 s.times[i + 1] <= start) {
            ++i;
          }
          if (i >= s.added) {
            if (!s.finished) blocked = true;
            continue;
          }
          const bool decided =
              start_known && (s.times[i] >= start || i + 1 < s.added ||
                              s.finished);
          if (s.times[i] < best) {
            best = s.times[i];
            best_decided = decided;
            who = s.id;
          } else if (s.times[i] == best) {
            best_decided = best_decided && decided;
          }
        }
      }
      if (!blocked && best != INT64_MAX && best_decided) {
        VH_EXPECT(false, "held-back",
                  "message of sensor " << who << " at " << best
                                       << " could be released but was not");
      }
    }
  }
};

}  // namespace

VH_SCENARIO(merge, 24000, 600000) {
  World world;
  world.global = rng.Chance(0.5);
  std::unique_ptr<CollatorInterface> collator;
  if (world.global) {
    collator = std::make_unique<Collator>();
  } else {
    collator = std::make_unique<TrajectoryCollator>();
  }
  const int num_trajectories = rng.Int(1, 3);
  const int64_t horizon = rng.Chance(0.3) ? 12 : rng.Int(20, 400);
  std::vector<int64_t> start(num_trajectories, 0);
  const bool late_join = rng.Chance(0.4);
  // Trajectory and sensor names in arbitrary order.
  std::vector<int> ids;
  for (int i = 0; i < num_trajectories; ++i) ids.push_back(i * 3 + 1);
  rng.Shuffle(&ids);
  for (int i = 0; i < num_trajectories; ++i) {
    Trajectory& t = world.trajectories[ids[i]];
    const int num_sensors = rng.Int(1, 4);
    for (int s = 0; s < num_sensors; ++s) {
      Sensor sensor;
      sensor.id = std::string(1, 'a' + rng.Int(0, 20)) + std::to_string(s);
      const bool silent = rng.Chance(0.06);
      const int n = silent ? 0 : rng.Int(1, rng.Chance(0.2) ? 40 : 12);
      int64_t now = rng.Int(0, rng.Chance(0.5) ? horizon : 3);
      const bool ties = rng.Chance(0.4);
      for (int k = 0; k < n; ++k) {
        sensor.times.push_back(now);
        now += ties ? rng.Int(0, 2) : rng.Int(1, 1 + horizon / n);
      }
      t.sensors.push_back(sensor);
    }
  }
  auto add = [&](int id) {
    Trajectory& t = world.trajectories[id];
    if (world.global && world.last_released != INT64_MIN) {
      // Data of a trajectory that joins late is newer than what was released.
      for (auto& s : t.sensors) {
        for (auto& x : s.times) x += world.last_released;
      }
    }
    std::vector<std::string> names;
    for (auto& s : t.sensors) names.push_back(s.id);
    t.added = true;
    collator->AddTrajectory(
        id, {names.begin(), names.end()},
        [&world, id](const std::string& sensor_id, std::unique_ptr<Data> d) {
          world.OnRelease(id, sensor_id, std::move(d));
        });
  };
  if (!late_join) {
    for (int id : ids) add(id);
  }
  // Per-sensor arrival is in order; everything else interleaves freely.
  // Mostly near time order, sometimes completely arbitrary.
  const bool roughly_sorted = rng.Chance(0.5);
  const bool flush_early = rng.Chance(0.15);
  const double unknown = rng.Chance(0.1) ? 0.05 : 0.;
  std::string trace;
  size_t steps = 0;
  for (;;) {
    struct Choice {
      int id;
      int sensor;
      int64_t time;
    };
    std::vector<Choice> choices;
    for (int id : ids) {
      Trajectory& t = world.trajectories[id];
      if (t.finished) continue;
      for (size_t s = 0; s < t.sensors.size(); ++s) {
        Sensor& sensor = t.sensors[s];
        if (t.added && sensor.added < static_cast<int>(sensor.times.size())) {
          choices.push_back({id, static_cast<int>(s),
                             sensor.times[sensor.added]});
        }
      }
      if (!t.added) choices.push_back({id, -1, 0});
    }
    bool all_finished = true;
    for (int id : ids) {
      if (!world.trajectories[id].finished) all_finished = false;
    }
    if (all_finished) break;
    // Maybe finish a trajectory that has sent everything.
    std::vector<int> complete;
    for (int id : ids) {
      Trajectory& t = world.trajectories[id];
      if (t.finished || !t.added) continue;
      bool done = true;
      for (auto& s : t.sensors) {
        if (s.added < static_cast<int>(s.times.size())) done = false;
      }
      if (done) complete.push_back(id);
    }
    if (!complete.empty() && (choices.empty() || rng.Chance(0.3))) {
      if (flush_early && choices.empty()) {
        for (int id : ids) {
          Trajectory& t = world.trajectories[id];
          t.finished = true;
          for (auto& s : t.sensors) s.finished = true;
        }
        collator->Flush();
        vh::Count("flushes");
        break;
      }
      const int id = complete[rng.Int(0, complete.size() - 1)];
      Trajectory& t = world.trajectories[id];
      t.finished = true;
      // While the trajectory is being finished its sensors are finished one
      // by one, so "unfinished" ends with the start of the call.
      for (auto& s : t.sensors) s.finished = true;
      collator->FinishTrajectory(id);
      vh::Count("finished_trajectories");
      world.CheckProgress();
      continue;
    }
    if (choices.empty()) break;
    size_t pick = rng.Int(0, choices.size() - 1);
    if (roughly_sorted && rng.Chance(0.8)) {
      for (size_t i = 0; i < choices.size(); ++i) {
        if (choices[i].time < choices[pick].time) pick = i;
      }
    }
    const Choice c = choices[pick];
    if (c.sensor < 0) {
      add(c.id);
      vh::Count("late_trajectories");
    } else {
      Trajectory& t = world.trajectories[c.id];
      Sensor& sensor = t.sensors[c.sensor];
      auto data = std::make_unique<Tagged>(
          sensor.id, sensor.times[sensor.added], c.id, sensor.added);
      ++sensor.added;
      ++steps;
      if (trace.size() < 300) {
        trace += VH_STR(c.id << "/" << sensor.id << "@" << data->time << " ");
      }
      collator->AddSensorData(c.id, std::move(data));
      vh::Count("messages_added");
    }
    if (rng.Chance(unknown)) {
      for (int id : ids) {
        if (!world.trajectories[id].added) continue;
        collator->AddSensorData(
            id, std::make_unique<Tagged>("unexpected", 0, id, 0));
        vh::Count("unexpected_messages");
        break;
      }
    }
    world.CheckProgress();
  }
  // Everything is finished: exactly the expected messages came out.
  vh::Digest digest;
  int dropped = 0;
  for (auto& entry : world.trajectories) {
    const Trajectory& t = entry.second;
    if (!t.added) continue;
    for (const Sensor& s : t.sensors) {
      std::vector<int> expected;
      for (size_t i = 0; i < s.times.size(); ++i) {
        if (World::Expected(t, s, i)) expected.push_back(i);
      }
      dropped += s.times.size() - expected.size();
      for (auto x : s.times) digest.Add(x);
      digest.Add(~0ull);
      VH_EXPECT(s.released == expected, "lost-or-extra",
                "sensor " << entry.first << "/" << s.id << ": released "
                          << s.released.size() << " of " << expected.size()
                          << " expected messages; arrivals: " << trace);
    }
  }
  collator.reset();
  vh::Count("messages_released", world.releases);
  vh::Count("messages_dropped_before_start", dropped);
  if (world.releases > 3) vh::Distinct(digest.Get());
  if (steps > 4) {
    vh::Sample(VH_STR((world.global ? "one merge: " : "per trajectory: ")
                      << trace << " -> " << world.releases << " released, "
                      << dropped << " before the common start"));
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
