// Floors detected in a trajectory: simulated buildings with a known answer, and
// arbitrary trajectories.
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "cartographer/common/time.h"
#include "cartographer/mapping/detect_floors.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "vh.h"

namespace {

using namespace cartographer;

struct Segment {
  int floor = -1;  // -1: a landing between floors
  double z = 0.;
  bool is_long = false;
  int first = 0, last = 0;  // nodes
};

void AddNode(mapping::proto::Trajectory* t, int64_t time, double x, double y,
             double z) {
  auto* node = t->add_node();
  node->set_node_index(t->node_size() - 1);
  node->set_timestamp(time);
  auto* p = node->mutable_pose()->mutable_translation();
  p->set_x(x);
  p->set_y(y);
  p->set_z(z);
  node->mutable_pose()->mutable_rotation()->set_w(1.);
}

void Building(vh::Rng& rng) {
  const int num_floors = rng.Int(1, 5);
  std::vector<double> height{rng.Real(-20, 20)};
  while (static_cast<int>(height.size()) < num_floors) {
    height.push_back(height.back() + rng.Real(6.5, 12.));
  }
  const double noise = rng.Chance(0.3) ? 0. : rng.Real(0, 0.2);
  mapping::proto::Trajectory t;
  std::vector<Segment> segments;
  int64_t time = 6000000000000000ll + rng.Int(0, 1000000);
  double x = rng.Real(-100, 100), y = rng.Real(-100, 100);
  const auto walk = [&](Segment s, double length) {
    const int nodes = s.is_long ? rng.Int(3, 60) : rng.Int(1, 12);
    s.first = t.node_size();
    double a = rng.Real(-M_PI, M_PI);
    for (int i = 0; i < nodes; ++i) {
      if (i > 0) {
        a += rng.Real(-0.5, 0.5);
        x += length / (nodes - 1) * std::cos(a);
        y += length / (nodes - 1) * std::sin(a);
      }
      time += rng.Int(1, 5000000);
      AddNode(&t, time, x, y, s.z + rng.Real(-noise, noise));
    }
    s.last = t.node_size() - 1;
    segments.push_back(s);
    x += rng.Real(-3, 3);
    y += rng.Real(-3, 3);
  };
  std::set<int> visited;
  int floor = rng.Int(0, num_floors - 1);
  const int visits = rng.Int(1, 8);
  for (int v = 0; v < visits; ++v) {
    if (v > 0 && rng.Chance(0.2)) {
      // Up or down some stairs and back.
      Segment landing;
      const int other = num_floors == 1 ? floor
                        : floor == 0    ? 1
                                        : floor - 1;
      landing.z = num_floors == 1 ? height[0] + 4.
                                  : 0.5 * (height[floor] + height[other]);
      walk(landing, rng.Real(0, 20));
    } else if (v > 0) {
      if (num_floors == 1) break;
      int next = rng.Int(0, num_floors - 2);
      if (next >= floor) ++next;
      if (std::abs(next - floor) == 1 && rng.Chance(0.6)) {
        // Stairs with a landing half way.
        Segment landing;
        landing.z = 0.5 * (height[floor] + height[next]);
        walk(landing, rng.Real(0, 20));
      }
      floor = next;
    }
    Segment stay;
    stay.floor = floor;
    stay.z = height[floor];
    stay.is_long = visited.insert(floor).second || rng.Chance(0.4);
    walk(stay, stay.is_long ? rng.Real(30, 200) : rng.Real(0, 20));
  }
  const auto floors = mapping::DetectFloors(t);
  VH_EXPECT(floors.size() == visited.size(), "one floor per height visited",
            floors.size() << " for " << visited.size());
  size_t index = 0;
  const auto at = [&](int node) {
    return common::FromUniversal(t.node(node).timestamp());
  };
  for (int f : visited) {  // ascending, as the heights are
    const auto& found = floors[index++];
    VH_EXPECT(std::abs(found.z - height[f]) <= noise + 1e-9,
              "floor at its height", found.z << " for " << height[f]);
    std::vector<const Segment*> expected;
    for (size_t i = 0; i < segments.size(); ++i) {
      const Segment& s = segments[i];
      // A landing belongs to the floors before and after it.
      if (s.floor == f ||
          (s.floor == -1 && (segments[i - 1].floor == f ||
                             segments[i + 1].floor == f))) {
        expected.push_back(&s);
      }
    }
    VH_EXPECT(found.timespans.size() == expected.size(),
              "every stay on the floor and no other",
              found.timespans.size() << " for " << expected.size());
    for (size_t k = 0; k < expected.size(); ++k) {
      VH_EXPECT(found.timespans[k].start == at(expected[k]->first) &&
                    found.timespans[k].end == at(expected[k]->last),
                "time of a stay",
                "stay " << k << " on floor " << f << " nodes "
                        << expected[k]->first << " to " << expected[k]->last);
      vh::Count("stays_checked");
    }
  }
  vh::Count("floors", floors.size());
  vh::Count("nodes", t.node_size());
  if (segments.size() > 1) {
    vh::Distinct(
        vh::Digest().Add(segments.size()).Add(t.node_size()).Add(x).Get());
  }
}

void Arbitrary(vh::Rng& rng) {
  mapping::proto::Trajectory t;
  const int n = rng.Chance(0.2) ? 1 : rng.Int(1, 300);
  int64_t time = 6000000000000000ll;
  double x = 0, y = 0, z = rng.Real(-10, 10);
  const double step = rng.Real(0, 4), climb = rng.Real(0, 2);
  std::set<common::Time> times;
  double low = 1e9, high = -1e9, length = 0;
  for (int i = 0; i < n; ++i) {
    AddNode(&t, time, x, y, z);
    times.insert(common::FromUniversal(time));
    low = std::min(low, z);
    high = std::max(high, z);
    time += rng.Int(1, 1000000);
    const double dx = rng.Real(-step, step), dy = rng.Real(-step, step);
    x += dx;
    y += dy;
    length += std::hypot(dx, dy);
    z += rng.Real(-climb, climb);
    if (rng.Chance(0.05)) z += rng.Real(-10, 10);
  }
  const auto floors = mapping::DetectFloors(t);
  double last = -1e9;
  for (const auto& f : floors) {
    VH_EXPECT(std::isfinite(f.z) && f.z >= low && f.z <= high,
              "floor at a height of the trajectory", f.z);
    VH_EXPECT(f.z >= last, "floors ordered by height", f.z);
    last = f.z;
    VH_EXPECT(!f.timespans.empty(), "floor with a time", f.z);
    for (size_t k = 0; k < f.timespans.size(); ++k) {
      const auto& s = f.timespans[k];
      VH_EXPECT(times.count(s.start) && times.count(s.end) && s.start <= s.end,
                "times of nodes", k);
      VH_EXPECT(k == 0 || f.timespans[k - 1].end <= s.start,
                "times in order", k);
    }
  }
  if (high - low < 2.4 && length > 26.) {
    bool flat = floors.size() == 1 && floors[0].timespans.size() == 1 &&
                floors[0].timespans[0].start == *times.begin() &&
                floors[0].timespans[0].end == *times.rbegin();
    // The last step of 'length' may lie after the last node.
    if (length > 26. + 2 * step) {
      VH_EXPECT(flat, "a flat trajectory is one floor", floors.size());
      vh::Count("flat");
    }
  }
  if (floors.empty()) {
    vh::Count("without_floor");
  } else {
    vh::Distinct(vh::Digest().Add(floors.size()).Add(n).Add(last).Get());
  }
}

}  // namespace

VH_SCENARIO(building, 4000, 60000) { Building(rng); }
VH_SCENARIO(arbitrary, 2000, 30000) { Arbitrary(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
