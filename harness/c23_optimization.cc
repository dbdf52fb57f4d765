// C23: global optimization, compared with an independent evaluation of the
// error it is meant to minimize.
#include <cmath>

#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "engine.h"

using namespace engine;
namespace opt = cartographer::mapping::optimization;

namespace {

using LandmarkNode = m::PoseGraphInterface::LandmarkNode;
using TrajectoryData = m::PoseGraphInterface::TrajectoryData;

struct Node {
  common::Time time;
  Rigid3d local, global;
  Quaterniond gravity = Quaterniond::Identity();
};
struct Fixed {
  common::Time time;
  absl::optional<Rigid3d> pose;
};

struct Spec {
  bool three_d = false;
  opt::proto::OptimizationProblemOptions options;
  std::map<NodeId, Node> nodes;
  std::map<SubmapId, Rigid3d> submaps;
  std::vector<Constraint> constraints;
  std::map<int, State> states;
  std::map<std::string, LandmarkNode> landmarks;
  std::map<int, std::vector<sensor::ImuData>> imu;
  std::map<int, std::vector<sensor::OdometryData>> odometry;
  std::map<int, std::vector<Fixed>> fixed;
  std::map<int, TrajectoryData> data;

  bool Frozen(int trajectory) const {
    auto it = states.find(trajectory);
    return it != states.end() && it->second == State::FROZEN;
  }
};

struct Solution {
  std::map<NodeId, Rigid3d> nodes;
  std::map<SubmapId, Rigid3d> submaps;
  std::map<std::string, Rigid3d> landmarks;
  std::map<int, Rigid3d> frames;
  std::map<int, double> gravity;
  std::map<int, Quaterniond> calibration;
};

// ---------------------------------------------------------------------------
// The error, written down independently.

Vector3d Log(const Quaterniond& q) {
  Quaterniond n = q.normalized();
  if (n.w() < 0) n.coeffs() = -n.coeffs();
  const double s = n.vec().norm();
  if (s < 1e-12) return 2. * n.vec();
  return n.vec() * (2. * std::atan2(s, n.w()) / s);
}
Rigid3d Flat(const Rigid3d& p) { return tf::Embed3D(tf::Project2D(p)); }

// Squared weighted deviation of end seen from start.
double Deviation(const Rigid3d& observed, const Rigid3d& start,
                 const Rigid3d& end, double wt, double wr) {
  const Rigid3d relative = start.inverse() * end;
  const Vector3d t = observed.translation() - relative.translation();
  const Vector3d r =
      Log(relative.rotation().conjugate() * observed.rotation());
  return wt * wt * t.squaredNorm() + wr * wr * r.squaredNorm();
}
double Huber(double s, double a) {
  return s <= a * a ? s : 2. * a * std::sqrt(s) - a * a;
}
double Tolerant(double s, double a, double b) {
  const double c = b * std::log(1. + std::exp(-a / b));
  const double x = (s - a) / b;
  return (x > 30. ? s - a : b * std::log1p(std::exp(x))) - c;
}
Rigid3d Between(const Rigid3d& a, const Rigid3d& b, double f) {
  return Rigid3d(a.translation() + f * (b.translation() - a.translation()),
                 a.rotation().slerp(f, b.rotation()));
}

template <class V, class HasPose, class GetPose>
bool At(const std::vector<V>& data, common::Time time, HasPose has,
        GetPose get, Rigid3d* out) {
  for (size_t i = 0; i < data.size(); ++i) {
    if (data[i].time < time) continue;
    if (!has(data[i])) return false;
    if (i == 0) {
      if (data[0].time != time) return false;
      *out = get(data[0]);
      return true;
    }
    if (!has(data[i - 1])) return false;
    *out = Between(get(data[i - 1]), get(data[i]),
                   common::ToSeconds(time - data[i - 1].time) /
                       common::ToSeconds(data[i].time - data[i - 1].time));
    return true;
  }
  return false;
}
bool OdometryAt(const Spec& spec, int t, common::Time time, Rigid3d* out) {
  auto it = spec.odometry.find(t);
  if (it == spec.odometry.end()) return false;
  return At(it->second, time, [](const sensor::OdometryData&) { return true; },
            [](const sensor::OdometryData& d) { return d.pose; }, out);
}
bool FixedAt(const Spec& spec, int t, common::Time time, Rigid3d* out) {
  auto it = spec.fixed.find(t);
  if (it == spec.fixed.end()) return false;
  return At(it->second, time,
            [](const Fixed& d) { return d.pose.has_value(); },
            [](const Fixed& d) { return *d.pose; }, out);
}

struct Integral {
  Quaterniond rotation = Quaterniond::Identity();
  Vector3d velocity = Vector3d::Zero();
};
Integral Integrate(const std::vector<sensor::ImuData>& data, common::Time from,
                   common::Time to) {
  Integral r;
  for (size_t i = 0; i < data.size(); ++i) {
    const common::Time begin = std::max(from, data[i].time);
    const common::Time end =
        i + 1 < data.size() ? std::min(to, data[i + 1].time) : to;
    if (begin >= end) continue;
    const double dt = common::ToSeconds(end - begin);
    const Vector3d angle = data[i].angular_velocity * dt;
    if (angle.norm() > 0) {
      r.rotation = r.rotation * Quaterniond(Eigen::AngleAxisd(
                                    angle.norm(), angle.normalized()));
    }
    r.velocity += r.rotation * data[i].linear_acceleration * dt;
  }
  return r;
}

// Which nodes a landmark observation lies between.
bool Neighbors(const Spec& spec, const LandmarkNode::LandmarkObservation& o,
               NodeId* prev, NodeId* next) {
  std::vector<NodeId> ids;
  for (const auto& n : spec.nodes) {
    if (n.first.trajectory_id == o.trajectory_id) ids.push_back(n.first);
  }
  if (ids.empty() || o.time < spec.nodes.at(ids[0]).time) return false;
  for (size_t i = 0; i < ids.size(); ++i) {
    if (spec.nodes.at(ids[i]).time < o.time) continue;
    if (i == 0) {
      if (ids.size() == 1) return false;
      i = 1;
    }
    *prev = ids[i - 1];
    *next = ids[i];
    return true;
  }
  return false;
}

double Cost(const Spec& spec, const Solution& x) {
  double sum = 0.;
  const auto& o = spec.options;
  const auto flat = [&](const Rigid3d& p) { return spec.three_d ? p : Flat(p); };
  for (const auto& c : spec.constraints) {
    const double s = Deviation(flat(c.pose.zbar_ij), x.submaps.at(c.submap_id),
                               x.nodes.at(c.node_id),
                               c.pose.translation_weight,
                               c.pose.rotation_weight);
    sum += c.tag == Constraint::INTER_SUBMAP ? Huber(s, o.huber_scale()) : s;
  }
  for (const auto& landmark : spec.landmarks) {
    for (const auto& observation : landmark.second.landmark_observations) {
      NodeId prev{0, 0}, next{0, 0};
      if (!Neighbors(spec, observation, &prev, &next)) continue;
      const Node &p = spec.nodes.at(prev), &n = spec.nodes.at(next);
      const double f = common::ToSeconds(observation.time - p.time) /
                       common::ToSeconds(n.time - p.time);
      const Rigid3d tracking =
          Between(x.nodes.at(prev) * Rigid3d::Rotation(p.gravity),
                  x.nodes.at(next) * Rigid3d::Rotation(n.gravity), f);
      sum += Huber(Deviation(observation.landmark_to_tracking_transform,
                             tracking, x.landmarks.at(landmark.first),
                             observation.translation_weight,
                             observation.rotation_weight),
                   o.huber_scale());
    }
  }
  for (auto it = spec.nodes.begin(); it != spec.nodes.end(); ++it) {
    const int t = it->first.trajectory_id;
    // Fixed frame.
    Rigid3d pose;
    if (FixedAt(spec, t, it->second.time, &pose)) {
      const double s = Deviation(
          flat(pose), x.frames.at(t), x.nodes.at(it->first),
          o.fixed_frame_pose_translation_weight(),
          o.fixed_frame_pose_rotation_weight());
      sum += o.fixed_frame_pose_use_tolerant_loss()
                 ? Tolerant(s, o.fixed_frame_pose_tolerant_loss_param_a(),
                            o.fixed_frame_pose_tolerant_loss_param_b())
                 : s;
    }
    // Consecutive nodes.
    const auto next = std::next(it);
    if (spec.Frozen(t) || next == spec.nodes.end() ||
        !(next->first == NodeId{t, it->first.node_index + 1})) {
      continue;
    }
    const Node &a = it->second, &b = next->second;
    const Rigid3d &pa = x.nodes.at(it->first), &pb = x.nodes.at(next->first);
    if (!spec.three_d || o.fix_z_in_3d()) {
      Rigid3d oa, ob;
      if (OdometryAt(spec, t, a.time, &oa) && OdometryAt(spec, t, b.time, &ob)) {
        sum += Deviation(flat(Rigid3d::Rotation(a.gravity) * oa.inverse() * ob *
                              Rigid3d::Rotation(b.gravity.inverse())),
                         pa, pb, o.odometry_translation_weight(),
                         o.odometry_rotation_weight());
      }
      sum += Deviation(a.local.inverse() * b.local, pa, pb,
                       o.local_slam_pose_translation_weight(),
                       o.local_slam_pose_rotation_weight());
      continue;
    }
    const auto& imu = spec.imu.at(t);
    const Quaterniond calibration = x.calibration.at(t);
    const double d1 = common::ToSeconds(b.time - a.time);
    const Integral whole = Integrate(imu, a.time, b.time);
    const Quaterniond error = pb.rotation().conjugate() * pa.rotation() *
                              calibration * whole.rotation *
                              calibration.conjugate();
    sum += std::pow(o.rotation_weight() / d1, 2) * error.vec().squaredNorm();
    const auto third = std::next(next);
    if (third == spec.nodes.end() ||
        !(third->first == NodeId{t, it->first.node_index + 2})) {
      continue;
    }
    const Node& c = third->second;
    const double d2 = common::ToSeconds(c.time - b.time);
    const common::Time center1 = a.time + (b.time - a.time) / 2;
    const common::Time center2 = b.time + (c.time - b.time) / 2;
    const Vector3d measured =
        calibration * (whole.rotation.conjugate() *
                       (Integrate(imu, a.time, center1).rotation *
                        Integrate(imu, center1, center2).velocity));
    const Vector3d change =
        (x.nodes.at(third->first).translation() - pb.translation()) / d2 -
        (pb.translation() - pa.translation()) / d1;
    const Vector3d e = pb.rotation() * measured -
                       x.gravity.at(t) * 0.5 * (d1 + d2) * Vector3d::UnitZ() -
                       change;
    sum += std::pow(o.acceleration_weight() / (d1 + d2), 2) * e.squaredNorm();
  }
  return 0.5 * sum;
}

// ---------------------------------------------------------------------------
// The code under test.

struct Solver2D {
  opt::OptimizationProblem2D problem;
  explicit Solver2D(const Spec& s) : problem(s.options) {}
  void AddNode(const NodeId& id, const Node& n) {
    problem.InsertTrajectoryNode(
        id, opt::NodeSpec2D{n.time, tf::Project2D(n.local),
                            tf::Project2D(n.global), n.gravity});
  }
  void AddSubmap(const SubmapId& id, const Rigid3d& pose) {
    problem.InsertSubmap(id, tf::Project2D(pose));
  }
  Solution Get() const {
    Solution x;
    for (const auto& n : problem.node_data()) {
      x.nodes[n.id] = tf::Embed3D(n.data.global_pose_2d);
    }
    for (const auto& s : problem.submap_data()) {
      x.submaps[s.id] = tf::Embed3D(s.data.global_pose);
    }
    return x;
  }
};
struct Solver3D {
  opt::OptimizationProblem3D problem;
  explicit Solver3D(const Spec& s) : problem(s.options) {}
  void AddNode(const NodeId& id, const Node& n) {
    problem.InsertTrajectoryNode(id,
                                 opt::NodeSpec3D{n.time, n.local, n.global});
  }
  void AddSubmap(const SubmapId& id, const Rigid3d& pose) {
    problem.InsertSubmap(id, pose);
  }
  Solution Get() const {
    Solution x;
    for (const auto& n : problem.node_data()) {
      x.nodes[n.id] = n.data.global_pose;
    }
    for (const auto& s : problem.submap_data()) {
      x.submaps[s.id] = s.data.global_pose;
    }
    return x;
  }
};

template <class S>
class Runner {
 public:
  explicit Runner(const Spec& spec) : spec(spec), solver(spec) {
    for (const auto& n : spec.nodes) solver.AddNode(n.first, n.second);
    for (const auto& s : spec.submaps) solver.AddSubmap(s.first, s.second);
    for (const auto& t : spec.imu) {
      for (const auto& d : t.second) solver.problem.AddImuData(t.first, d);
    }
    for (const auto& t : spec.odometry) {
      for (const auto& d : t.second) {
        solver.problem.AddOdometryData(t.first, d);
      }
    }
    for (const auto& t : spec.fixed) {
      for (const auto& d : t.second) {
        solver.problem.AddFixedFramePoseData(
            t.first, sensor::FixedFramePoseData{d.time, d.pose});
      }
    }
    for (const auto& t : spec.data) {
      solver.problem.SetTrajectoryData(t.first, t.second);
    }
  }
  void Solve() {
    solver.problem.Solve(spec.constraints, spec.states, spec.landmarks);
    for (const auto& l : solver.problem.landmark_data()) {
      spec.landmarks.at(l.first).global_landmark_pose = l.second;
    }
  }
  Solution Get() const {
    Solution x = solver.Get();
    for (const auto& l : spec.landmarks) {
      if (l.second.global_landmark_pose.has_value()) {
        x.landmarks[l.first] = *l.second.global_landmark_pose;
      }
    }
    for (const auto& t : solver.problem.trajectory_data()) {
      x.gravity[t.first] = t.second.gravity_constant;
      x.calibration[t.first] = Quaterniond(
          t.second.imu_calibration[0], t.second.imu_calibration[1],
          t.second.imu_calibration[2], t.second.imu_calibration[3]);
      if (t.second.fixed_frame_origin_in_map.has_value()) {
        x.frames[t.first] = *t.second.fixed_frame_origin_in_map;
      }
    }
    return x;
  }
  Spec spec;
  S solver;
};

// ---------------------------------------------------------------------------
// Graphs.

Rigid3d Noise(vh::Rng& rng, bool three_d, double t, double r) {
  if (t == 0. && r == 0.) return Rigid3d::Identity();
  if (!three_d) {
    return Rigid3d(Vector3d(rng.Real(-t, t), rng.Real(-t, t), 0.),
                   sim::Yaw(rng.Real(-r, r)));
  }
  Vector3d axis(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1));
  axis.normalize();
  return Rigid3d(Vector3d(rng.Real(-t, t), rng.Real(-t, t), rng.Real(-t, t)),
                 Quaterniond(Eigen::AngleAxisd(rng.Real(-r, r), axis)));
}

struct Truth {
  Solution x;
};

// A random graph consistent with a known configuration, plus noise on the
// measurements and on the starting point.
Spec MakeGraph(vh::Rng& rng, bool three_d, double noise, double start,
               Solution* truth) {
  Spec s;
  s.three_d = three_d;
  s.options = BaseOptions(three_d).pose_graph_options()
                  .optimization_problem_options();
  auto& o = s.options;
  o.set_log_solver_summary(false);
  o.set_huber_scale(rng.Chance(0.5) ? rng.Real(0.5, 30.) : 1e4);
  o.set_acceleration_weight(rng.Real(0.1, 30.));
  o.set_rotation_weight(rng.Real(1., 100.));
  o.set_local_slam_pose_translation_weight(rng.Real(1., 100.));
  o.set_local_slam_pose_rotation_weight(rng.Real(1., 100.));
  o.set_odometry_translation_weight(rng.Real(1., 100.));
  o.set_odometry_rotation_weight(rng.Real(1., 100.));
  o.set_fixed_frame_pose_translation_weight(rng.Real(1., 30.));
  o.set_fixed_frame_pose_rotation_weight(rng.Real(1., 30.));
  o.set_fixed_frame_pose_use_tolerant_loss(rng.Chance(0.3));
  o.set_fixed_frame_pose_tolerant_loss_param_a(rng.Real(0.5, 3.));
  o.set_fixed_frame_pose_tolerant_loss_param_b(rng.Real(0.5, 3.));
  const bool fix_z = three_d && rng.Chance(0.4);
  o.set_fix_z_in_3d(fix_z);
  o.set_use_online_imu_extrinsics_in_3d(rng.Chance(0.5));
  o.mutable_ceres_solver_options()->set_num_threads(1);
  o.mutable_ceres_solver_options()->set_max_num_iterations(150);

  const int trajectories = rng.Int(1, 3);
  const bool tilt = rng.Chance(0.5);
  std::map<NodeId, Rigid3d> node_truth;      // as optimized
  std::map<NodeId, Rigid3d> tracking_truth;  // with tilt
  int64_t clock = 1000000;
  for (int t = 0; t < trajectories; ++t) {
    const bool frozen = trajectories > 1 && rng.Chance(0.25);
    s.states[t] = frozen ? State::FROZEN
                         : rng.Chance(0.5) ? State::ACTIVE : State::FINISHED;
    const int n = rng.Chance(0.1) ? 1 : rng.Int(2, 10);
    const int first_index = rng.Chance(0.3) ? rng.Int(1, 5) : 0;
    Rigid3d pose = Noise(rng, three_d && !fix_z, 5., three_d ? 0.5 : 3.);
    const Rigid3d to_local = Noise(rng, false, 3., 1.);
    int index = first_index;
    std::vector<NodeId> ids;
    for (int i = 0; i < n; ++i) {
      if (i > 0 && rng.Chance(0.1)) index += rng.Int(1, 2);
      const NodeId id{t, index++};
      ids.push_back(id);
      Node node;
      node.time = T(clock += rng.Int(1000000, 6000000));
      if (!three_d && tilt) {
        node.gravity = Quaterniond(Eigen::AngleAxisd(
            rng.Real(0., 0.1),
            Vector3d(rng.Real(-1, 1), rng.Real(-1, 1), 0).normalized()));
      }
      node_truth[id] = pose;
      tracking_truth[id] = pose * Rigid3d::Rotation(node.gravity);
      node.local = to_local * pose * Noise(rng, three_d, noise, noise);
      if (!three_d) node.local = Flat(node.local);
      node.global =
          frozen ? pose : pose * Noise(rng, three_d && !fix_z, start, start);
      s.nodes[id] = node;
      pose = pose * Rigid3d(Vector3d(rng.Real(0, 1), rng.Real(-0.3, 0.3), 0),
                            sim::Yaw(rng.Real(-0.5, 0.5)));
      if (three_d && !fix_z) pose = pose * Noise(rng, true, 0.2, 0.2);
    }
    // Submaps every few nodes; each has some of the nodes.
    int submap = rng.Int(0, 2);
    for (size_t i = 0; i < ids.size(); i += rng.Int(1, 3)) {
      const SubmapId id{t, submap++};
      const Rigid3d where =
          node_truth[ids[i]] * Noise(rng, three_d && !fix_z, 0.5, 0.3);
      truth->submaps[id] = where;
      // The first submap stays where it is (in 3D up to tilt).
      const bool anchor = s.submaps.empty();
      s.submaps[id] = frozen || anchor
                          ? where
                          : where * Noise(rng, three_d && !fix_z, start, start);
      for (size_t k = i; k < std::min(ids.size(), i + rng.Int(1, 4)); ++k) {
        s.constraints.push_back(
            {id, ids[k],
             {where.inverse() * node_truth[ids[k]] *
                  Noise(rng, three_d, noise, noise),
              rng.Real(5., 300.), rng.Real(5., 300.)},
             Constraint::INTRA_SUBMAP});
      }
    }
    // Sensors.
    const common::Time first = s.nodes[ids.front()].time;
    if (three_d) {
      // Inertial data that fits the nodes exactly: constant rates between
      // nodes, constant acceleration between the centers of the gaps.
      auto& imu = s.imu[t];
      const double g = 9.8;
      const size_t count = ids.size();
      auto dt = [&](size_t i) {
        return common::ToSeconds(s.nodes[ids[i + 1]].time -
                                 s.nodes[ids[i]].time);
      };
      auto velocity = [&](size_t i) {
        return Vector3d((node_truth[ids[i + 1]].translation() -
                         node_truth[ids[i]].translation()) / dt(i));
      };
      auto acceleration = [&](size_t middle) {  // in the map, with gravity
        Vector3d a = g * Vector3d::UnitZ();
        if (middle >= 1 && middle + 1 < count) {
          a += (velocity(middle) - velocity(middle - 1)) /
               (0.5 * (dt(middle) + dt(middle - 1)));
        }
        return a;
      };
      if (rng.Chance(0.5)) {
        imu.push_back({first - common::FromMilliseconds(rng.Int(1, 1000)), Vector3d(0, 0, g),
                       Vector3d::Zero()});
      }
      for (size_t i = 0; i < count; ++i) {
        const Quaterniond r = node_truth[ids[i]].rotation();
        if (i + 1 == count) {
          imu.push_back({s.nodes[ids[i]].time, r.conjugate() * acceleration(i),
                         Vector3d::Zero()});
          break;
        }
        const Quaterniond next = node_truth[ids[i + 1]].rotation();
        const Vector3d rate = Log(r.conjugate() * next) / dt(i);
        const common::Time begin = s.nodes[ids[i]].time;
        const common::Time center =
            begin + (s.nodes[ids[i + 1]].time - begin) / 2;
        // The velocity change is integrated with the orientation at the end
        // of each piece.
        const double half = common::ToSeconds(center - begin);
        const Quaterniond rc = r * Quaterniond(Eigen::AngleAxisd(
                                       rate.norm() * half,
                                       rate.norm() > 0 ? rate.normalized()
                                                       : Vector3d::UnitX()));
        imu.push_back({begin, rc.conjugate() * acceleration(i), rate});
        imu.push_back({center, next.conjugate() * acceleration(i + 1), rate});
      }
      for (auto& d : imu) {
        d.linear_acceleration +=
            Vector3d(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1)) * noise;
        d.angular_velocity +=
            Vector3d(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1)) * noise;
      }
      if (noise > 0) {
        // Extra samples in between.
        for (int k = rng.Int(0, 10); k > 0; --k) {
          const size_t i = rng.Int(0, imu.size() - 1);
          auto extra = imu[i];
          extra.time += common::FromMilliseconds(rng.Int(1, 90));
          if (i + 1 < imu.size() && extra.time >= imu[i + 1].time) continue;
          extra.angular_velocity += Vector3d(0.1, -0.05, 0.02);
          imu.insert(imu.begin() + i + 1, extra);
        }
      }
    }
    if (rng.Chance(0.5)) {
      const Rigid3d frame = Noise(rng, false, 10., 3.);
      auto& odometry = s.odometry[t];
      for (const auto& id : ids) {
        if (rng.Chance(0.1)) continue;
        odometry.push_back({s.nodes[id].time,
                            frame * tracking_truth[id] *
                                Noise(rng, three_d, noise, noise)});
        if (noise > 0 && rng.Chance(0.5)) {
          odometry.push_back(
              {s.nodes[id].time + common::FromMilliseconds(rng.Int(1, 90)),
               odometry.back().pose * Noise(rng, three_d, 0.1, 0.1)});
        }
      }
      if (noise == 0.) {
        // Interpolated odometry would not be consistent: keep what is exact.
        for (const auto& id : ids) {
          bool exact = false;
          for (const auto& d : odometry) exact |= d.time == s.nodes[id].time;
          if (!exact) {
            odometry.clear();
            break;
          }
        }
      }
      if (odometry.empty()) s.odometry.erase(t);
    }
    if (rng.Chance(0.4)) {
      const Rigid3d frame = Noise(rng, false, 10., 3.);
      auto& fixed = s.fixed[t];
      for (const auto& id : ids) {
        Fixed f{s.nodes[id].time, absl::nullopt};
        if (rng.Chance(0.85)) {
          f.pose = frame.inverse() * node_truth[id] *
                   Noise(rng, three_d, noise, noise);
        }
        fixed.push_back(f);
        if (noise > 0 && rng.Chance(0.4)) {
          f.time += common::FromMilliseconds(rng.Int(1, 90));
          fixed.push_back(f);
        }
      }
      if (noise > 0 && rng.Chance(0.5)) fixed.erase(fixed.begin());
      if (rng.Chance(0.3)) {
        s.data[t].fixed_frame_origin_in_map =
            frame * Noise(rng, false, start, start);
      }
      if (fixed.empty()) s.fixed.erase(t);
    }
    for (const auto& id : ids) truth->nodes[id] = node_truth[id];
  }
  // Loop closures, within and between trajectories.
  std::vector<NodeId> node_ids;
  std::vector<SubmapId> submap_ids;
  for (const auto& n : s.nodes) node_ids.push_back(n.first);
  for (const auto& n : s.submaps) submap_ids.push_back(n.first);
  for (int k = rng.Int(0, 8); k > 0; --k) {
    const NodeId node = node_ids[rng.Int(0, node_ids.size() - 1)];
    const SubmapId submap = submap_ids[rng.Int(0, submap_ids.size() - 1)];
    s.constraints.push_back(
        {submap, node,
         {truth->submaps[submap].inverse() * truth->nodes[node] *
              Noise(rng, three_d, noise, noise),
          rng.Real(1., 100.), rng.Real(1., 100.)},
         Constraint::INTER_SUBMAP});
  }
  // Landmarks.
  const int landmarks = rng.Chance(0.5) ? 0 : rng.Int(1, 3);
  for (int l = 0; l < landmarks; ++l) {
    const std::string name = "l" + std::to_string(l);
    const Rigid3d where = Noise(rng, true, 5., 3.);
    auto& landmark = s.landmarks[name];
    truth->landmarks[name] = where;
    const bool frozen = rng.Chance(0.3);
    landmark.frozen = frozen;
    if (frozen) {
      landmark.global_landmark_pose = where;
    } else if (rng.Chance(0.3)) {
      landmark.global_landmark_pose = where * Noise(rng, true, start, start);
    }
    for (int k = rng.Int(1, 5); k > 0; --k) {
      LandmarkNode::LandmarkObservation observation;
      observation.trajectory_id =
          rng.Chance(0.05) ? trajectories : rng.Int(0, trajectories - 1);
      std::vector<NodeId> ids;
      for (const auto& id : node_ids) {
        if (id.trajectory_id == observation.trajectory_id) ids.push_back(id);
      }
      observation.translation_weight = rng.Real(1., 50.);
      observation.rotation_weight = rng.Real(1., 50.);
      if (ids.empty()) {
        observation.time = T(clock);
        observation.landmark_to_tracking_transform = where;
        landmark.landmark_observations.push_back(observation);
        continue;
      }
      const size_t i = rng.Int(0, ids.size() - 1);
      const Node& node = s.nodes[ids[i]];
      Rigid3d tracking = tracking_truth[ids[i]];
      observation.time = node.time;
      if (rng.Chance(0.6)) {
        if (i + 1 < ids.size()) {
          const double f = rng.Real(0.1, 0.9);
          const Node& next = s.nodes[ids[i + 1]];
          observation.time += common::FromSeconds(
              f * common::ToSeconds(next.time - node.time));
          tracking = Between(tracking, tracking_truth[ids[i + 1]],
                             common::ToSeconds(observation.time - node.time) /
                                 common::ToSeconds(next.time - node.time));
        } else {
          observation.time += common::FromMilliseconds(50);  // no node yet
        }
      } else if (i == 0 && rng.Chance(0.3)) {
        observation.time -= common::FromMilliseconds(50);  // before the nodes
      }
      observation.landmark_to_tracking_transform =
          tracking.inverse() * where * Noise(rng, true, noise, noise);
      landmark.landmark_observations.push_back(observation);
    }
  }
  return s;
}

// ---------------------------------------------------------------------------

template <class Map>
double Apart(const Map& a, const Map& b) {
  double d = 0.;
  for (const auto& e : a) {
    auto it = b.find(e.first);
    if (it == b.end()) return 1e9;
    d = std::max(d, Distance(e.second, it->second));
  }
  return d;
}

void CheckState(const Spec& spec, const Solution& before,
                const Solution& after) {
  VH_EXPECT(before.nodes.size() == after.nodes.size() &&
                before.submaps.size() == after.submaps.size(),
            "solving keeps nodes and submaps", after.nodes.size());
  for (const auto& n : after.nodes) {
    VH_EXPECT(Finite(n.second), "finite node pose", n.first);
    if (!spec.Frozen(n.first.trajectory_id)) continue;
    VH_EXPECT(Distance(before.nodes.at(n.first), n.second) < 1e-9,
              "frozen node stays", n.first);
  }
  bool first = true;
  for (const auto& s : after.submaps) {
    VH_EXPECT(Finite(s.second), "finite submap pose", s.first);
    const Rigid3d& b = before.submaps.at(s.first);
    if (spec.Frozen(s.first.trajectory_id)) {
      VH_EXPECT(Distance(b, s.second) < 1e-9, "frozen submap stays", s.first);
    } else if (first) {
      VH_EXPECT((b.translation() - s.second.translation()).norm() < 1e-9,
                "first submap stays", s.first);
      if (!spec.three_d) {
        VH_EXPECT(Distance(b, s.second) < 1e-9, "first submap stays", s.first);
      }
    }
    if (spec.three_d && spec.options.fix_z_in_3d()) {
      VH_EXPECT(std::abs(b.translation().z() - s.second.translation().z()) <
                    1e-12,
                "fixed height stays", s.first);
    }
    first = false;
  }
  if (spec.three_d && spec.options.fix_z_in_3d()) {
    for (const auto& n : after.nodes) {
      VH_EXPECT(std::abs(before.nodes.at(n.first).translation().z() -
                         n.second.translation().z()) < 1e-12,
                "fixed height stays", n.first);
    }
  }
  for (const auto& l : after.landmarks) {
    VH_EXPECT(Finite(l.second), "finite landmark pose", l.first);
    if (spec.landmarks.at(l.first).frozen) {
      VH_EXPECT(Distance(before.landmarks.at(l.first), l.second) < 1e-9,
                "frozen landmark stays", l.first);
    }
  }
  for (const auto& f : after.frames) {
    VH_EXPECT(Finite(f.second), "finite fixed frame", f.first);
  }
  for (const auto& g : after.gravity) {
    VH_EXPECT(std::isfinite(g.second) && g.second >= 0., "gravity", g.second);
  }
}

// The largest relative decrease of the cost that moving a single coordinate
// promises.
double Slack(const Spec& spec, const Solution& x) {
  const double f0 = Cost(spec, x);
  double worst = 0.;
  const double h = 1e-4;
  Solution y = x;
  const auto probe = [&](const std::function<void(double)>& move) {
    move(h);
    const double fp = Cost(spec, y);
    move(-h);
    const double fm = Cost(spec, y);
    const double g = (fp - fm) / (2. * h);
    const double c = (fp - 2. * f0 + fm) / (h * h);
    if (c > 1e-9 && g * g / (2. * c) > worst) {
      // What is promised must also be kept.
      double step = -g / c;
      if (std::abs(step) > 0.1) step = step > 0 ? 0.1 : -0.1;
      move(step);
      double best = Cost(spec, y);
      move(step / 4.);
      best = std::min(best, Cost(spec, y));
      worst = std::max(worst, std::min(f0 - best, g * g / (2. * c)));
    }
    move(0.);
  };
  const auto pose = [&](const Rigid3d& at, Rigid3d* to, bool xy, bool z,
                        bool tilt, bool yaw) {
    for (int k = 0; k < 6; ++k) {
      if (k < 2 && !xy) continue;
      if (k == 2 && !z) continue;
      if ((k == 3 || k == 4) && !tilt) continue;
      if (k == 5 && !yaw) continue;
      probe([&](double step) {
        if (k < 3) {
          *to = Rigid3d::Translation(step * Vector3d::Unit(k)) * at;
        } else {
          *to = Rigid3d(at.translation(),
                        Quaterniond(Eigen::AngleAxisd(
                            step, Vector3d::Unit(k - 3))) *
                            at.rotation());
        }
      });
    }
  };
  const bool d3 = spec.three_d, z = d3 && !spec.options.fix_z_in_3d();
  for (const auto& n : x.nodes) {
    if (spec.Frozen(n.first.trajectory_id)) continue;
    pose(n.second, &y.nodes[n.first], true, z, d3, true);
  }
  bool first = true;
  for (const auto& s : x.submaps) {
    const bool anchor = first;
    first = false;
    if (spec.Frozen(s.first.trajectory_id)) continue;
    if (anchor) {
      // Only tilt is free, in 3D; its parametrization is not probed.
      continue;
    }
    pose(s.second, &y.submaps[s.first], true, z, d3, true);
  }
  for (const auto& l : x.landmarks) {
    if (spec.landmarks.at(l.first).frozen) continue;
    pose(l.second, &y.landmarks[l.first], true, true, true, true);
  }
  for (const auto& f : x.frames) {
    pose(f.second, &y.frames[f.first], true, d3, false, true);
  }
  if (z) {
    for (const auto& g : x.gravity) {
      if (g.second < 1e-3 || spec.Frozen(g.first)) continue;
      probe([&](double step) { y.gravity[g.first] = g.second + step; });
    }
    if (spec.options.use_online_imu_extrinsics_in_3d()) {
      for (const auto& c : x.calibration) {
        if (spec.Frozen(c.first)) continue;
        for (int k = 0; k < 3; ++k) {
          probe([&](double step) {
            y.calibration[c.first] =
                Quaterniond(Eigen::AngleAxisd(step, Vector3d::Unit(k))) *
                c.second;
          });
        }
      }
    }
  }
  return worst;
}

template <class S>
void Noisy(vh::Rng& rng, bool three_d) {
  Solution truth;
  const double noise = rng.Real(0.005, 0.1);
  const Spec spec = MakeGraph(rng, three_d, noise, rng.Real(0.01, 0.3), &truth);
  Runner<S> runner(spec);
  Solution before = runner.Get();
  bool known = true;  // is the whole starting point known?
  for (const auto& l : spec.landmarks) {
    known &= l.second.global_landmark_pose.has_value();
  }
  for (const auto& f : spec.fixed) {
    (void)f;
    known = false;
  }
  const double at_first = known ? Cost(spec, before) : 0.;
  double last = at_first;
  Solution after;
  const int rounds = 6;
  for (int i = 0; i < rounds; ++i) {
    runner.Solve();
    after = runner.Get();
    CheckState(spec, before, after);
    const double cost = Cost(spec, after);
    VH_EXPECT(std::isfinite(cost), "finite error", cost);
    if (known) {
      VH_EXPECT(cost <= last * (1. + 1e-6) + 1e-7,
                "optimizing never increases the error",
                last << " to " << cost << " in round " << i);
    }
    known = true;
    last = cost;
    before = after;
  }
  for (const auto& g : after.gravity) {
    // The solver can get stuck near a bound (here, no gravity).
    if (three_d && g.second < 3.) {
      vh::Count("at_a_bound");
      return;
    }
  }
  double slack = Slack(spec, after);
  for (int i = 0; i < 60 && slack > 1e-5 * last + 1e-7; ++i) {
    // The solver stops early where progress is slow; let it continue.
    const double cost = last;
    runner.Solve();
    after = runner.Get();
    last = Cost(spec, after);
    slack = Slack(spec, after);
    vh::Count("slow_rounds");
    if (i == 59 && cost - last > 0.3 * slack) {
      vh::Count("still_improving");
      return;
    }
  }
  vh::Max("slack_ppm", static_cast<int64_t>(1e6 * slack / (last + 1e-3)));
  VH_EXPECT(slack <= 1e-5 * last + 1e-7,
            "the result minimizes the weighted error of all observations",
            "moving one coordinate saves " << slack << " of " << last);
  vh::Count("noisy_graphs");
  vh::Count("terms", spec.constraints.size());
  vh::Distinct(vh::Digest().Add(last).Add(spec.nodes.size()).Get());
}

template <class S>
void Consistent(vh::Rng& rng, bool three_d) {
  Solution truth;
  Spec spec = MakeGraph(rng, three_d, 0., three_d ? 0.15 : 0.25, &truth);
  // Huber losses are for outliers; here there are none.
  Runner<S> runner(spec);
  for (int i = 0; i < 4; ++i) {
    const Solution before = runner.Get();
    runner.Solve();
    CheckState(spec, before, runner.Get());
  }
  const Solution x = runner.Get();
  const double cost = Cost(spec, x);
  VH_EXPECT(cost < 1e-3, "a consistent graph is solved without error", cost);
  // What is tied to something frozen is recovered; what is tied only to the
  // first submap is recovered relative to it (in 3D, it may tilt).
  const auto reach = [&](std::set<NodeId>* nodes, std::set<SubmapId>* submaps) {
    for (size_t size = 0; size != nodes->size() + submaps->size();) {
      size = nodes->size() + submaps->size();
      for (const auto& c : spec.constraints) {
        if (submaps->count(c.submap_id)) nodes->insert(c.node_id);
        if (nodes->count(c.node_id)) submaps->insert(c.submap_id);
      }
    }
  };
  std::set<NodeId> nodes;
  std::set<SubmapId> submaps;
  for (const auto& s : spec.submaps) {
    if (spec.Frozen(s.first.trajectory_id)) submaps.insert(s.first);
  }
  for (const auto& n : spec.nodes) {
    if (spec.Frozen(n.first.trajectory_id)) nodes.insert(n.first);
  }
  reach(&nodes, &submaps);
  double worst = 0.;
  const auto compare = [&](const Rigid3d& align) {
    for (const auto& n : nodes) {
      worst = std::max(worst, Distance(align * x.nodes.at(n),
                                       truth.nodes.at(n)));
    }
    for (const auto& n : submaps) {
      worst = std::max(worst, Distance(align * x.submaps.at(n),
                                       truth.submaps.at(n)));
    }
  };
  compare(Rigid3d::Identity());
  const SubmapId first = spec.submaps.begin()->first;
  if (!submaps.count(first)) {
    nodes.clear();
    submaps = {first};
    reach(&nodes, &submaps);
    compare(three_d ? truth.submaps.at(first) * x.submaps.at(first).inverse()
                    : Rigid3d::Identity());
  }
  vh::Max("recovery_error_um", static_cast<int64_t>(1e6 * worst));
  VH_EXPECT(worst < 1e-2, "a consistent graph is recovered",
            worst << " with cost " << cost);
  // Relative poses within constraints are what was observed.
  for (const auto& c : spec.constraints) {
    const double d = Distance(
        x.submaps.at(c.submap_id).inverse() * x.nodes.at(c.node_id),
        c.pose.zbar_ij);
    VH_EXPECT(d < 2e-2, "consistent constraints are met", d);
  }
  vh::Count("consistent_graphs");
  vh::Distinct(vh::Digest().Add(x.nodes.size()).Add(x.nodes.begin()->second
                   .translation().x()).Add(spec.constraints.size()).Get());
}

// Removing nodes and submaps leaves the same problem as never adding them.
template <class S>
void Removal(vh::Rng& rng, bool three_d) {
  Solution truth;
  Spec spec = MakeGraph(rng, three_d, 0.03, 0.05, &truth);
  // Whether a node's fixed frame pose counts depends on the neighboring
  // sample having a pose; without such samples removal is clear-cut.
  for (auto it = spec.fixed.begin(); it != spec.fixed.end();) {
    auto& v = it->second;
    v.erase(std::remove_if(v.begin(), v.end(),
                           [](const Fixed& f) { return !f.pose; }),
            v.end());
    it = v.empty() ? spec.fixed.erase(it) : std::next(it);
  }
  Runner<S> full(spec);
  if (rng.Chance(0.5)) full.Solve();
  Solution x = full.Get();
  Spec rest = full.spec;
  int removed = 0;
  for (auto it = rest.nodes.begin(); it != rest.nodes.end();) {
    if (rng.Chance(0.25) && rest.nodes.size() > 1) {
      const NodeId id = it->first;
      full.solver.problem.TrimTrajectoryNode(id);
      it = rest.nodes.erase(it);
      ++removed;
    } else {
      it->second.global = x.nodes.at(it->first);
      ++it;
    }
  }
  for (auto it = rest.submaps.begin(); it != rest.submaps.end();) {
    if (rng.Chance(0.25) && rest.submaps.size() > 1) {
      const SubmapId id = it->first;
      full.solver.problem.TrimSubmap(id);
      it = rest.submaps.erase(it);
      ++removed;
    } else {
      it->second = x.submaps.at(it->first);
      ++it;
    }
  }
  rest.constraints.erase(
      std::remove_if(rest.constraints.begin(), rest.constraints.end(),
                     [&](const Constraint& c) {
                       return !rest.nodes.count(c.node_id) ||
                              !rest.submaps.count(c.submap_id);
                     }),
      rest.constraints.end());
  // State that removed parts leave behind: trajectory data.
  rest.data.clear();
  for (const auto& t : full.solver.problem.trajectory_data()) {
    rest.data[t.first] = t.second;
  }
  std::set<int> left;
  for (const auto& n : rest.nodes) left.insert(n.first.trajectory_id);
  for (const auto& t : rest.data) {
    VH_EXPECT(left.count(t.first),
              "no trajectory data without nodes after removal", t.first);
  }
  for (const auto& t : left) {
    VH_EXPECT(rest.data.count(t), "trajectory data of remaining nodes", t);
  }
  const auto drop = [&](auto* map) {
    for (auto it = map->begin(); it != map->end();) {
      it = left.count(it->first) ? std::next(it) : map->erase(it);
    }
  };
  drop(&rest.imu);
  drop(&rest.odometry);
  drop(&rest.fixed);
  Runner<S> fresh(rest);
  full.spec.constraints = rest.constraints;
  full.spec.nodes = rest.nodes;
  full.spec.submaps = rest.submaps;
  full.Solve();
  fresh.Solve();
  const Solution a = full.Get(), b = fresh.Get();
  VH_EXPECT(a.nodes.size() == b.nodes.size() &&
                a.submaps.size() == b.submaps.size(),
            "removed parts are gone", a.nodes.size());
  const double d =
      std::max(Apart(a.nodes, b.nodes), Apart(a.submaps, b.submaps));
  double landmarks = 0.;
  for (const auto& l : a.landmarks) {
    if (!b.landmarks.count(l.first)) continue;
    landmarks = std::max(landmarks,
                         Distance(l.second, b.landmarks.at(l.first)));
  }
  if (d >= 1e-5 || landmarks >= 1e-4) {
    // Poses without influence on the error are arbitrary.
    const double cost = Cost(rest, b);
    if (std::abs(Cost(rest, a) - cost) < 1e-8 * (1. + cost)) {
      vh::Count("equally_good");
      return;
    }
    // Does the result depend on rounding? Then nothing can be said.
    for (int i = 0; i < 6; ++i) {
      Spec moved = rest;
      const double size = i < 3 ? 1e-12 : 1e-9;
      for (auto& n : moved.nodes) {
        n.second.global =
            Rigid3d::Translation(Vector3d(rng.Real(-size, size),
                                          rng.Real(-size, size), 0.)) *
            n.second.global;
      }
      Runner<S> other(moved);
      other.Solve();
      const Solution c = other.Get();
      double apart =
          std::max(Apart(c.nodes, b.nodes), Apart(c.submaps, b.submaps));
      for (const auto& l : c.landmarks) {
        if (!b.landmarks.count(l.first)) continue;
        apart = std::max(apart, Distance(l.second, b.landmarks.at(l.first)));
      }
      if (apart > 1e-6) {
        vh::Count("depends_on_rounding");
        return;
      }
    }
  }
  VH_EXPECT(d < 1e-5,
            "what was removed has no influence on the optimization", d);
  VH_EXPECT(landmarks < 1e-4,
            "what was removed has no influence on landmarks", landmarks);
  vh::Count("removed", removed);
  if (removed > 0) {
    vh::Distinct(vh::Digest().Add(removed).Add(a.nodes.begin()->second
                     .translation().x()).Get());
  }
}

}  // namespace

VH_SCENARIO(noisy_2d, 400, 12000) { Noisy<Solver2D>(rng, false); }
VH_SCENARIO(noisy_3d, 160, 5000) { Noisy<Solver3D>(rng, true); }
VH_SCENARIO(consistent_2d, 400, 12000) { Consistent<Solver2D>(rng, false); }
VH_SCENARIO(consistent_3d, 160, 5000) { Consistent<Solver3D>(rng, true); }
VH_SCENARIO(removal_2d, 300, 9000) { Removal<Solver2D>(rng, false); }
VH_SCENARIO(removal_3d, 120, 4000) { Removal<Solver3D>(rng, true); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
