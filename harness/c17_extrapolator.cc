// C17: pose extrapolation and orientation tracking.
#include <deque>
#include <memory>

#include "cartographer/common/time.h"
#include "cartographer/mapping/imu_tracker.h"
#include "cartographer/mapping/internal/imu_based_pose_extrapolator.h"
#include "cartographer/mapping/pose_extrapolator.h"
#include "cartographer/transform/transform.h"
#include "vh.h"

namespace common = cartographer::common;
namespace m = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace tf = cartographer::transform;
using Eigen::Quaterniond;
using Eigen::Vector3d;
using tf::Rigid3d;

namespace {

// Times are kept as ticks of 100 ns.
common::Time T(int64_t ticks) {
  return common::FromUniversal(600000000000000000ll + ticks);
}
constexpr double kTick = 1e-7;

Quaterniond Exp(const Vector3d& v) {
  const double n = v.norm();
  if (n < 1e-300) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(n, v / n));
}
Quaterniond Yaw(double a) { return Exp(Vector3d(0, 0, a)); }
double Angle(const Quaterniond& a, const Quaterniond& b) {
  return a.angularDistance(b);
}
bool Near(const Rigid3d& a, const Rigid3d& b, double tol) {
  return (a.translation() - b.translation()).norm() <=
             tol * (1. + b.translation().norm()) &&
         Angle(a.rotation(), b.rotation()) <= tol * 10;
}
std::string Str(const Rigid3d& p) {
  std::ostringstream o;
  o.precision(12);
  o << p.translation().transpose() << " / " << p.rotation().w() << " "
    << p.rotation().vec().transpose();
  return o.str();
}
Vector3d Axis(vh::Rng& rng) {
  Vector3d v(rng.Normal(), rng.Normal(), rng.Normal());
  return v.norm() < 1e-3 ? Vector3d(0, 0, 1) : v.normalized();
}

// The velocities that the reported poses imply: from the newest pose that is
// at least the queue duration older than the last one (or the first one), and
// unchanged while the poses span less than the queue duration.
struct PoseWindow {
  int64_t duration;
  std::vector<std::pair<int64_t, Rigid3d>> poses;
  Vector3d v = Vector3d::Zero();
  Vector3d w = Vector3d::Zero();
  size_t first = 0;

  void Add(int64_t t, const Rigid3d& pose) {
    poses.emplace_back(t, pose);
    // Poses that left the window never come back; two are always kept.
    while (poses.size() - first > 2 && poses[first + 1].first <= t - duration) {
      ++first;
    }
    if (poses.size() < 2) return;
    const auto& oldest = poses[first];
    const int64_t span = t - oldest.first;
    if (span < duration || span == 0) return;
    v = (pose.translation() - oldest.second.translation()) / (span * kTick);
    Eigen::AngleAxisd aa(oldest.second.rotation().conjugate() *
                         pose.rotation());
    double angle = aa.angle();
    Vector3d axis = aa.axis();
    if (angle > M_PI) angle -= 2 * M_PI;
    w = angle * axis / (span * kTick);
  }
};

void CheckTimes(m::PoseExtrapolatorInterface* e, int64_t pose,
                int64_t extrapolated) {
  VH_EXPECT(e->GetLastPoseTime() == T(pose), "last pose time", pose);
  VH_EXPECT(e->GetLastExtrapolatedTime() == T(extrapolated),
            "last extrapolated time", extrapolated);
}

// A query at time t, either through the single-pose or through the batch
// interface; the batch contains the given earlier times too.
Rigid3d Query(vh::Rng& rng, m::PoseExtrapolatorInterface* e, int64_t t) {
  if (rng.Chance(0.7)) return e->ExtrapolatePose(T(t));
  const int copies = rng.Int(0, 2);
  std::vector<common::Time> times(copies + 1, T(t));
  const auto r = e->ExtrapolatePosesWithGravity(times);
  VH_EXPECT(static_cast<int>(r.previous_poses.size()) == copies,
            "number of batch poses", copies);
  for (const auto& p : r.previous_poses) {
    VH_EXPECT(Near(p.cast<double>(), r.current_pose, 1e-5),
              "batch poses of one time differ", t);
  }
  return r.current_pose;
}

}  // namespace

// Poses in the plane (any path), no other sensor.
VH_SCENARIO(poses, 1500, 40000) {
  PoseWindow window;
  window.duration = rng.Chance(0.3) ? rng.Int(1, 1000)
                                    : rng.Int(10000, 20000000);
  m::PoseExtrapolator e(T(window.duration) - T(0), rng.Real(0.1, 20.));
  const bool steady = rng.Chance(0.3);
  const Vector3d v0(rng.Normal(), rng.Normal(), rng.Normal());
  const double w0 = rng.Normal() * 0.5;
  Rigid3d pose(10. * Vector3d(rng.Normal(), rng.Normal(), rng.Normal()),
               Yaw(rng.Real(-3, 3)));
  int64_t t = rng.Int(0, 100000000);
  vh::Digest digest;
  int moved = 0;
  for (int i = 0, n = rng.Int(2, 25); i < n; ++i) {
    e.AddPose(T(t), pose);
    window.Add(t, pose);
    digest.Add(t).Add(pose.translation().x());
    VH_EXPECT(e.GetLastPoseTime() == T(t), "last pose time", i);
    int64_t q = t;
    // Possibly ask for the pose just reported, first.
    for (int k = 0, nk = rng.Int(0, 5); k < nk; ++k) {
      if (!(k == 0 && rng.Chance(0.5))) {
        q += rng.Chance(0.2) ? 0 : rng.Int(1, 4000000);
      }
      const Rigid3d got = Query(rng, &e, q);
      const double dt = (q - t) * kTick;
      const Rigid3d want(pose.translation() + dt * window.v,
                         pose.rotation() * Exp(dt * window.w));
      if (q == t) {
        VH_EXPECT(Near(got, pose, 1e-9),
                  "extrapolating to the time of the newest pose",
                  "pose " << i << ": " << Str(got) << " instead of "
                          << Str(pose));
      }
      VH_EXPECT(Near(got, want, 1e-7), "extrapolated pose",
                "step " << i << " dt " << dt << ": " << Str(got)
                        << " instead of " << Str(want));
      CheckTimes(&e, t, q);
      if (dt > 0 && window.v.norm() > 0) ++moved;
      // Without inertial data there is only the upward direction.
      const Quaterniond g = e.EstimateGravityOrientation(T(q));
      VH_EXPECT((g * Vector3d::UnitZ() - Vector3d::UnitZ()).norm() < 1e-6,
                "gravity without inertial data", i);
    }
    const int64_t step = rng.Chance(0.6) && q > t
                             ? q - t  // a pose for the time just predicted
                             : std::max<int64_t>(q - t, rng.Int(1, 8000000));
    const double dt = step * kTick;
    if (steady) {
      pose = Rigid3d(pose.translation() + dt * v0,
                     pose.rotation() * Yaw(dt * w0));
    } else {
      pose = Rigid3d(
          pose.translation() +
              dt * Vector3d(rng.Normal(), rng.Normal(), rng.Normal()),
          pose.rotation() * Yaw(dt * rng.Real(-1, 1)));
    }
    t += step;
  }
  vh::Count("poses.moving_queries", moved);
  if (moved > 2) vh::Distinct(digest.Get());
}

// Odometry with a constant twist in its own frame (also when wheels slip, i.e.
// unrelated to the poses), poses in the plane.
VH_SCENARIO(odometry, 1500, 40000) {
  PoseWindow window;
  window.duration = rng.Int(1000, 10000000);
  m::PoseExtrapolator e(T(window.duration) - T(0), rng.Real(0.1, 20.));
  const Vector3d v_body(rng.Normal(), rng.Normal(), rng.Normal() * 0.1);
  const double w = rng.Chance(0.2) ? 0. : rng.Real(-1.5, 1.5);
  const Rigid3d odom0(5. * Vector3d(rng.Normal(), rng.Normal(), 0),
                      Yaw(rng.Real(-3, 3)));
  // Exact planar arc of a constant twist.
  auto odom = [&](int64_t t) {
    const double s = t * kTick;
    Vector3d d;
    if (std::abs(w) < 1e-9) {
      d = s * v_body;
    } else {
      const double a = w * s;
      d = Vector3d((std::sin(a) * v_body.x() -
                    (1 - std::cos(a)) * v_body.y()) / w,
                   ((1 - std::cos(a)) * v_body.x() +
                    std::sin(a) * v_body.y()) / w,
                   s * v_body.z());
    }
    return odom0 * Rigid3d(d, Yaw(w * s));
  };
  std::deque<int64_t> queue;
  int64_t pose_t = -1;
  auto trim = [&] {
    while (queue.size() > 2 && pose_t >= 0 && queue[1] <= pose_t) {
      queue.pop_front();
    }
  };
  Rigid3d pose(10. * Vector3d(rng.Normal(), rng.Normal(), rng.Normal()),
               Yaw(rng.Real(-3, 3)));
  Vector3d v = Vector3d::Zero();
  // Rotation rates become those of the odometry when a pose is added with
  // odometry known; before that they depend on what was asked when.
  bool exact = false;
  bool first_pose = true;
  int64_t t = 0;
  vh::Digest digest;
  int compared = 0;
  for (int i = 0, n = rng.Int(5, 60); i < n; ++i) {
    const int64_t before = t;
    t += rng.Chance(0.15) ? 0 : rng.Int(1, 3000000);
    const int kind = first_pose && i > 3 ? 0 : rng.Int(0, 4);
    if (kind == 0) {
      if (!first_pose && rng.Chance(0.5)) t = before;
      const double dt = (t - std::max<int64_t>(pose_t, 0)) * kTick;
      pose = Rigid3d(pose.translation() +
                         dt * Vector3d(rng.Normal(), rng.Normal(), 0.),
                     pose.rotation() * Yaw(dt * rng.Real(-1, 1)));
      if (t == pose_t) continue;
      e.AddPose(T(t), pose);
      window.Add(t, pose);
      pose_t = t;
      trim();
      exact = queue.size() >= 2;
      first_pose = false;
      digest.Add(t).Add(pose.translation().x());
    } else if (kind <= 2) {
      e.AddOdometryData(sensor::OdometryData{T(t), odom(t)});
      queue.push_back(t);
      trim();
      if (queue.size() >= 2 && queue.back() > queue.front()) {
        const double tau = (queue.back() - queue.front()) * kTick;
        const Rigid3d delta =
            odom(queue.back()).inverse() * odom(queue.front());
        if (std::abs(w) * tau > 3.) return;  // more than half a turn
        const Vector3d body = delta.translation() / -tau;
        if (pose_t >= 0) {
          v = pose.rotation() * Yaw(w * (queue.back() - pose_t) * kTick) *
              body;
        }
        digest.Add(v.x());
      } else if (queue.size() >= 2) {
        return;  // two messages of one time: no velocity to speak of
      }
    } else if (pose_t >= 0) {
      const Rigid3d got = Query(rng, &e, t);
      const double dt = (t - pose_t) * kTick;
      if (t == pose_t) {
        VH_EXPECT(Near(got, pose, 1e-9),
                  "extrapolating to the time of the newest pose",
                  Str(got) << " instead of " << Str(pose));
      }
      // The velocity must stem from odometry received since the last pose:
      // its direction refers to that pose.
      if (exact && queue.back() >= pose_t) {
        const Rigid3d want(pose.translation() + dt * v,
                           pose.rotation() * Yaw(w * dt));
        if (queue.back() > pose_t) {
          VH_EXPECT(Near(got, want, 1e-5), "extrapolated pose with odometry",
                    "dt " << dt << ": " << Str(got) << " instead of "
                          << Str(want));
          ++compared;
        } else {
          VH_EXPECT(Angle(got.rotation(), want.rotation()) < 1e-4,
                    "extrapolated rotation with odometry", dt);
        }
      }
      CheckTimes(&e, pose_t, t);
    }
  }
  vh::Count("odometry.compared", compared);
  if (compared > 1) vh::Distinct(digest.Get());
}

// Inertial data of a body that turns arbitrarily (angular velocity constant
// between samples) and feels nothing but gravity.
VH_SCENARIO(imu, 1500, 40000) {
  PoseWindow window;
  window.duration = rng.Int(1000, 10000000);
  const double constant = rng.Real(0.1, 20.);
  Quaterniond truth = Exp(rng.Real(0, 2.5) * Axis(rng));
  Vector3d omega = Vector3d::Zero();
  int64_t t = rng.Int(0, 1000);
  int64_t truth_t = t;
  auto advance = [&](int64_t to) {
    truth = (truth * Exp((to - truth_t) * kTick * omega)).normalized();
    truth_t = to;
  };
  auto sample = [&](int64_t at) {
    advance(at);
    omega = rng.Chance(0.2) ? Vector3d(Vector3d::Zero())
                            : Vector3d(rng.Real(0, 2) * Axis(rng));
    const double g = rng.Real(8, 11);
    return sensor::ImuData{T(at), truth.conjugate() * Vector3d(0, 0, g),
                           omega};
  };
  std::unique_ptr<m::PoseExtrapolator> e;
  Rigid3d pose;
  int64_t pose_t;
  Quaterniond pose_truth;
  {
    const sensor::ImuData first = sample(t);
    e = m::PoseExtrapolator::InitializeWithImu(T(window.duration) - T(0),
                                               constant, first);
    pose = e->ExtrapolatePose(T(t));
    VH_EXPECT((pose.rotation() * truth.conjugate() * Vector3d::UnitZ() -
               Vector3d::UnitZ())
                      .norm() < 1e-6,
              "first pose is aligned with gravity", Str(pose));
    VH_EXPECT(pose.translation().norm() == 0., "first pose", Str(pose));
    window.Add(t, pose);
    pose_t = t;
    pose_truth = truth;
    CheckTimes(e.get(), t, t);
  }
  vh::Digest digest;
  int compared = 0;
  for (int i = 0, n = rng.Int(5, 60); i < n; ++i) {
    const int64_t before = t;
    t += rng.Chance(0.15) ? 0 : rng.Int(1, 2000000);
    const int kind = rng.Int(0, 4);
    if (kind == 0) {
      if (rng.Chance(0.5)) t = before;
      if (t == pose_t) continue;
      const double dt = (t - pose_t) * kTick;
      // Whatever scan matching says; the tracker does not depend on it.
      pose = Rigid3d(pose.translation() +
                         dt * Vector3d(rng.Normal(), rng.Normal(), 0.),
                     pose.rotation() * Exp(dt * rng.Real(0, 1) * Axis(rng)));
      e->AddPose(T(t), pose);
      window.Add(t, pose);
      advance(t);
      pose_t = t;
      pose_truth = truth;
      digest.Add(t).Add(pose.translation().x());
    } else if (kind <= 2) {
      e->AddImuData(sample(t));
      digest.Add(omega.x());
    } else {
      advance(t);
      if (rng.Chance(0.5)) {
        const Quaterniond g = e->EstimateGravityOrientation(T(t));
        VH_EXPECT((g * (truth.conjugate() * Vector3d::UnitZ()) -
                   Vector3d::UnitZ())
                          .norm() < 1e-5,
                  "gravity estimate", "step " << i);
        VH_EXPECT(std::abs(g.norm() - 1.) < 1e-9, "unit orientation", i);
      }
      const Rigid3d got = Query(rng, e.get(), t);
      const double dt = (t - pose_t) * kTick;
      const Rigid3d want(
          pose.translation() + dt * window.v,
          pose.rotation() * (pose_truth.conjugate() * truth));
      if (t == pose_t) {
        VH_EXPECT(Near(got, pose, 1e-9),
                  "extrapolating to the time of the newest pose",
                  Str(got) << " instead of " << Str(pose));
      }
      VH_EXPECT(Near(got, want, 1e-6), "extrapolated pose with inertial data",
                "dt " << dt << ": " << Str(got) << " instead of "
                      << Str(want));
      CheckTimes(e.get(), pose_t, t);
      ++compared;
    }
  }
  vh::Count("imu.compared", compared);
  if (compared > 2) vh::Distinct(digest.Get());
}

// Orientation tracking with arbitrary accelerations and angular velocities.
VH_SCENARIO(tracker, 2000, 60000) {
  const double constant = std::pow(10., rng.Real(-1.5, 1.5));
  int64_t t = rng.Int(0, 1000), last = -1;
  m::ImuTracker tracker(constant, T(t));
  Vector3d g = Vector3d::UnitZ(), omega = Vector3d::Zero();
  Vector3d feel = rng.Real(5, 12) * Axis(rng);
  // A fresh tracker is level, so the first sample may not point down.
  vh::Digest digest;
  const bool steady = rng.Chance(0.4);
  double settled = 0;
  for (int i = 0, n = rng.Int(2, 80); i < n; ++i) {
    const int kind = rng.Int(0, 2);
    if (kind == 0) {
      const int64_t to = t + (rng.Chance(0.1) ? 0 : rng.Int(1, 3000000));
      const double dt = (to - t) * kTick;
      const Quaterniond before = tracker.orientation();
      tracker.Advance(T(to));
      VH_EXPECT(tracker.time() == T(to), "tracker time", to);
      VH_EXPECT(Angle(tracker.orientation(), before * Exp(dt * omega)) < 1e-6,
                "tracker follows the angular velocity", dt);
      g = Exp(dt * omega).conjugate() * g;
      feel = Exp(dt * omega).conjugate() * feel;
      t = to;
    } else if (kind == 1) {
      omega = rng.Real(0, 2) * Axis(rng);
      tracker.AddImuAngularVelocityObservation(omega);
    } else {
      const Vector3d a = steady ? feel : Vector3d(
          g.normalized() * rng.Real(4, 12) + 2. * Axis(rng));
      const double alpha =
          last < 0 ? 1. : 1. - std::exp(-(t - last) * kTick / constant);
      last = t;
      const Vector3d next = (1. - alpha) * g + alpha * a;
      if (next.norm() < 1e-2) return;
      const Vector3d up_before =
          tracker.orientation().conjugate() * Vector3d::UnitZ();
      const double angle =
          std::acos(std::max(-1., std::min(1., up_before.dot(
                                                   next.normalized()))));
      if (angle > 3.1) return;  // opposite: the axis is arbitrary
      const Quaterniond before = tracker.orientation();
      tracker.AddImuLinearAccelerationObservation(a);
      g = next;
      VH_EXPECT((tracker.orientation() * g.normalized() - Vector3d::UnitZ())
                        .norm() < 1e-6,
                "tracker is aligned with the averaged gravity",
                "step " << i << " alpha " << alpha);
      VH_EXPECT(std::abs(Angle(before, tracker.orientation()) - angle) < 1e-5,
                "alignment turns no more than needed", angle);
      if (steady) {
        VH_EXPECT((tracker.orientation() * feel.normalized() -
                   Vector3d::UnitZ())
                          .norm() < 1e-6,
                  "steady acceleration gives the upward direction", i);
      }
      digest.Add(g.x());
      ++settled;
    }
    VH_EXPECT(std::abs(tracker.orientation().norm() - 1.) < 1e-9,
              "unit orientation", i);
  }
  if (settled > 1) vh::Distinct(digest.Get());
}

// The optimizing extrapolator: newest pose returned, constant motion
// continued.
VH_SCENARIO(imu_based, 60, 1500) {
  m::proto::ImuBasedPoseExtrapolatorOptions options;
  options.set_pose_queue_duration(rng.Real(0.3, 3.));
  options.set_gravity_constant(9.8);
  options.set_pose_translation_weight(1.);
  options.set_pose_rotation_weight(1.);
  options.set_imu_acceleration_weight(1.);
  options.set_imu_rotation_weight(1.);
  options.set_odometry_translation_weight(1.);
  options.set_odometry_rotation_weight(1.);
  options.mutable_solver_options()->set_use_nonmonotonic_steps(false);
  options.mutable_solver_options()->set_max_num_iterations(30);
  options.mutable_solver_options()->set_num_threads(1);
  const Vector3d v(rng.Normal(), rng.Normal(), rng.Normal() * 0.2);
  const Vector3d w = rng.Chance(0.3)
                         ? Vector3d(Vector3d::Zero())
                         : Vector3d(rng.Real(0, 0.5) * Axis(rng));
  Quaterniond r0 = Exp(rng.Real(0, 0.8) * Axis(rng));
  Vector3d p0(rng.Normal(), rng.Normal(), rng.Normal());
  auto truth = [&](int64_t t) {
    return Rigid3d(p0 + t * kTick * v, r0 * Exp(t * kTick * w));
  };
  auto imu = [&](int64_t t) {
    return sensor::ImuData{
        T(t), truth(t).rotation().conjugate() * Vector3d(0, 0, 9.8), w};
  };
  const bool with_odometry = rng.Chance(0.5);
  const Rigid3d odom_frame(Vector3d(rng.Normal(), rng.Normal(), 0),
                           Yaw(rng.Real(-3, 3)));
  int64_t t = rng.Int(0, 1000);
  std::unique_ptr<m::PoseExtrapolatorInterface> e;
  {
    std::vector<tf::TimestampedTransform> initial;
    std::vector<sensor::ImuData> data;
    if (rng.Chance(0.5)) {
      // The path starts at the pose the extrapolator takes from gravity.
      t = 0;
      data.push_back(imu(0));
      r0 = Quaterniond::FromTwoVectors(data.back().linear_acceleration,
                                       Vector3d::UnitZ());
      p0.setZero();
    } else {
      for (int i = 0; i < 4; ++i) {
        data.push_back(imu(t));
        t += 500000;
        initial.push_back({T(t), truth(t)});
      }
    }
    e = m::ImuBasedPoseExtrapolator::InitializeWithImu(options, data, initial);
    if (!initial.empty()) t += 1;
  }
  int poses = 0, compared = 0;
  int64_t next_pose = t + rng.Int(500000, 1500000);
  int64_t last_pose = -1;
  int64_t q = t;
  vh::Digest digest;
  const int n = rng.Int(10, 60);
  for (int i = 0; i < n; ++i) {
    t += rng.Int(50000, 300000);
    if (t >= next_pose) {
      e->AddPose(T(t), truth(t));
      last_pose = t;
      next_pose = t + rng.Int(500000, 1500000);
      ++poses;
      const Rigid3d got = e->ExtrapolatePose(T(t));
      VH_EXPECT(Near(got, truth(t), 1e-9),
                "extrapolating to the time of the newest pose", Str(got));
      CheckTimes(e.get(), t, t);
    }
    e->AddImuData(imu(t));
    if (with_odometry) {
      e->AddOdometryData(
          sensor::OdometryData{T(t), odom_frame * truth(t)});
    }
    if (last_pose < 0 || t <= last_pose || poses < 4) continue;
    q = std::max(q, t);
    const int copies = rng.Int(0, 3);
    std::vector<common::Time> times;
    std::vector<int64_t> ticks;
    for (int k = 0; k < copies; ++k) {
      ticks.push_back(last_pose + (t - last_pose) * (k + 1) / (copies + 1));
    }
    ticks.push_back(t);
    for (int64_t k : ticks) times.push_back(T(k));
    const auto r = e->ExtrapolatePosesWithGravity(times);
    VH_EXPECT(static_cast<int>(r.previous_poses.size()) == copies,
              "number of batch poses", copies);
    CheckTimes(e.get(), last_pose, t);
    const double dt = (t - last_pose) * kTick;
    const double error =
        (r.current_pose.translation() - truth(t).translation()).norm();
    const double turn =
        Angle(r.current_pose.rotation(), truth(t).rotation());
    vh::Max("imu_based.translation_error_um", error * 1e6);
    vh::Max("imu_based.rotation_error_urad", turn * 1e6);
    VH_EXPECT(std::isfinite(error) && error < 0.005 + 0.02 * dt &&
                  turn < 0.001 + 0.002 * dt,
              "constant motion is continued (optimizing extrapolator)",
              "dt " << dt << ": off by " << error << " m, " << turn
                    << " rad");
    // In between: straight line and even turn from the newest pose.
    for (int k = 0; k < copies; ++k) {
      const double f = double(ticks[k] - last_pose) / (t - last_pose);
      const Rigid3d a = truth(last_pose), b = r.current_pose;
      const Rigid3d want(
          a.translation() + f * (b.translation() - a.translation()),
          a.rotation().slerp(f, b.rotation()));
      VH_EXPECT(Near(r.previous_poses[k].cast<double>(), want, 1e-4),
                "poses in between", k);
    }
    VH_EXPECT((r.current_velocity * dt -
               (r.current_pose.translation() -
                truth(last_pose).translation()))
                      .norm() < 1e-6,
              "reported velocity", dt);
    digest.Add(r.current_pose.translation().x());
    ++compared;
  }
  vh::Count("imu_based.compared", compared);
  if (compared > 2) vh::Distinct(digest.Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
