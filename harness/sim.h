// A simulated robot in a static world, and options taken from the repository's
// own configuration files.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_

#include <cmath>
#include <memory>
#include <string>
#include <vector>

#include "absl/memory/memory.h"
#include "cartographer/common/config.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/time.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "cartographer/transform/rigid_transform.h"
#include "vh.h"

namespace sim {

namespace common = cartographer::common;
namespace sensor = cartographer::sensor;
using cartographer::transform::Rigid3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;

inline common::Time T(int64_t ticks) {
  return common::FromUniversal(630000000000000000ll + ticks);
}
constexpr double kTick = 1e-7;
inline int64_t Ticks(double seconds) { return std::llround(seconds / kTick); }

inline Quaterniond Exp(const Vector3d& v) {
  const double n = v.norm();
  if (n < 1e-300) return Quaterniond::Identity();
  return Quaterniond(Eigen::AngleAxisd(n, v / n));
}
inline Quaterniond Yaw(double a) { return Exp(Vector3d(0, 0, a)); }

// A room (seen from inside) with boxes in it.
struct Box {
  Vector3d lo, hi;
};
struct World {
  Box room;
  std::vector<Box> boxes;
  double rx, ry;  // the path is an ellipse with these radii

  static World Random(vh::Rng& rng) {
    World w;
    w.rx = rng.Real(1.2, 2.2);
    w.ry = rng.Real(1.2, 2.2);
    const double x = w.rx + rng.Real(1.5, 3.), y = w.ry + rng.Real(1.5, 3.);
    w.room = {{-x, -y, -1.}, {x + rng.Real(0, 1.), y, 2.}};
    // Pillars near the walls and something in the middle.
    const int n = rng.Int(3, 7);
    for (int i = 0; i < n; ++i) {
      const double a = 2 * M_PI * (i + rng.Real(0, 0.6)) / n;
      const double sx = rng.Real(0.1, 0.4), sy = rng.Real(0.1, 0.4);
      const double d = 1.0 + rng.Real(0., 0.3);
      const Vector3d c((w.rx + d) * std::cos(a), (w.ry + d) * std::sin(a), 0);
      w.boxes.push_back({c - Vector3d(sx, sy, 1.),
                         c + Vector3d(sx, sy, rng.Real(0.3, 1.9))});
    }
    const double m = std::min(w.rx, w.ry) - 0.8;
    w.boxes.push_back({Vector3d(-rng.Real(0.1, m), -rng.Real(0.1, m), -1.),
                       Vector3d(rng.Real(0.1, m), rng.Real(0.1, m), 1.)});
    return w;
  }

  static bool Slab(const Box& b, const Vector3d& o, const Vector3d& d,
                   double* near, double* far) {
    double t0 = -1e30, t1 = 1e30;
    for (int i = 0; i < 3; ++i) {
      if (std::abs(d[i]) < 1e-12) {
        if (o[i] < b.lo[i] || o[i] > b.hi[i]) return false;
        continue;
      }
      double a = (b.lo[i] - o[i]) / d[i], c = (b.hi[i] - o[i]) / d[i];
      if (a > c) std::swap(a, c);
      t0 = std::max(t0, a);
      t1 = std::min(t1, c);
    }
    *near = t0;
    *far = t1;
    return t0 <= t1;
  }
  double Cast(const Vector3d& o, const Vector3d& d) const {
    double near, far;
    Slab(room, o, d, &near, &far);
    double best = far;
    for (const Box& b : boxes) {
      if (Slab(b, o, d, &near, &far) && near > 0 && near < best) best = near;
    }
    return best;
  }
  // Distance of a point to the nearest surface.
  double Surface(const Vector3d& p) const {
    double best = 1e30;
    for (int i = 0; i < 3; ++i) {
      best = std::min(best, std::abs(p[i] - room.lo[i]));
      best = std::min(best, std::abs(p[i] - room.hi[i]));
    }
    for (const Box& b : boxes) {
      const Vector3d c = 0.5 * (b.lo + b.hi), h = 0.5 * (b.hi - b.lo);
      const Vector3d q = (p - c).cwiseAbs() - h;
      const double out = q.cwiseMax(0.).norm();
      const double in = std::min(0., q.maxCoeff());
      best = std::min(best, std::abs(out + in));
    }
    return best;
  }
};

// Motion along the ellipse.
struct Path {
  double rx, ry, phase, rate, spin, wobble = 0., wobble_rate = 0.,
         start = 0.;

  static Path Random(vh::Rng& rng, const World& w) {
    Path p;
    p.rx = w.rx;
    p.ry = w.ry;
    p.phase = rng.Real(-3, 3);
    p.rate = (rng.Chance(0.5) ? 1 : -1) * rng.Real(0.03, 0.15);
    p.spin = rng.Chance(0.3) ? 0. : rng.Real(-0.15, 0.15);
    return p;
  }
  // The robot starts from rest.
  static double Progress(double t) {
    return t <= 0 ? 0. : t - 0.7 * (1. - std::exp(-t / 0.7));
  }
  Rigid3d Pose(double t) const {
    t = Progress(t - start);
    const double a = phase + rate * t;
    const Vector3d p(rx * std::cos(a), ry * std::sin(a), 0.);
    const Quaterniond tilt =
        Exp(wobble * Vector3d(std::sin(wobble_rate * t),
                              std::cos(wobble_rate * t), 0.));
    return Rigid3d(p, Yaw(phase + spin * t) * tilt);
  }
  Vector3d AngularVelocity(double t) const {
    const double h = 1e-4;
    const Quaterniond d = Pose(t - h).rotation().conjugate() *
                          Pose(t + h).rotation();
    const Eigen::AngleAxisd aa(d);
    return aa.angle() * aa.axis() / (2 * h);
  }
  Vector3d Acceleration(double t) const {  // world frame
    const double h = 1e-3;
    return (Pose(t + h).translation() - 2. * Pose(t).translation() +
            Pose(t - h).translation()) /
           (h * h);
  }
};

// What a range sensor mounted at `mount` sees, in the tracking frame.
struct Scanner {
  std::vector<Vector3d> beams;  // unit directions in the sensor frame
  Rigid3d mount = Rigid3d::Identity();
  double duration = 0.;  // time to take all beams
  double noise = 0.;

  static Scanner Planar(int n) {
    Scanner s;
    for (int i = 0; i < n; ++i) {
      const double a = 2 * M_PI * i / n;
      s.beams.emplace_back(std::cos(a), std::sin(a), 0.);
    }
    return s;
  }
  static Scanner Spatial(int rings, int n) {
    Scanner s;
    for (int i = 0; i < n; ++i) {
      for (int r = 0; r < rings; ++r) {
        const double a = 2 * M_PI * (i + 0.37 * r) / n;
        const double e = rings == 1 ? 0. : -0.5 + 1.1 * r / (rings - 1);
        s.beams.emplace_back(std::cos(a) * std::cos(e),
                             std::sin(a) * std::cos(e), std::sin(e));
      }
    }
    return s;
  }
  // A scan whose last point is taken at tick t.
  sensor::TimedPointCloudData Scan(vh::Rng& rng, const World& world,
                                   const Path& path, int64_t t) const {
    sensor::TimedPointCloudData data;
    data.time = T(t);
    data.origin = mount.translation().cast<float>();
    for (size_t i = 0; i < beams.size(); ++i) {
      const double dt =
          duration == 0.
              ? 0.
              : -duration * (1. - double(i + 1) / beams.size());
      const Rigid3d pose = path.Pose(t * kTick + dt);
      const Vector3d o = pose * mount.translation();
      const Vector3d d = pose.rotation() * (mount.rotation() * beams[i]);
      double range = world.Cast(o, d);
      if (noise > 0) range += noise * rng.Normal();
      const Vector3d p = pose.inverse() * (o + range * d);
      data.ranges.push_back({p.cast<float>(), static_cast<float>(dt)});
      data.intensities.push_back(100.f);
    }
    return data;
  }
};

inline sensor::ImuData Imu(const Path& path, int64_t t) {
  const double s = t * kTick;
  return sensor::ImuData{
      T(t),
      path.Pose(s).rotation().conjugate() *
          (path.Acceleration(s) + Vector3d(0, 0, 9.806)),
      path.AngularVelocity(s)};
}

inline std::unique_ptr<common::LuaParameterDictionary> Lua(
    const std::string& code) {
  auto resolver = absl::make_unique<common::ConfigurationFileResolver>(
      std::vector<std::string>{
          std::string(common::kConfigurationFilesDirectory)});
  return common::LuaParameterDictionary::NonReferenceCounted(
      code, std::move(resolver));
}

}  // namespace sim

#endif  // VERIF_SIM_H_
