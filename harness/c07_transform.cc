// C07: poses, time stamps and interpolated transforms are consistent.
#include <deque>

#include "cartographer/common/math.h"
#include "cartographer/common/port.h"
#include "cartographer/common/time.h"
#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/transform/transform.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
#include "vh.h"

namespace common = cartographer::common;
namespace transform = cartographer::transform;
using transform::Rigid2d;
using transform::Rigid3d;

namespace {

double AngleBetween(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
  const Eigen::Quaterniond d = a.conjugate() * b;
  return 2. * std::atan2(d.vec().norm(), std::abs(d.w()));
}

Eigen::Quaterniond RandomRotation(vh::Rng& rng) {
  switch (rng.Int(0, 6)) {
    case 0:
      return Eigen::Quaterniond::Identity();
    case 1: {  // Half turns and quarter turns about an axis.
      Eigen::Vector3d axis = Eigen::Vector3d::Zero();
      axis[rng.Int(0, 2)] = rng.Chance(0.5) ? 1. : -1.;
      return Eigen::Quaterniond(
          Eigen::AngleAxisd(rng.Int(-4, 4) * M_PI_2, axis));
    }
    case 2: {  // Tiny.
      const Eigen::Vector3d axis =
          Eigen::Vector3d(rng.Normal(), rng.Normal(), rng.Normal() + 1e-3)
              .normalized();
      return Eigen::Quaterniond(
          Eigen::AngleAxisd(std::pow(10., rng.Real(-12., -1.)), axis));
    }
    case 3:  // Yaw only.
      return Eigen::Quaterniond(
          Eigen::AngleAxisd(rng.Real(-7., 7.), Eigen::Vector3d::UnitZ()));
    default: {
      Eigen::Quaterniond q(rng.Normal(), rng.Normal(), rng.Normal(),
                           rng.Normal());
      if (q.norm() < 1e-3) return Eigen::Quaterniond::Identity();
      return q.normalized();
    }
  }
}

Eigen::Vector3d RandomVector(vh::Rng& rng) {
  const double s = std::pow(10., rng.Real(-3., 4.));
  return Eigen::Vector3d(rng.Real(-s, s), rng.Real(-s, s), rng.Real(-s, s));
}

Rigid3d RandomPose(vh::Rng& rng) {
  return Rigid3d(RandomVector(rng), RandomRotation(rng));
}

void ExpectPose(const Rigid3d& a, const Rigid3d& b, double scale,
                const std::string& key) {
  const double dt = (a.translation() - b.translation()).norm();
  const double da = AngleBetween(a.rotation(), b.rotation());
  VH_EXPECT(dt <= 1e-10 * scale && da <= 1e-7, key,
            a << " versus " << b << " dt " << dt << " da " << da);
}

double Wrap(double d) { return std::remainder(d, 2. * M_PI); }

}  // namespace

VH_SCENARIO(group3, 30000, 1000000) {
  const Rigid3d a = RandomPose(rng), b = RandomPose(rng), c = RandomPose(rng);
  const Eigen::Vector3d p = RandomVector(rng);
  const double scale = 1. + a.translation().norm() + b.translation().norm() +
                       c.translation().norm() + p.norm();
  ExpectPose((a * b) * c, a * (b * c), scale, "associativity");
  const Eigen::Vector3d p1 = (a * b) * p, p2 = a * (b * p);
  VH_EXPECT((p1 - p2).norm() <= 1e-9 * scale, "action",
            p1.transpose() << " versus " << p2.transpose());
  // Against an independent homogeneous-matrix reference.
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.topLeftCorner<3, 3>() = a.rotation().toRotationMatrix();
  m.topRightCorner<3, 1>() = a.translation();
  const Eigen::Vector3d p3 = a * p;
  VH_EXPECT(((m * p.homogeneous()).hnormalized() - p3).norm() <= 1e-9 * scale,
            "action-matrix", a << " on " << p.transpose());
  ExpectPose(a * a.inverse(), Rigid3d::Identity(), scale, "right-inverse");
  ExpectPose(a.inverse() * a, Rigid3d::Identity(), scale, "left-inverse");
  ExpectPose((a * b).inverse(), b.inverse() * a.inverse(), scale,
             "inverse-of-product");
  ExpectPose(a * Rigid3d::Identity(), a, scale, "identity");
  VH_EXPECT(a.IsValid() && (a * b).IsValid() && a.inverse().IsValid(),
            "validity", a);
  // The product stays a rotation however long the chain.
  Rigid3d chain = Rigid3d::Identity();
  for (int i = 0; i < 50; ++i) chain = chain * Rigid3d::Rotation(b.rotation());
  VH_EXPECT(std::abs(chain.rotation().norm() - 1.) < 1e-12, "norm-drift",
            chain.rotation().norm());
  // Angles.
  const double angle = transform::GetAngle(a);
  VH_EXPECT(angle >= 0. && angle <= M_PI + 1e-12 &&
                std::abs(angle - AngleBetween(Eigen::Quaterniond::Identity(),
                                              a.rotation())) < 1e-12,
            "angle", angle);
  const Eigen::Vector3d aa =
      transform::RotationQuaternionToAngleAxisVector(a.rotation());
  VH_EXPECT(std::abs(aa.norm() - angle) < 1e-9, "angle-axis-length",
            aa.norm() << " versus " << angle);
  const Eigen::Quaterniond back =
      transform::AngleAxisVectorToRotationQuaternion(aa);
  VH_EXPECT(AngleBetween(back, a.rotation()) < 1e-7 &&
                std::abs(back.norm() - 1.) < 1e-7,
            "angle-axis-round-trip",
            a << " became " << back.coeffs().transpose());
  // Longer than a turn: still the rotation of that angle and axis.
  const Eigen::Vector3d axis = Eigen::Vector3d(rng.Normal(), rng.Normal(), 1.)
                                   .normalized();
  const double turn = rng.Real(-10., 10.);
  VH_EXPECT(
      AngleBetween(transform::AngleAxisVectorToRotationQuaternion<double>(
                       axis * turn),
                   Eigen::Quaterniond(Eigen::AngleAxisd(turn, axis))) < 1e-7,
      "angle-axis-to-quaternion", turn);
  // Yaw.
  const double roll = rng.Real(-3., 3.), pitch = rng.Real(-1.5, 1.5),
               yaw = rng.Real(-3.1, 3.1);
  const Eigen::Quaterniond rpy = transform::RollPitchYaw(roll, pitch, yaw);
  const Eigen::Matrix3d expected =
      (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) *
       Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) *
       Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX()))
          .toRotationMatrix();
  VH_EXPECT((rpy.toRotationMatrix() - expected).norm() < 1e-9, "roll-pitch-yaw",
            roll << " " << pitch << " " << yaw);
  VH_EXPECT(std::abs(Wrap(transform::GetYaw(rpy) - yaw)) < 1e-7, "yaw",
            transform::GetYaw(rpy) << " versus " << yaw);
  // Message forms.
  const Rigid3d copy = transform::ToRigid3(transform::ToProto(a));
  VH_EXPECT(copy.translation() == a.translation() &&
                copy.rotation().coeffs() == a.rotation().coeffs(),
            "rigid3-message", a << " became " << copy);
  const transform::Rigid3f af = a.cast<float>();
  const auto fp = transform::ToProto(af);
  VH_EXPECT(fp.translation().x() == af.translation().x() &&
                fp.translation().y() == af.translation().y() &&
                fp.translation().z() == af.translation().z() &&
                fp.rotation().w() == af.rotation().w() &&
                fp.rotation().x() == af.rotation().x() &&
                fp.rotation().y() == af.rotation().y() &&
                fp.rotation().z() == af.rotation().z(),
            "rigid3f-message", a);
  VH_EXPECT((af.cast<double>().translation() - a.translation()).norm() <=
                1e-6 * scale,
            "cast", a);
  const Eigen::Vector3d v = RandomVector(rng);
  VH_EXPECT(transform::ToEigen(transform::ToProto(v)) == v, "vector-message",
            v.transpose());
  const Eigen::Vector3f vf = v.cast<float>();
  VH_EXPECT(transform::ToEigen(transform::ToProto(vf)) == vf,
            "vectorf-message", v.transpose());
  const Eigen::Vector4f v4(vf.x(), vf.y(), vf.z(), rng.Real(-1., 1.));
  VH_EXPECT(transform::ToEigen(transform::ToProto(v4)) == v4,
            "vector4-message", v4.transpose());
  const Eigen::Vector2d v2 = v.head<2>();
  VH_EXPECT(transform::ToEigen(transform::ToProto(v2)) == v2,
            "vector2-message", v2.transpose());
  VH_EXPECT(transform::ToEigen(transform::ToProto(a.rotation())).coeffs() ==
                a.rotation().coeffs(),
            "quaternion-message", a);
  const auto from = Rigid3d::FromArrays(
      {{a.rotation().w(), a.rotation().x(), a.rotation().y(),
        a.rotation().z()}},
      {{a.translation().x(), a.translation().y(), a.translation().z()}});
  VH_EXPECT(from.translation() == a.translation() &&
                from.rotation().coeffs() == a.rotation().coeffs(),
            "from-arrays", a);
  vh::Count("poses", 3);
  vh::Distinct(vh::Digest().AddD(a.translation().x()).AddD(
      a.rotation().w()).Get());
  vh::Sample(VH_STR("a=" << a << " b=" << b << " a*b=" << a * b));
}

VH_SCENARIO(group2, 30000, 1000000) {
  auto pose = [&]() {
    const double s = std::pow(10., rng.Real(-3., 4.));
    const double angle = rng.Chance(0.2) ? rng.Int(-8, 8) * M_PI_4
                                         : rng.Real(-20., 20.);
    return Rigid2d(Eigen::Vector2d(rng.Real(-s, s), rng.Real(-s, s)), angle);
  };
  const Rigid2d a = pose(), b = pose(), c = pose();
  const Eigen::Vector2d p = pose().translation();
  const double scale = 1. + a.translation().norm() + b.translation().norm() +
                       c.translation().norm() + p.norm();
  auto same = [&](const Rigid2d& x, const Rigid2d& y, const char* key) {
    VH_EXPECT((x.translation() - y.translation()).norm() <= 1e-10 * scale &&
                  std::abs(Wrap(x.rotation().angle() - y.rotation().angle())) <
                      1e-9,
              key, x << " versus " << y);
  };
  same((a * b) * c, a * (b * c), "associativity-2d");
  same(a * a.inverse(), Rigid2d::Identity(), "right-inverse-2d");
  same(a.inverse() * a, Rigid2d::Identity(), "left-inverse-2d");
  const Eigen::Vector2d q = a * p;
  const double th = a.rotation().angle();
  const Eigen::Vector2d ref(
      std::cos(th) * p.x() - std::sin(th) * p.y() + a.translation().x(),
      std::sin(th) * p.x() + std::cos(th) * p.y() + a.translation().y());
  VH_EXPECT((q - ref).norm() <= 1e-10 * scale, "action-2d", a);
  VH_EXPECT(((a * b) * p - a * (b * p)).norm() <= 1e-10 * scale,
            "action-composition-2d", a);
  const double n = a.normalized_angle();
  VH_EXPECT(n >= -M_PI - 1e-12 && n <= M_PI + 1e-12 &&
                std::abs(Wrap(n - th)) < 1e-9,
            "normalized-angle", n << " for " << th);
  // Projection and embedding.
  const Rigid3d e = transform::Embed3D(a);
  same(transform::Project2D(e), a, "project-embed");
  VH_EXPECT(((e * Eigen::Vector3d(p.x(), p.y(), 3.5)) -
             Eigen::Vector3d(q.x(), q.y(), 3.5))
                    .norm() <= 1e-9 * scale,
            "embed-action", a);
  same(transform::Project2D(transform::Embed3D(a) * transform::Embed3D(b)),
       a * b, "embed-homomorphism");
  const Rigid2d copy = transform::ToRigid2(transform::ToProto(a));
  VH_EXPECT(copy.translation() == a.translation() &&
                copy.rotation().angle() == a.rotation().angle(),
            "rigid2-message", a << " became " << copy);
  // Angle helpers.
  const double d = rng.Chance(0.2) ? rng.Int(-6, 6) * M_PI : rng.Real(-30., 30.);
  const double nd = common::NormalizeAngleDifference(d);
  VH_EXPECT(nd >= -M_PI - 1e-12 && nd <= M_PI + 1e-12 &&
                std::abs(Wrap(nd - d)) < 1e-9,
            "normalize-angle", nd << " for " << d);
  VH_EXPECT(std::abs(common::RadToDeg(common::DegToRad(d)) - d) < 1e-9 &&
                std::abs(common::DegToRad(180.) - M_PI) < 1e-12,
            "degrees", d);
  const int lo = rng.Int(-20, 20), hi = lo + rng.Int(0, 20),
            v = rng.Int(-50, 50);
  VH_EXPECT(common::Clamp(v, lo, hi) == std::min(hi, std::max(lo, v)), "clamp",
            v << " in [" << lo << ", " << hi << "]");
  const double x = rng.Real(-1e6, 1e6);
  VH_EXPECT(std::abs(common::RoundToInt(x) - x) <= 0.5 &&
                std::abs(common::RoundToInt64(x) - x) <= 0.5,
            "round", x);
  vh::Distinct(vh::Digest().AddD(a.translation().x()).AddD(th).Get());
}

VH_SCENARIO(time, 20000, 500000) {
  const int64_t ticks =
      rng.Chance(0.3) ? rng.Int(-1000, 1000)
                      : rng.Int(0, int64_t{4} * 1000 * 1000 * 1000 * 1000 *
                                       1000 * 1000 / 4);
  const common::Time t = common::FromUniversal(ticks);
  VH_EXPECT(common::ToUniversal(t) == ticks, "universal-round-trip", ticks);
  VH_EXPECT(VH_STR(t) == std::to_string(ticks), "print", ticks);
  const int64_t ms = rng.Int(-1000000, 1000000);
  VH_EXPECT(common::FromMilliseconds(ms).count() == ms * 10000, "milliseconds",
            ms);
  const double s = rng.Real(-1e5, 1e5);
  VH_EXPECT(std::abs(common::ToSeconds(common::FromSeconds(s)) - s) <= 1.01e-7,
            "seconds", s);
  const int64_t d = rng.Int(-10000000000ll, 10000000000ll);
  VH_EXPECT(std::abs(common::ToSeconds(common::Duration(d)) - d * 1e-7) < 1e-9,
            "ticks-are-100ns", d);
  VH_EXPECT(common::ToUniversal(t + common::Duration(d)) == ticks + d,
            "addition", ticks << "+" << d);
  const Rigid3d pose = RandomPose(rng);
  const auto copy =
      transform::FromProto(transform::ToProto(transform::TimestampedTransform{
          t, pose}));
  VH_EXPECT(copy.time == t && copy.transform.translation() ==
                                  pose.translation() &&
                copy.transform.rotation().coeffs() ==
                    pose.rotation().coeffs(),
            "timestamped-message", ticks);
  vh::Distinct(vh::Digest().Add(ticks).Get());
}

VH_SCENARIO(history, 4000, 100000) {
  struct Entry {
    int64_t time;
    Rigid3d pose;
  };
  std::deque<Entry> model;
  size_t limit = std::numeric_limits<size_t>::max();
  transform::TransformInterpolationBuffer buffer;
  int64_t now = rng.Int(0, 1000) * 10000000ll;
  uint64_t interpolated = 0;
  vh::Digest digest;
  if (rng.Chance(0.2)) {
    cartographer::mapping::proto::Trajectory trajectory;
    const int n = rng.Int(0, 20);
    for (int i = 0; i < n; ++i) {
      now += rng.Int(0, 100);
      const Rigid3d pose = RandomPose(rng);
      auto* node = trajectory.add_node();
      node->set_timestamp(now);
      *node->mutable_pose() = transform::ToProto(pose);
      model.push_back({now, pose});
    }
    buffer = transform::TransformInterpolationBuffer(trajectory);
  }
  const int steps = rng.Int(1, 80);
  for (int step = 0; step < steps; ++step) {
    const int op = rng.Int(0, 19);
    if (op < 12) {
      now += rng.Chance(0.15) ? 0 : rng.Int(1, rng.Chance(0.5) ? 10 : 20000000);
      const Rigid3d pose = RandomPose(rng);
      buffer.Push(common::FromUniversal(now), pose);
      model.push_back({now, pose});
    } else if (op == 12) {
      limit = rng.Int(1, 30);
      buffer.SetSizeLimit(limit);
    } else if (op == 13 && rng.Chance(0.2)) {
      buffer.Clear();
      model.clear();
    }
    while (model.size() > limit) model.pop_front();
    VH_EXPECT(buffer.size() == model.size() && buffer.empty() == model.empty() &&
                  buffer.size_limit() == limit,
              "size", buffer.size() << " versus " << model.size());
    if (model.empty()) {
      VH_EXPECT(!buffer.Has(common::FromUniversal(now)), "empty-has", now);
      continue;
    }
    VH_EXPECT(common::ToUniversal(buffer.earliest_time()) ==
                      model.front().time &&
                  common::ToUniversal(buffer.latest_time()) ==
                      model.back().time,
              "span", model.front().time << ".." << model.back().time);
    for (int q = 0; q < 4; ++q) {
      int64_t t;
      switch (rng.Int(0, 3)) {
        case 0:
          t = model[rng.Int(0, model.size() - 1)].time;
          break;
        case 1:
          t = model[rng.Int(0, model.size() - 1)].time + rng.Int(-2, 2);
          break;
        default:
          t = rng.Int(model.front().time - 5, model.back().time + 5);
      }
      const bool inside = t >= model.front().time && t <= model.back().time;
      VH_EXPECT(buffer.Has(common::FromUniversal(t)) == inside, "has",
                t << " with span " << model.front().time << ".."
                  << model.back().time);
      if (!inside) continue;
      const Rigid3d got = buffer.Lookup(common::FromUniversal(t));
      bool exact = false, matched = false;
      for (const auto& e : model) {
        if (e.time != t) continue;
        exact = true;
        matched |= e.pose.translation() == got.translation() &&
                   e.pose.rotation().coeffs() == got.rotation().coeffs();
      }
      if (exact) {
        VH_EXPECT(matched, "recorded-pose",
                  "lookup at the recorded time " << t << " gave " << got);
        continue;
      }
      size_t i = 0;
      while (model[i + 1].time < t) ++i;
      const Entry &a = model[i], &b = model[i + 1];
      const double f = double(t - a.time) / double(b.time - a.time);
      const Eigen::Vector3d expected =
          a.pose.translation() * (1. - f) + b.pose.translation() * f;
      const double scale =
          1. + a.pose.translation().norm() + b.pose.translation().norm();
      VH_EXPECT((got.translation() - expected).norm() <= 1e-9 * scale,
                "interpolated-position",
                got << " at fraction " << f << " between " << a.pose << " and "
                    << b.pose);
      const double angle = AngleBetween(a.pose.rotation(), b.pose.rotation());
      VH_EXPECT(std::abs(got.rotation().norm() - 1.) < 1e-6,
                "interpolated-norm", got);
      if (angle < M_PI - 0.01) {
        const double a1 = AngleBetween(a.pose.rotation(), got.rotation());
        const double a2 = AngleBetween(got.rotation(), b.pose.rotation());
        VH_EXPECT(std::abs(a1 - f * angle) < 1e-6 &&
                      std::abs(a2 - (1. - f) * angle) < 1e-6,
                  "interpolated-rotation",
                  "fraction " << f << " of " << angle << " rad: " << a1
                              << " + " << a2);
      }
      const auto direct = transform::Interpolate(
          {common::FromUniversal(a.time), a.pose},
          {common::FromUniversal(b.time), b.pose}, common::FromUniversal(t));
      VH_EXPECT(common::ToUniversal(direct.time) == t &&
                    (direct.transform.translation() - expected).norm() <=
                        1e-9 * scale,
                "interpolate", t);
      ++interpolated;
      digest.Add(t).AddD(got.translation().x());
    }
  }
  if (!model.empty() && rng.Chance(0.01)) {
    const int64_t outside =
        rng.Chance(0.5) ? model.front().time - 1 : model.back().time + 1;
    VH_EXPECT(vh::RunForked([&] {
                buffer.Lookup(common::FromUniversal(outside));
              }) == vh::Outcome::kRefused,
              "outside-lookup", "lookup outside the span was not refused");
    VH_EXPECT(vh::RunForked([&] {
                buffer.Push(common::FromUniversal(model.back().time - 1),
                            Rigid3d::Identity());
              }) == vh::Outcome::kRefused,
              "out-of-order-push", "older transform was not refused");
    vh::Count("refusals", 2);
  }
  vh::Count("interpolated_lookups", interpolated);
  if (interpolated > 0) vh::Distinct(digest.Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
