// C16: local scan matching never returns a worse pose than it was given.
#include <array>

#include "cartographer/common/math.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.h"
#include "ceres/ceres.h"
#include "ceres/cubic_interpolation.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
namespace sm = cartographer::mapping::scan_matching;

namespace {

struct Map2D {
  double res;
  Eigen::Vector2d max;
  int nx, ny;
  bool tsdf;
  double truncation = 0.3;
  std::unique_ptr<mapping::Grid2D> grid;
  // Probability, or signed distance and weight, of each cell.
  struct Cell {
    double a = 0., w = 0.;
    bool known = false;
  };
  std::vector<Cell> cells;
  Cell At(int x, int y) const {
    if (x < 0 || y < 0 || x >= nx || y >= ny) {
      Cell c;
      c.a = tsdf ? truncation : 0.1;
      return c;
    }
    return cells[x + y * nx];
  }
};

// Walls of a room plus noise.
std::unique_ptr<Map2D> MakeMap(vh::Rng& rng, bool tsdf, int size) {
  static mapping::ValueConversionTables tables;
  std::unique_ptr<Map2D> m(new Map2D);
  m->tsdf = tsdf;
  m->res = rng.Chance(0.5) ? 0.05 : rng.Real(0.04, 0.3);
  m->truncation = 0.3;
  m->max = Eigen::Vector2d(rng.Real(-3, 3), rng.Real(-3, 3));
  m->nx = rng.Int(size / 3, size);
  m->ny = rng.Int(size / 3, size);
  const mapping::MapLimits limits(m->res, m->max,
                                  mapping::CellLimits(m->nx, m->ny));
  const bool smooth = rng.Chance(0.6);
  const int wx = rng.Int(1, m->nx - 2), wy = rng.Int(1, m->ny - 2);
  const double known = rng.Real(0.5, 1.);
  mapping::ProbabilityGrid* p = nullptr;
  mapping::TSDF2D* t = nullptr;
  if (tsdf) {
    m->grid.reset(t = new mapping::TSDF2D(limits, m->truncation, 10., &tables));
  } else {
    m->grid.reset(p = new mapping::ProbabilityGrid(limits, &tables));
  }
  for (int y = 0; y < m->ny; ++y) {
    for (int x = 0; x < m->nx; ++x) {
      if (!rng.Chance(known)) continue;
      const double d =
          m->res * std::min(std::abs(x - wx), std::abs(y - wy));
      if (tsdf) {
        const double v = smooth ? (x > wx ? d : -d) : rng.Real(-.3, .3);
        t->SetCell({x, y}, v, rng.Real(0.1, 9.));
      } else {
        const double v =
            smooth ? 0.9 * std::exp(-d / (2 * m->res)) : rng.Real(0.1, 0.9);
        p->SetProbability({x, y}, std::max(0.1, v));
      }
    }
  }
  if (tsdf) t->FinishUpdate();
  m->cells.resize(m->nx * m->ny);
  for (int y = 0; y < m->ny; ++y) {
    for (int x = 0; x < m->nx; ++x) {
      auto& c = m->cells[x + y * m->nx];
      c.known = m->grid->IsKnown({x, y});
      if (tsdf) {
        c.a = c.known ? t->GetTSD({x, y}) : m->truncation;
        c.w = c.known ? t->GetWeight({x, y}) : 0.;
      } else {
        c.a = c.known ? p->GetProbability({x, y}) : 0.1;
      }
    }
  }
  return m;
}

sensor::PointCloud MakeScan(vh::Rng& rng, const Map2D& m,
                            const transform::Rigid2d& pose, int n,
                            std::vector<Eigen::Vector2d>* scan) {
  std::vector<sensor::RangefinderPoint> points;
  for (int k = 0; k < n; ++k) {
    const Eigen::Vector2d w(m.max.x() - m.res * m.ny * rng.Real(-.05, 1.05),
                            m.max.y() - m.res * m.nx * rng.Real(-.05, 1.05));
    const Eigen::Vector2d q = pose.inverse() * w;
    const Eigen::Vector3f f(q.x(), q.y(), rng.Real(-.2, .2));
    points.push_back({f});
    scan->push_back(f.head<2>().cast<double>());
  }
  return sensor::PointCloud(points);
}

transform::Rigid2d RandomPose2D(vh::Rng& rng, const Map2D& m) {
  return transform::Rigid2d(
      Eigen::Vector2d(m.max.x() - m.res * m.ny * rng.Unit(),
                      m.max.y() - m.res * m.nx * rng.Unit()),
      rng.Real(-3.1, 3.1));
}

void RunRealTime2D(vh::Rng& rng, bool tsdf) {
  const auto m = MakeMap(rng, tsdf, 40);
  const transform::Rigid2d initial = RandomPose2D(rng, *m);
  std::vector<Eigen::Vector2d> scan;
  const transform::Rigid2d offset(
      m->res * Eigen::Vector2d(rng.Real(-4, 4), rng.Real(-4, 4)),
      rng.Real(-.2, .2));
  const sensor::PointCloud cloud =
      MakeScan(rng, *m, initial * offset, rng.Int(1, 20), &scan);
  const int linear = rng.Int(1, 6);
  const double angular_window = rng.Real(0.01, 0.3);
  const double wt = rng.Chance(0.2) ? 0. : rng.Real(0., 3.);
  const double wr = rng.Chance(0.2) ? 0. : rng.Real(0., 3.);
  sm::proto::RealTimeCorrelativeScanMatcherOptions options;
  options.set_linear_search_window((linear - rng.Real(0.1, 0.9)) * m->res);
  options.set_angular_search_window(angular_window);
  options.set_translation_delta_cost_weight(wt);
  options.set_rotation_delta_cost_weight(wr);

  double range = 3. * m->res;
  for (const auto& p : scan) range = std::max(range, p.norm());
  const double step =
      0.999 * std::acos(1. - m->res * m->res / (2. * range * range));
  const double ratio = angular_window / step;
  if (std::abs(ratio - std::round(ratio)) < 2e-3) return;
  const int angles = std::ceil(ratio);

  struct Score {
    double lo, hi;
  };
  auto score_of = [&](int a, int dx, int dy) {
    // Translation by dx, dy cells, rotation by a steps.
    const Eigen::Rotation2Dd r(initial.rotation().angle() + a * step);
    // Numerator and weight sums; in doubt, both extremes.
    double num_lo = 0, num_hi = 0, w_lo = 0, w_hi = 0;
    bool doubt = false;
    for (const auto& p : scan) {
      const Eigen::Vector2d q = r * p + initial.translation();
      const double fx = (m->max.y() - q.y()) / m->res - 0.5;
      const double fy = (m->max.x() - q.x()) / m->res - 0.5;
      double lo = 1e9, hi = -1e9;
      double wlo = 1e9, whi = -1e9;
      for (int i = -1; i <= 1; i += 2) {
        for (int j = -1; j <= 1; j += 2) {
          const auto c = m->At(std::lround(fx + i * 2e-3) - dy,
                               std::lround(fy + j * 2e-3) - dx);
          const double v =
              tsdf ? (m->truncation - std::abs(c.a)) / m->truncation * c.w
                   : c.a;
          const double w = tsdf ? c.w : 1.;
          lo = std::min(lo, v);
          hi = std::max(hi, v);
          wlo = std::min(wlo, w);
          whi = std::max(whi, w);
        }
      }
      if (lo != hi || wlo != whi) doubt = true;
      num_lo += lo;
      num_hi += hi;
      w_lo += wlo;
      w_hi += whi;
    }
    Score s;
    if (doubt && tsdf) {
      s = {0., 1.};
    } else {
      s.lo = w_lo > 0. ? num_lo / w_lo : 0.;
      s.hi = w_hi > 0. ? num_hi / w_hi : 0.;
    }
    const double cost =
        std::hypot(dx, dy) * m->res * wt + std::abs(a) * step * wr;
    const double f = std::exp(-cost * cost);
    return Score{s.lo * f, s.hi * f};
  };
  double best_lo = -1., best_hi = -1.;
  for (int a = -angles; a <= angles; ++a) {
    for (int dx = -linear; dx <= linear; ++dx) {
      for (int dy = -linear; dy <= linear; ++dy) {
        const Score s = score_of(a, dx, dy);
        best_lo = std::max(best_lo, s.lo);
        best_hi = std::max(best_hi, s.hi);
      }
    }
  }
  transform::Rigid2d pose({77., 78.}, 9.);
  const sm::RealTimeCorrelativeScanMatcher2D matcher(options);
  const double score = matcher.Match(initial, cloud, *m->grid, &pose);
  vh::Count("real_time_2d");
  auto describe = [&]() {
    return VH_STR((tsdf ? "tsdf" : "probability")
                  << " grid " << m->nx << "x" << m->ny << " points "
                  << scan.size() << " linear " << linear << " angles "
                  << angles << " score " << score << " best in [" << best_lo
                  << "," << best_hi << "]");
  };
  VH_EXPECT(score > best_lo - 1e-4 && score < best_hi + 1e-4,
            "real-time-2d-best", describe());
  const Eigen::Vector2d d =
      (pose.translation() - initial.translation()) / m->res;
  const double da = cartographer::common::NormalizeAngleDifference(
                        pose.rotation().angle() - initial.rotation().angle()) /
                    step;
  const int dx = std::lround(d.x()), dy = std::lround(d.y()),
            a = std::lround(da);
  VH_EXPECT((d - Eigen::Vector2d(dx, dy)).norm() < 1e-3 &&
                std::abs(da - a) < 1e-2,
            "real-time-2d-lattice", describe() << " " << d << " " << da);
  VH_EXPECT(std::abs(dx) <= linear && std::abs(dy) <= linear &&
                std::abs(a) <= angles,
            "real-time-2d-window", describe());
  const Score s = score_of(a, dx, dy);
  VH_EXPECT(score > s.lo - 1e-4 && score < s.hi + 1e-4, "real-time-2d-score",
            describe() << " pose scores [" << s.lo << "," << s.hi << "]");
  const Score at_start = score_of(0, 0, 0);
  VH_EXPECT(score > at_start.lo - 1e-4, "real-time-2d-worse", describe());
  if (a != 0 || dx != 0 || dy != 0) {
    vh::Distinct(vh::Digest().AddD(score).Add(a).Add(dx).Add(dy).Get());
  }
}

// 2D refinement.

struct CostGrid {
  enum { DATA_DIMENSION = 1 };
  const Map2D& m;
  void GetValue(int row, int column, double* value) const {
    const auto c = m.At(column, row);
    *value = c.known ? 1. - c.a : 0.9;
  }
};

double ProbabilityCost(const Map2D& m, const std::vector<Eigen::Vector2d>& scan,
                       const Eigen::Vector3d& pose, double weight) {
  const CostGrid grid{m};
  ceres::BiCubicInterpolator<CostGrid> interpolator(grid);
  double sum = 0.;
  const Eigen::Rotation2Dd r(pose[2]);
  for (const auto& p : scan) {
    const Eigen::Vector2d w = r * p + pose.head<2>();
    double v;
    interpolator.Evaluate((m.max.x() - w.x()) / m.res - 0.5,
                          (m.max.y() - w.y()) / m.res - 0.5, &v);
    sum += v * v;
  }
  return 0.5 * weight * weight * sum / scan.size();
}

// Returns a negative number if no point has weight.
double TsdfCost(const Map2D& m, const std::vector<Eigen::Vector2d>& scan,
                const Eigen::Vector3d& pose, double weight) {
  const Eigen::Rotation2Dd r(pose[2]);
  std::vector<double> residuals;
  double summed = 0.;
  for (const auto& p : scan) {
    const Eigen::Vector2d w = r * p + pose.head<2>();
    const double fy = (m.max.x() - w.x()) / m.res - 0.5;
    const double fx = (m.max.y() - w.y()) / m.res - 0.5;
    const int x = std::floor(fx), y = std::floor(fy);
    const double u = fx - x, v = fy - y;
    auto bilinear = [&](std::function<double(const Map2D::Cell&)> get) {
      return (1 - u) * (1 - v) * get(m.At(x, y)) +
             u * (1 - v) * get(m.At(x + 1, y)) +
             (1 - u) * v * get(m.At(x, y + 1)) +
             u * v * get(m.At(x + 1, y + 1));
    };
    const double weight_here =
        bilinear([](const Map2D::Cell& c) { return c.w; });
    bool all = true;
    for (int i = 0; i < 2; ++i) {
      for (int j = 0; j < 2; ++j) all = all && m.At(x + i, y + j).w > 0.;
    }
    const double cost =
        all ? bilinear([](const Map2D::Cell& c) { return c.a; }) : m.truncation;
    residuals.push_back(cost * weight_here);
    summed += weight_here;
  }
  if (summed <= 1e-9) return -1.;
  double sum = 0.;
  const double n = scan.size();
  for (double v : residuals) {
    const double s = n * weight / std::sqrt(n) * v / summed;
    sum += s * s;
  }
  return 0.5 * sum;
}

void RunCeres2D(vh::Rng& rng, bool tsdf) {
  const auto m = MakeMap(rng, tsdf, 60);
  const transform::Rigid2d initial = RandomPose2D(rng, *m);
  std::vector<Eigen::Vector2d> scan;
  const sensor::PointCloud cloud = MakeScan(
      rng, *m,
      initial * transform::Rigid2d(m->res * Eigen::Vector2d(rng.Real(-2, 2),
                                                            rng.Real(-2, 2)),
                                   rng.Real(-.1, .1)),
      rng.Int(1, 40), &scan);
  const double ws = rng.Real(0.2, 20.), wt = rng.Real(0.1, 10.),
               wr = rng.Real(0.1, 40.);
  const Eigen::Vector2d target =
      initial.translation() +
      (rng.Chance(0.5) ? 0. : 1.) * m->res *
          Eigen::Vector2d(rng.Real(-3, 3), rng.Real(-3, 3));
  sm::proto::CeresScanMatcherOptions2D options;
  options.set_occupied_space_weight(ws);
  options.set_translation_weight(wt);
  options.set_rotation_weight(wr);
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(
      rng.Chance(0.3));
  options.mutable_ceres_solver_options()->set_max_num_iterations(
      rng.Int(1, 50));
  options.mutable_ceres_solver_options()->set_num_threads(1);
  const sm::CeresScanMatcher2D matcher(options);
  transform::Rigid2d pose({55., 66.}, 0.77);
  ceres::Solver::Summary summary;
  matcher.Match(target, initial, cloud, *m->grid, &pose, &summary);
  vh::Count("refinements_2d");
  const Eigen::Vector3d start(initial.translation().x(),
                              initial.translation().y(),
                              initial.rotation().angle());
  // As near to the initial angle as the same rotation allows.
  const Eigen::Vector3d end(
      pose.translation().x(), pose.translation().y(),
      start[2] + cartographer::common::NormalizeAngleDifference(
                     pose.rotation().angle() - start[2]));
  VH_EXPECT(end.allFinite(), "ceres-2d-finite", end.transpose());
  // Negative when the cost is undefined or changes within rounding.
  auto cost = [&](const Eigen::Vector3d& p) {
    double lo = 1e300, hi = -1e300;
    for (int i = 0; i < (tsdf ? 5 : 1); ++i) {
      Eigen::Vector3d q = p;
      if (i > 0) {
        q[0] += 2e-4 * m->res * (i % 2 ? 1 : -1);
        q[1] += 2e-4 * m->res * (i / 3 ? 1 : -1);
      }
      const double c = tsdf ? TsdfCost(*m, scan, q, ws)
                            : ProbabilityCost(*m, scan, q, ws);
      lo = std::min(lo, c);
      hi = std::max(hi, c);
    }
    if (lo < 0. || hi - lo > 5e-3 * (1e-3 + hi)) return -1.;
    return lo + 0.5 * wt * wt * (p.head<2>() - target).squaredNorm() +
           0.5 * wr * wr * std::pow(p[2] - start[2], 2);
  };
  const double before = cost(start), after = cost(end);
  auto describe = [&]() {
    return VH_STR((tsdf ? "tsdf" : "probability")
                  << " points " << scan.size() << " cost before " << before
                  << " after " << after << " solver " << summary.initial_cost
                  << " -> " << summary.final_cost << " moved "
                  << (end - start).transpose());
  };
  const bool usable = summary.termination_type != ceres::FAILURE;
  if (!usable) {
    VH_EXPECT((end - start).norm() < 1e-9, "ceres-2d-failed-moved",
              describe());
    VH_EXPECT(tsdf && before < 0., "ceres-2d-failure", describe());
    vh::Count("undefined_cost");
    return;
  }
  const double tol = tsdf ? 1e-2 : 1e-4;
  if (before >= 0.) {
    VH_EXPECT(std::abs(summary.initial_cost - before) <= tol * (1e-2 + before),
              "ceres-2d-initial-cost", describe());
  }
  if (after >= 0.) {
    VH_EXPECT(std::abs(summary.final_cost - after) <= tol * (1e-2 + after),
              "ceres-2d-final-cost", describe());
  }
  VH_EXPECT(summary.final_cost <= summary.initial_cost * (1. + 1e-9) + 1e-12,
            "ceres-2d-worse", describe());
  if (before >= 0. && after >= 0.) {
    VH_EXPECT(after <= before + tol * (1e-2 + before), "ceres-2d-cost",
              describe());
    if (after < 0.99 * before) {
      vh::Distinct(vh::Digest().AddD(after).AddD(before).Get());
    }
  }
}

// 3D.

transform::Rigid3d RandomPose3D(vh::Rng& rng, double size, double tilt) {
  return transform::Rigid3d(
      size * Eigen::Vector3d(rng.Real(-1, 1), rng.Real(-1, 1),
                             rng.Real(-1, 1)),
      Eigen::AngleAxisd(rng.Real(-3.1, 3.1), Eigen::Vector3d::UnitZ()) *
          Eigen::AngleAxisd(rng.Real(-tilt, tilt), Eigen::Vector3d::UnitX()));
}

struct Map3D {
  std::unique_ptr<mapping::HybridGrid> grid;
  std::unique_ptr<mapping::IntensityHybridGrid> intensity;
  double res;
  int extent;
};

Map3D MakeMap3D(vh::Rng& rng, double res) {
  Map3D m;
  m.res = static_cast<float>(res);
  m.grid.reset(new mapping::HybridGrid(m.res));
  m.intensity.reset(new mapping::IntensityHybridGrid(m.res));
  m.extent = rng.Int(3, 9);
  const bool smooth = rng.Chance(0.6);
  const int w[3] = {static_cast<int>(rng.Int(-2, 2)),
                    static_cast<int>(rng.Int(-2, 2)),
                    static_cast<int>(rng.Int(-2, 2))};
  for (int z = -m.extent; z <= m.extent; ++z) {
    for (int y = -m.extent; y <= m.extent; ++y) {
      for (int x = -m.extent; x <= m.extent; ++x) {
        if (rng.Chance(0.2)) continue;
        const int d = std::min(std::abs(x - w[0]),
                               std::min(std::abs(y - w[1]),
                                        std::abs(z - w[2])));
        m.grid->SetProbability({x, y, z},
                               smooth ? 0.9 * std::exp(-0.5 * d)
                                      : rng.Real(0.1, 0.9));
        if (rng.Chance(0.7)) {
          m.intensity->AddIntensity({x, y, z}, rng.Real(0., 50.));
        }
      }
    }
  }
  return m;
}

sensor::PointCloud MakeScan3D(vh::Rng& rng, const Map3D& m,
                              const transform::Rigid3d& pose, int n,
                              std::vector<Eigen::Vector3d>* scan,
                              std::vector<double>* values) {
  std::vector<sensor::RangefinderPoint> points;
  std::vector<float> intensities;
  for (int k = 0; k < n; ++k) {
    const double e = m.res * m.extent * 1.1;
    const Eigen::Vector3d w(rng.Real(-e, e), rng.Real(-e, e), rng.Real(-e, e));
    const Eigen::Vector3f f = (pose.inverse() * w).cast<float>();
    points.push_back({f});
    scan->push_back(f.cast<double>());
    intensities.push_back(rng.Real(0., 60.));
    values->push_back(intensities.back());
  }
  return sensor::PointCloud(points, intensities);
}

}  // namespace

VH_SCENARIO(real_time_2d, 400, 8000) { RunRealTime2D(rng, false); }
VH_SCENARIO(real_time_tsdf, 300, 6000) { RunRealTime2D(rng, true); }
VH_SCENARIO(ceres_2d, 600, 12000) { RunCeres2D(rng, false); }
VH_SCENARIO(ceres_tsdf, 600, 12000) { RunCeres2D(rng, true); }

VH_SCENARIO(real_time_3d, 160, 3000) {
  const Map3D m = MakeMap3D(rng, rng.Real(0.05, 0.4));
  const transform::Rigid3d initial = RandomPose3D(rng, m.res * 3, 0.2);
  std::vector<Eigen::Vector3d> scan;
  std::vector<double> values;
  const sensor::PointCloud cloud = MakeScan3D(
      rng, m,
      initial * transform::Rigid3d(m.res * Eigen::Vector3d(rng.Real(-1, 1),
                                                           rng.Real(-1, 1),
                                                           rng.Real(-1, 1)),
                                   Eigen::Quaterniond::Identity()),
      rng.Int(1, 8), &scan, &values);
  const int linear = rng.Int(0, 2);
  const double angular_window = rng.Real(0.0, 0.12);
  const double wt = rng.Real(0., 2.), wr = rng.Real(0., 2.);
  sm::proto::RealTimeCorrelativeScanMatcherOptions options;
  options.set_linear_search_window(m.res * (linear + rng.Real(-.4, .4)));
  options.set_angular_search_window(angular_window);
  options.set_translation_delta_cost_weight(wt);
  options.set_rotation_delta_cost_weight(wr);
  double range = 3. * m.res;
  for (const auto& p : scan) range = std::max(range, p.norm());
  const double step =
      0.999 * std::acos(1. - m.res * m.res / (2. * range * range));
  const double ratio = angular_window / step;
  if (std::abs(ratio - std::floor(ratio) - 0.5) < 5e-3) return;
  const int angles = std::lround(ratio);
  if (angles > 2) return;

  struct Score {
    double lo, hi;
  };
  auto candidate = [&](int x, int y, int z, int rx, int ry, int rz) {
    const Eigen::Vector3d v = step * Eigen::Vector3d(rx, ry, rz);
    const double a = v.norm();
    return transform::Rigid3d(
        m.res * Eigen::Vector3d(x, y, z),
        a > 0. ? Eigen::Quaterniond(Eigen::AngleAxisd(a, v / a))
               : Eigen::Quaterniond::Identity());
  };
  auto score_of = [&](const transform::Rigid3d& t) {
    const transform::Rigid3d pose = initial * t;
    Score s{0., 0.};
    for (const auto& p : scan) {
      const Eigen::Vector3d q = pose * p / m.res;
      double lo = 1., hi = 0.;
      for (int i = 0; i < 8; ++i) {
        const Eigen::Array3i c(std::lround(q.x() + (i & 1 ? 2e-3 : -2e-3)),
                               std::lround(q.y() + (i & 2 ? 2e-3 : -2e-3)),
                               std::lround(q.z() + (i & 4 ? 2e-3 : -2e-3)));
        const double v = m.grid->IsKnown(c) ? m.grid->GetProbability(c) : 0.1;
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
      s.lo += lo / scan.size();
      s.hi += hi / scan.size();
    }
    const double angle =
        t.rotation().angularDistance(Eigen::Quaterniond::Identity());
    const double cost = t.translation().norm() * wt + angle * wr;
    const double f = std::exp(-cost * cost);
    return Score{s.lo * f, s.hi * f};
  };
  double best_lo = -1., best_hi = -1.;
  uint64_t n = 0;
  for (int x = -linear; x <= linear; ++x)
    for (int y = -linear; y <= linear; ++y)
      for (int z = -linear; z <= linear; ++z)
        for (int a = -angles; a <= angles; ++a)
          for (int b = -angles; b <= angles; ++b)
            for (int c = -angles; c <= angles; ++c) {
              const Score s = score_of(candidate(x, y, z, a, b, c));
              best_lo = std::max(best_lo, s.lo);
              best_hi = std::max(best_hi, s.hi);
              ++n;
            }
  transform::Rigid3d pose;
  const double score = sm::RealTimeCorrelativeScanMatcher3D(options).Match(
      initial, cloud, *m.grid, &pose);
  vh::Count("real_time_3d");
  vh::Count("candidates_3d", n);
  auto describe = [&]() {
    return VH_STR("points " << scan.size() << " linear " << linear
                            << " angles " << angles << " score " << score
                            << " best in [" << best_lo << "," << best_hi
                            << "]");
  };
  VH_EXPECT(score > best_lo - 1e-4 && score < best_hi + 1e-4,
            "real-time-3d-best", describe());
  const transform::Rigid3d delta = initial.inverse() * pose;
  const Eigen::AngleAxisd aa(delta.rotation().normalized());
  double angle = aa.angle();
  Eigen::Vector3d v = aa.axis() * angle;
  if (angle > M_PI) v = aa.axis() * (angle - 2 * M_PI);
  v /= step;
  const Eigen::Vector3d d = delta.translation() / m.res;
  const Eigen::Vector3d dr(std::round(d.x()), std::round(d.y()),
                           std::round(d.z()));
  const Eigen::Vector3d vr(std::round(v.x()), std::round(v.y()),
                           std::round(v.z()));
  VH_EXPECT((d - dr).norm() < 1e-2 && (v - vr).norm() < 5e-2,
            "real-time-3d-lattice",
            describe() << " " << d.transpose() << " " << v.transpose());
  VH_EXPECT(dr.lpNorm<Eigen::Infinity>() <= linear &&
                vr.lpNorm<Eigen::Infinity>() <= angles,
            "real-time-3d-window",
            describe() << " " << d.transpose() << " " << v.transpose());
  const Score s = score_of(
      candidate(dr.x(), dr.y(), dr.z(), vr.x(), vr.y(), vr.z()));
  VH_EXPECT(score > s.lo - 1e-4 && score < s.hi + 1e-4, "real-time-3d-score",
            describe() << " pose scores [" << s.lo << "," << s.hi << "]");
  if (dr.norm() + vr.norm() > 0.) {
    vh::Distinct(vh::Digest().AddD(score).Add(n).Get());
  }
}

VH_SCENARIO(ceres_3d, 300, 6000) {
  const Map3D high = MakeMap3D(rng, rng.Real(0.05, 0.4));
  const Map3D low = MakeMap3D(rng, rng.Real(0.2, 0.6));
  const transform::Rigid3d initial = RandomPose3D(rng, high.res * 3, 0.3);
  const bool both = rng.Chance(0.7), with_intensity = rng.Chance(0.4);
  struct Part {
    const Map3D* map;
    std::vector<Eigen::Vector3d> scan;
    std::vector<double> values;
    sensor::PointCloud cloud;
    double weight;
    bool intensity;
    double intensity_weight, huber, threshold;
  };
  std::vector<Part> parts(both ? 2 : 1);
  sm::proto::CeresScanMatcherOptions3D options;
  std::vector<sm::PointCloudAndHybridGridsPointers> pointers;
  for (size_t i = 0; i < parts.size(); ++i) {
    Part& p = parts[i];
    p.map = i == 0 ? &high : &low;
    p.cloud = MakeScan3D(rng, *p.map, initial, rng.Int(1, 30), &p.scan,
                         &p.values);
    p.weight = rng.Real(0.5, 10.);
    p.intensity = i == 0 && with_intensity;
    p.intensity_weight = rng.Real(0.05, 1.);
    p.huber = rng.Real(0.1, 5.);
    p.threshold = rng.Real(20., 50.);
    options.add_occupied_space_weight(p.weight);
    auto* o = options.add_intensity_cost_function_options();
    o->set_weight(p.intensity_weight);
    o->set_huber_scale(p.huber);
    o->set_intensity_threshold(p.threshold);
  }
  for (auto& p : parts) {
    pointers.push_back({&p.cloud, p.map->grid.get(),
                        p.intensity ? p.map->intensity.get() : nullptr});
  }
  const double wt = rng.Real(0.1, 10.), wr = rng.Real(0.1, 40.);
  const bool yaw_only = rng.Chance(0.4);
  options.set_translation_weight(wt);
  options.set_rotation_weight(wr);
  options.set_only_optimize_yaw(yaw_only);
  options.mutable_ceres_solver_options()->set_use_nonmonotonic_steps(
      rng.Chance(0.3));
  options.mutable_ceres_solver_options()->set_max_num_iterations(
      rng.Int(1, 30));
  options.mutable_ceres_solver_options()->set_num_threads(1);
  const Eigen::Vector3d target =
      initial.translation() +
      (rng.Chance(0.5) ? 0. : 1.) * high.res *
          Eigen::Vector3d(rng.Real(-2, 2), rng.Real(-2, 2), rng.Real(-2, 2));
  transform::Rigid3d pose;
  ceres::Solver::Summary summary;
  sm::CeresScanMatcher3D(options).Match(target, initial, pointers, &pose,
                                        &summary);
  vh::Count("refinements_3d");
  VH_EXPECT(pose.translation().allFinite() &&
                pose.rotation().coeffs().allFinite() &&
                std::abs(pose.rotation().norm() - 1.) < 1e-6,
            "ceres-3d-finite", pose);
  auto interpolate = [](const Eigen::Vector3d& p, double res,
                        std::function<double(const Eigen::Array3i&)> get) {
    const Eigen::Vector3d f = p / res;
    int base[3];
    double s[3];
    for (int d = 0; d < 3; ++d) {
      base[d] = std::floor(f[d]);
      const double t = f[d] - base[d];
      s[d] = t * t * (3. - 2. * t);
    }
    double sum = 0.;
    for (int i = 0; i < 8; ++i) {
      double w = 1.;
      Eigen::Array3i c;
      for (int d = 0; d < 3; ++d) {
        const int bit = (i >> d) & 1;
        w *= bit ? s[d] : 1. - s[d];
        c[d] = base[d] + bit;
      }
      sum += w * get(c);
    }
    return sum;
  };
  auto cost = [&](const transform::Rigid3d& t) {
    double total = 0.;
    for (const Part& p : parts) {
      double sum = 0., isum = 0.;
      const double n = p.scan.size();
      for (size_t k = 0; k < p.scan.size(); ++k) {
        const Eigen::Vector3d w = t * p.scan[k];
        const double v = 1. - interpolate(w, p.map->res,
                                          [&](const Eigen::Array3i& c) {
                                            return p.map->grid->IsKnown(c)
                                                       ? p.map->grid
                                                             ->GetProbability(c)
                                                       : 0.1;
                                          });
        sum += v * v;
        if (p.intensity && p.values[k] <= p.threshold) {
          const double e =
              interpolate(w, p.map->res, [&](const Eigen::Array3i& c) {
                return p.map->intensity->GetIntensity(c);
              }) - p.values[k];
          isum += e * e;
        }
      }
      total += 0.5 * p.weight * p.weight * sum / n;
      if (p.intensity) {
        const double s = p.intensity_weight * p.intensity_weight * isum / n;
        total += 0.5 * (s <= p.huber * p.huber
                            ? s
                            : 2. * p.huber * std::sqrt(s) - p.huber * p.huber);
      }
    }
    total += 0.5 * wt * wt * (t.translation() - target).squaredNorm();
    const double half =
        0.5 * initial.rotation().angularDistance(t.rotation());
    total += 0.5 * wr * wr * std::sin(half) * std::sin(half);
    return total;
  };
  const double before = cost(initial), after = cost(pose);
  auto describe = [&]() {
    return VH_STR("cost before " << before << " after " << after << " solver "
                                 << summary.initial_cost << " -> "
                                 << summary.final_cost << " intensity "
                                 << with_intensity << " yaw only "
                                 << yaw_only);
  };
  VH_EXPECT(summary.termination_type != ceres::FAILURE, "ceres-3d-failure",
            describe());
  VH_EXPECT(std::abs(summary.initial_cost - before) < 1e-3 * (1e-2 + before),
            "ceres-3d-initial-cost", describe());
  VH_EXPECT(std::abs(summary.final_cost - after) < 1e-3 * (1e-2 + after),
            "ceres-3d-final-cost", describe());
  VH_EXPECT(after <= before + 1e-3 * (1e-2 + before) &&
                summary.final_cost <=
                    summary.initial_cost * (1. + 1e-9) + 1e-12,
            "ceres-3d-worse", describe());
  if (yaw_only) {
    // The direction of gravity does not change.
    const Eigen::Vector3d a =
        initial.rotation().inverse() * Eigen::Vector3d::UnitZ();
    const Eigen::Vector3d b =
        pose.rotation().inverse() * Eigen::Vector3d::UnitZ();
    VH_EXPECT((a - b).norm() < 1e-6, "ceres-3d-yaw-only", describe());
  }
  if (after < 0.99 * before) {
    vh::Distinct(vh::Digest().AddD(after).AddD(before).Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
