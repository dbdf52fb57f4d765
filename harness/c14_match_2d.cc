// C14: 2D branch-and-bound matching finds the best pose of its search window.
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
namespace sm = cartographer::mapping::scan_matching;

namespace {

// Bounds of a cell's score in steps; equal unless rounding is in doubt.
struct Steps {
  int lo = 0, hi = 0;
};

struct Map {
  double res;
  Eigen::Vector2d max;
  int nx, ny;  // cells along the grid's x and y index
  std::unique_ptr<mapping::Grid2D> grid;
  double min_score, max_score;
  std::vector<Steps> steps;

  Steps At(int x, int y) const {
    if (x < 0 || y < 0 || x >= nx || y >= ny) return {};
    return steps[x + y * nx];
  }
  double Score(double mean_steps) const {
    return min_score + mean_steps * (max_score - min_score) / 255.;
  }
};

std::unique_ptr<Map> MakeMap(vh::Rng& rng, bool tsdf, int size) {
  static mapping::ValueConversionTables tables;
  auto m = std::unique_ptr<Map>(new Map);
  m->res = rng.Chance(0.5) ? 0.05 : rng.Real(0.03, 0.5);
  m->max = Eigen::Vector2d(rng.Real(-10, 10), rng.Real(-10, 10)) * m->res * 3;
  m->nx = rng.Int(1, size);
  m->ny = rng.Int(1, size);
  const mapping::MapLimits limits(m->res, m->max,
                                  mapping::CellLimits(m->nx, m->ny));
  const double truncation = 0.3;
  const double density = rng.Real(0.05, 0.9);
  auto fill = [&](std::function<void(Eigen::Array2i, double)> set) {
    // Isolated cells and walls.
    for (int y = 0; y < m->ny; ++y) {
      for (int x = 0; x < m->nx; ++x) {
        if (rng.Chance(density)) {
          set({x, y}, rng.Chance(0.8) ? rng.Real(0., .4) : rng.Real(.4, 1.));
        }
      }
    }
    for (int w = rng.Int(0, 3); w > 0; --w) {
      const bool along_x = rng.Chance(0.5);
      const int at = rng.Int(0, (along_x ? m->ny : m->nx) - 1);
      for (int k = 0; k < (along_x ? m->nx : m->ny); ++k) {
        set(along_x ? Eigen::Array2i(k, at) : Eigen::Array2i(at, k),
            rng.Real(0.8, 1.));
      }
    }
  };
  std::map<std::pair<int, int>, double> score;
  if (tsdf) {
    auto* g = new mapping::TSDF2D(limits, truncation, 10., &tables);
    m->grid.reset(g);
    std::map<std::pair<int, int>, double> values;
    fill([&](Eigen::Array2i i, double v) { values[{i.x(), i.y()}] = v; });
    for (const auto& e : values) {
      g->SetCell({e.first.first, e.first.second},
                 (rng.Chance(0.5) ? 1 : -1) * truncation * (1. - e.second),
                 rng.Real(0.5, 9.));
    }
    g->FinishUpdate();
    m->min_score = 1. - truncation;
    m->max_score = 1. + truncation;
    for (int y = 0; y < m->ny; ++y) {
      for (int x = 0; x < m->nx; ++x) {
        score[{x, y}] = g->IsKnown({x, y}) ? 1. - std::abs(g->GetTSD({x, y}))
                                           : m->min_score;
      }
    }
  } else {
    auto* g = new mapping::ProbabilityGrid(limits, &tables);
    m->grid.reset(g);
    std::map<std::pair<int, int>, double> values;
    fill([&](Eigen::Array2i i, double v) { values[{i.x(), i.y()}] = v; });
    for (const auto& e : values) {
      g->SetProbability({e.first.first, e.first.second}, 0.1 + 0.8 * e.second);
    }
    m->min_score = 0.1;
    m->max_score = 0.9;
    for (int y = 0; y < m->ny; ++y) {
      for (int x = 0; x < m->nx; ++x) {
        score[{x, y}] = g->IsKnown({x, y}) ? g->GetProbability({x, y}) : 0.1;
      }
    }
  }
  m->steps.resize(m->nx * m->ny);
  for (const auto& e : score) {
    const double s =
        (e.second - m->min_score) * 255. / (m->max_score - m->min_score);
    m->steps[e.first.first + e.first.second * m->nx] = {
        static_cast<int>(std::lround(s - 2e-3)),
        static_cast<int>(std::lround(s + 2e-3))};
  }
  return m;
}

// Cells of one rotated and translated point; more than one when rounding is
// in doubt.
struct PointCells {
  int x[2], y[2];
  int n_x = 1, n_y = 1;
};

PointCells CellsOf(const Map& m, double px, double py) {
  PointCells c;
  // Cell index x runs along -y and vice versa.
  const double fx = (m.max.y() - py) / m.res - 0.5;
  const double fy = (m.max.x() - px) / m.res - 0.5;
  const double eps = 2e-3;
  c.x[0] = std::lround(fx - eps);
  c.x[1] = std::lround(fx + eps);
  c.y[0] = std::lround(fy - eps);
  c.y[1] = std::lround(fy + eps);
  c.n_x = c.x[0] == c.x[1] ? 1 : 2;
  c.n_y = c.y[0] == c.y[1] ? 1 : 2;
  return c;
}

struct Lattice {
  double step = 0.;
  int angles = 0;  // -angles .. angles
  int linear = 0;
  Eigen::Vector2d center;
  double heading = 0.;
  std::vector<std::vector<PointCells>> scans;
};

Lattice MakeLattice(const Map& m, const std::vector<Eigen::Vector2d>& scan,
                    const Eigen::Vector2d& center, double heading,
                    double angular_window, int linear) {
  Lattice l;
  double range = 3. * m.res;
  for (const auto& p : scan) range = std::max(range, p.norm());
  l.step = (1. - 1e-3) *
           std::acos(1. - m.res * m.res / (2. * range * range));
  l.angles = std::ceil(angular_window / l.step);
  l.linear = linear;
  l.center = center;
  l.heading = heading;
  for (int a = -l.angles; a <= l.angles; ++a) {
    const Eigen::Rotation2Dd r(heading + a * l.step);
    l.scans.emplace_back();
    for (const auto& p : scan) {
      const Eigen::Vector2d q = r * p + center;
      l.scans.back().push_back(CellsOf(m, q.x(), q.y()));
    }
  }
  return l;
}

std::pair<double, double> ScoreBounds(const Map& m, const Lattice& l, int a,
                                      int ox, int oy) {
  int lo = 0, hi = 0;
  for (const PointCells& c : l.scans[a + l.angles]) {
    Steps s = m.At(c.x[0] + ox, c.y[0] + oy);
    if (c.n_x + c.n_y > 2) {
      for (int i = 0; i < c.n_x; ++i) {
        for (int j = 0; j < c.n_y; ++j) {
          const Steps t = m.At(c.x[i] + ox, c.y[j] + oy);
          s.lo = std::min(s.lo, t.lo);
          s.hi = std::max(s.hi, t.hi);
        }
      }
    }
    lo += s.lo;
    hi += s.hi;
  }
  const double n = l.scans[0].size();
  return {m.Score(lo / n), m.Score(hi / n)};
}

std::string Describe(const Map& m, const Lattice& l) {
  return VH_STR("grid " << m.nx << "x" << m.ny << " resolution " << m.res
                        << " points " << l.scans[0].size() << " angles +-"
                        << l.angles << " offsets +-" << l.linear);
}

void RunMatch(vh::Rng& rng, bool tsdf, bool full) {
  const auto m = MakeMap(rng, tsdf, full ? 14 : 40);
  const int depth = rng.Int(1, full ? 6 : 7);
  const double extent = m->res * std::max(m->nx, m->ny);
  const Eigen::Vector2d grid_center(m->max.x() - 0.5 * m->res * m->ny,
                                    m->max.y() - 0.5 * m->res * m->nx);
  // A scan: some points that hit well scoring cells from a pose near the
  // initial one, some elsewhere.
  const double heading = full ? 0. : rng.Real(-3.1, 3.1);
  const Eigen::Vector2d start =
      full ? grid_center
           : Eigen::Vector2d(grid_center +
                             rng.Real(0., 0.7) * extent *
                                 Eigen::Vector2d(rng.Real(-1, 1),
                                                 rng.Real(-1, 1)));
  int linear = full ? 0 : rng.Chance(0.1) ? 1 : rng.Int(1, 12);
  const double linear_window = (linear - rng.Real(0.1, 0.9)) * m->res;
  const double angular_window = full ? M_PI : rng.Real(0.02, 0.5);
  const double true_heading =
      heading + (full ? rng.Real(-3, 3)
                      : rng.Real(-1.1, 1.1) * angular_window);
  const Eigen::Vector2d truth =
      start + m->res * (full ? 4. : linear + 0.5) *
                  Eigen::Vector2d(rng.Real(-1, 1), rng.Real(-1, 1));
  std::vector<Eigen::Vector2d> scan;
  std::vector<sensor::RangefinderPoint> points;
  const int n = rng.Int(1, full ? 8 : 20);
  const double reach = full ? 7 * m->res : 15 * m->res;
  for (int k = 0; k < n; ++k) {
    Eigen::Vector2d p;
    if (rng.Chance(0.7)) {
      int bx = 0, by = 0, best = -1;
      for (int q = 0; q < 12; ++q) {
        const int x = rng.Int(0, m->nx - 1), y = rng.Int(0, m->ny - 1);
        if (m->At(x, y).lo > best) {
          best = m->At(x, y).lo;
          bx = x;
          by = y;
        }
      }
      const Eigen::Vector2d c(m->max.x() - m->res * (by + rng.Unit()),
                              m->max.y() - m->res * (bx + rng.Unit()));
      p = Eigen::Rotation2Dd(true_heading).inverse() * (c - truth);
      if (p.norm() > 2 * reach) p *= 2 * reach / p.norm();
    } else {
      p = reach * Eigen::Vector2d(rng.Real(-1, 1), rng.Real(-1, 1));
    }
    const Eigen::Vector3f f(p.x(), p.y(), rng.Real(-.1, .1));
    points.push_back({f});
    scan.push_back(f.head<2>().cast<double>());
  }
  if (full) {
    // Far enough that every pose at which a point is in the grid is included.
    double range = 0;
    for (const auto& p : scan) range = std::max(range, p.norm());
    linear = std::ceil((range + extent) / m->res) + 2;
  }
  const Lattice l = MakeLattice(*m, scan, start, heading, angular_window,
                                linear);
  // Do not depend on the number of angular steps where it is in doubt.
  const double steps = angular_window / l.step;
  if (std::abs(steps - std::round(steps)) < 1e-3) return;

  double best_lo = 0., best_hi = 0.;
  uint64_t candidates = 0;
  for (int a = -l.angles; a <= l.angles; ++a) {
    for (int ox = -linear; ox <= linear; ++ox) {
      for (int oy = -linear; oy <= linear; ++oy) {
        const auto b = ScoreBounds(*m, l, a, ox, oy);
        best_lo = std::max(best_lo, b.first);
        best_hi = std::max(best_hi, b.second);
        ++candidates;
      }
    }
  }
  sm::proto::FastCorrelativeScanMatcherOptions2D options;
  options.set_linear_search_window(linear_window);
  options.set_angular_search_window(angular_window);
  options.set_branch_and_bound_depth(depth);
  const sm::FastCorrelativeScanMatcher2D matcher(*m->grid, options);
  const sensor::PointCloud cloud(points);
  const transform::Rigid2d initial(start, heading);
  const double span = m->max_score - m->min_score;
  for (int q = 0; q < 3; ++q) {
    double min_score;
    switch (q) {
      case 0:
        min_score = m->min_score + rng.Real(0.01, 0.4) * span;
        break;
      case 1:
        min_score = best_lo - rng.Real(1e-4, 0.02) * span;
        break;
      default:
        min_score = best_hi + rng.Real(1e-4, 0.02) * span;
    }
    // Where every pose beats the minimum, nothing is said about poses off the
    // map.
    if (min_score < m->min_score + 1e-3 * span) continue;
    float score = -7.f;
    transform::Rigid2d pose({123., 456.}, 0.25);
    const bool found =
        full ? matcher.MatchFullSubmap(cloud, min_score, &score, &pose)
             : matcher.Match(initial, cloud, min_score, &score, &pose);
    vh::Count(found ? "matches" : "no_matches");
    if (best_lo > min_score + 1e-5) {
      VH_EXPECT(found, "match-missed",
                Describe(*m, l) << " depth " << depth << " best " << best_lo
                                << " minimum " << min_score);
    }
    if (best_hi < min_score - 1e-5) {
      VH_EXPECT(!found, "match-below-minimum",
                Describe(*m, l) << " best " << best_hi << " minimum "
                                << min_score << " reported " << score);
    }
    if (!found) continue;
    VH_EXPECT(score > min_score - 1e-5, "score-below-minimum",
              score << " " << min_score);
    VH_EXPECT(score > best_lo - 1e-5 && score < best_hi + 1e-5,
              "not-the-best",
              Describe(*m, l) << " depth " << depth << " reported " << score
                              << " best in [" << best_lo << ", " << best_hi
                              << "]");
    // The pose is on the lattice and has the reported score.
    const Eigen::Vector2d d = (pose.translation() - start) / m->res;
    const double da =
        cartographer::common::NormalizeAngleDifference(
            pose.rotation().angle() - heading) / l.step;
    int a = std::lround(da);
    const int oy = -std::lround(d.x()), ox = -std::lround(d.y());
    VH_EXPECT(std::abs(d.x() + oy) < 1e-3 && std::abs(d.y() + ox) < 1e-3,
              "pose-off-lattice", d.transpose());
    VH_EXPECT(std::abs(ox) <= linear && std::abs(oy) <= linear,
              "pose-outside-window", Describe(*m, l) << " " << d.transpose());
    if (full) {
      // Angles beyond half a turn come back wrapped.
      bool ok = false;
      for (int b = -l.angles; b <= l.angles && !ok; ++b) {
        const double e = cartographer::common::NormalizeAngleDifference(
            pose.rotation().angle() - b * l.step);
        if (std::abs(e) > 1e-3 * l.step) continue;
        const auto s = ScoreBounds(*m, l, b, ox, oy);
        ok = score > s.first - 1e-5 && score < s.second + 1e-5;
      }
      VH_EXPECT(ok, "score-of-pose", Describe(*m, l) << " score " << score);
    } else {
      VH_EXPECT(std::abs(da - a) < 1e-2 && std::abs(a) <= l.angles,
                "angle-off-lattice", Describe(*m, l) << " " << da);
      const auto b = ScoreBounds(*m, l, a, ox, oy);
      VH_EXPECT(score > b.first - 1e-5 && score < b.second + 1e-5,
                "score-of-pose",
                Describe(*m, l) << " score " << score << " pose scores ["
                                << b.first << ", " << b.second << "]");
    }
  }
  vh::Count("candidates", candidates);
  if (best_hi > m->min_score + 0.05 * span) {
    vh::Distinct(vh::Digest()
                     .AddD(best_lo)
                     .Add(candidates)
                     .Add(depth)
                     .Get());
  }
  if (vh::WantSample()) {
    vh::Sample(Describe(*m, l) + VH_STR(" best score " << best_lo));
  }
}

}  // namespace

VH_SCENARIO(window, 3000, 60000) { RunMatch(rng, false, false); }
VH_SCENARIO(window_tsdf, 1000, 20000) { RunMatch(rng, true, false); }
VH_SCENARIO(full_submap, 500, 10000) { RunMatch(rng, rng.Chance(0.2), true); }

// Precomputed grids bound the cells they cover.
VH_SCENARIO(precomputation_grid, 600, 10000) {
  const auto m = MakeMap(rng, rng.Chance(0.3), 40);
  std::vector<float> reusable;
  for (int width = 1; width <= 32; width *= 2) {
    const sm::PrecomputationGrid2D p(
        *m->grid, mapping::CellLimits(m->nx, m->ny), width, &reusable);
    for (int x = -width - 2; x < m->nx + 2; ++x) {
      for (int y = -width - 2; y < m->ny + 2; ++y) {
        int bound = 0;
        for (int i = std::max(0, x); i < std::min(m->nx, x + width); ++i) {
          for (int j = std::max(0, y); j < std::min(m->ny, y + width); ++j) {
            bound = std::max(bound, m->steps[i + j * m->nx].lo);
          }
        }
        const int got = p.GetValue(Eigen::Array2i(x, y));
        VH_EXPECT(got >= bound && got <= 255, "bound-too-low",
                  "width " << width << " at " << x << "," << y << " of "
                           << m->nx << "x" << m->ny << ": " << got
                           << " covers " << bound);
        if (width == 1) {
          VH_EXPECT(got <= m->At(x, y).hi, "finest-grid",
                    x << "," << y << ": " << got);
        }
      }
    }
    for (double v : {0., 17., 127.5, 255.}) {
      VH_EXPECT(std::abs(p.ToScore(v) - m->Score(v)) < 1e-5, "score-scale",
                v << " -> " << p.ToScore(v));
    }
    vh::Count("precomputed_cells", (m->nx + width + 3) * (m->ny + width + 3));
  }
  vh::Distinct(vh::Digest().Add(m->nx).Add(m->ny).AddD(m->res).Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
