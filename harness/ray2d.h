// Exact-geometry helpers for 2D grids, independent of the library's ray caster.
#ifndef VERIF_RAY2D_H_
#define VERIF_RAY2D_H_

#include <algorithm>
#include <cmath>

#include "Eigen/Core"

namespace ray2d {

// Does the closed segment a-b intersect the axis-aligned box [lo, hi]?
inline bool SegmentHitsBox(const Eigen::Vector2d& a, const Eigen::Vector2d& b,
                           const Eigen::Vector2d& lo,
                           const Eigen::Vector2d& hi) {
  double t0 = 0., t1 = 1.;
  for (int k = 0; k < 2; ++k) {
    const double d = b[k] - a[k];
    if (std::abs(d) < 1e-15) {
      if (a[k] < lo[k] || a[k] > hi[k]) return false;
      continue;
    }
    double u = (lo[k] - a[k]) / d, v = (hi[k] - a[k]) / d;
    if (u > v) std::swap(u, v);
    t0 = std::max(t0, u);
    t1 = std::min(t1, v);
    if (t0 > t1) return false;
  }
  return true;
}

// Ray endpoints are quantized to 1/1000 of a cell.
constexpr double kMargin = 2.5e-3;

// Does the segment (in cell units, cell i covers [i, i+1]) certainly/possibly
// touch the cell?
inline bool Certainly(const Eigen::Vector2d& a, const Eigen::Vector2d& b,
                      int x, int y) {
  return SegmentHitsBox(a, b, Eigen::Vector2d(x + kMargin, y + kMargin),
                        Eigen::Vector2d(x + 1 - kMargin, y + 1 - kMargin));
}
inline bool Possibly(const Eigen::Vector2d& a, const Eigen::Vector2d& b, int x,
                     int y) {
  return SegmentHitsBox(a, b, Eigen::Vector2d(x - kMargin, y - kMargin),
                        Eigen::Vector2d(x + 1 + kMargin, y + 1 + kMargin));
}

// Calls f(x, y) for a superset of the cells the segment possibly touches.
template <typename F>
void NearbyCells(const Eigen::Vector2d& a, const Eigen::Vector2d& b, F f) {
  const int x0 = std::floor(std::min(a.x(), b.x())) - 1;
  const int x1 = std::floor(std::max(a.x(), b.x())) + 1;
  for (int x = x0; x <= x1; ++x) {
    double lo = std::min(a.y(), b.y()), hi = std::max(a.y(), b.y());
    const double d = b.x() - a.x();
    if (std::abs(d) > 1e-6) {
      const double s = (b.y() - a.y()) / d;
      const double u = a.y() + (x - 0.01 - a.x()) * s;
      const double v = a.y() + (x + 1.01 - a.x()) * s;
      lo = std::max(lo, std::min(u, v));
      hi = std::min(hi, std::max(u, v));
    }
    for (int y = std::floor(lo) - 1; y <= std::floor(hi) + 1; ++y) f(x, y);
  }
}

}  // namespace ray2d

#endif  // VERIF_RAY2D_H_
