// C15: 3D branch-and-bound matching returns the best admissible pose.
#include <array>

#include "cartographer/common/math.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;
namespace transform = cartographer::transform;
namespace sm = cartographer::mapping::scan_matching;

namespace {

using Key = std::array<int, 3>;

struct Bounds {
  double lo = 0., hi = 0.;
};

// Cells of a point; several when rounding is in doubt.
void CellsOf(const Eigen::Vector3d& p, double res, std::vector<Key>* out) {
  int c[3][2], n[3];
  for (int d = 0; d < 3; ++d) {
    const double f = p[d] / res;
    c[d][0] = std::lround(f - 2e-3);
    c[d][1] = std::lround(f + 2e-3);
    n[d] = c[d][0] == c[d][1] ? 1 : 2;
  }
  out->clear();
  for (int i = 0; i < n[0]; ++i) {
    for (int j = 0; j < n[1]; ++j) {
      for (int k = 0; k < n[2]; ++k) {
        out->push_back({c[0][i], c[1][j], c[2][k]});
      }
    }
  }
}

double Yaw(const Eigen::Quaterniond& q) {
  const Eigen::Vector3d d = q * Eigen::Vector3d::UnitX();
  return std::atan2(d.y(), d.x());
}

Eigen::VectorXd Rotate(const Eigen::VectorXf& h, double angle) {
  const int n = h.size();
  Eigen::VectorXd out(n);
  const double by = -angle * n / M_PI;
  for (int i = 0; i < n; ++i) {
    const double at = i + by;
    const double f = std::floor(at);
    auto wrap = [&](double v) {
      const int k = static_cast<int>(std::fmod(v, n));
      return (k + n) % n;
    };
    out[i] = (1. - (at - f)) * h[wrap(f)] + (at - f) * h[wrap(f + 1)];
  }
  return out;
}

double Similarity(const Eigen::VectorXf& a, const Eigen::VectorXd& b) {
  const Eigen::VectorXd x = a.cast<double>();
  const double n = x.norm() * b.norm();
  return n < 1e-3 ? 1. : x.dot(b) / n;
}

struct Steps {
  int lo, hi;
};

void RunMatch(vh::Rng& rng, bool full) {
  const double res = static_cast<float>(rng.Chance(0.5) ? 0.1
                                                        : rng.Real(0.05, 0.4));
  const double low_res =
      static_cast<float>(res * (rng.Chance(0.5) ? 4.5 : rng.Real(1.5, 6.)));
  mapping::HybridGrid grid(res), low_grid(low_res);
  std::map<Key, Steps> cells;
  const int extent = rng.Int(3, full ? 20 : 14);
  const int num_cells = rng.Int(1, full ? 60 : 300);
  for (int k = 0; k < num_cells; ++k) {
    const Eigen::Array3i i(rng.Int(-extent, extent), rng.Int(-extent, extent),
                           rng.Int(-extent / 2, extent / 2));
    grid.SetProbability(i, rng.Chance(0.7) ? rng.Real(0.5, 0.95)
                                           : rng.Real(0.1, 0.5));
    const Eigen::Vector3f c = grid.GetCenterOfCell(i);
    if (rng.Chance(0.8)) {
      low_grid.SetProbability(low_grid.GetCellIndex(c), rng.Real(0.4, 0.9));
    }
  }
  for (const auto& e : grid) {
    const double s =
        (mapping::ValueToProbability(e.second) - 0.1) * 255. / 0.8;
    cells[{e.first.x(), e.first.y(), e.first.z()}] = {
        static_cast<int>(std::lround(s - 2e-3)),
        static_cast<int>(std::lround(s + 2e-3))};
  }

  // Poses of submap and node.
  auto tilt = [&](double max) {
    return Eigen::Quaterniond(
        Eigen::AngleAxisd(rng.Real(-3.1, 3.1), Eigen::Vector3d::UnitZ()) *
        Eigen::AngleAxisd(rng.Real(-max, max), Eigen::Vector3d::UnitY()) *
        Eigen::AngleAxisd(rng.Real(-max, max), Eigen::Vector3d::UnitX()));
  };
  const transform::Rigid3d submap_pose(
      full ? Eigen::Vector3d(0, 0, 0)
           : Eigen::Vector3d(rng.Real(-9, 9), rng.Real(-9, 9), rng.Real(-1, 1)),
      tilt(0.05));
  const int xy = rng.Int(1, 8), z = rng.Int(1, 4);
  const double xy_window = res * (xy + rng.Real(-.4, .4));
  const double z_window = res * (z + rng.Real(-.4, .4));
  const double angular_window = full ? M_PI : rng.Real(0.05, 0.6);
  const transform::Rigid3d node_pose =
      full ? transform::Rigid3d::Rotation(tilt(0.1))
           : submap_pose *
                 transform::Rigid3d(
                     res * Eigen::Vector3d(rng.Real(-5, 5), rng.Real(-5, 5),
                                           rng.Real(-2, 2)),
                     tilt(0.1));
  const Eigen::Quaterniond gravity = tilt(0.1);
  // The scan hits occupied cells from a pose near (or, rarely, outside) the
  // window.
  const transform::Rigid3d truth(
      (submap_pose.inverse() * node_pose).translation() +
          (full ? res * 10. : 1.) *
              Eigen::Vector3d(rng.Real(-1.1, 1.1) * (full ? 1. : xy_window),
                              rng.Real(-1.1, 1.1) * (full ? 1. : xy_window),
                              rng.Real(-1.1, 1.1) * (full ? 1. : z_window)),
      submap_pose.rotation().inverse() *
          Eigen::AngleAxisd(rng.Real(-1, 1) * angular_window,
                            Eigen::Vector3d::UnitZ()) *
          node_pose.rotation());
  std::vector<Key> keys;
  for (const auto& e : cells) keys.push_back(e.first);
  mapping::TrajectoryNode::Data data;
  data.gravity_alignment = gravity;
  std::vector<Eigen::Vector3d> scan, low_scan;
  const int n = rng.Int(1, full ? 8 : 20);
  for (int k = 0; k < n; ++k) {
    Eigen::Vector3d p;
    if (rng.Chance(0.75)) {
      const Key& c = keys[rng.Int(0, keys.size() - 1)];
      p = truth.inverse() *
          (res * Eigen::Vector3d(c[0] + rng.Real(-.5, .5),
                                 c[1] + rng.Real(-.5, .5),
                                 c[2] + rng.Real(-.5, .5)));
    } else {
      p = res * 12 * Eigen::Vector3d(rng.Real(-1, 1), rng.Real(-1, 1),
                                     rng.Real(-1, 1));
    }
    const Eigen::Vector3f f = p.cast<float>();
    data.high_resolution_point_cloud.push_back({f});
    scan.push_back(f.cast<double>());
    if (k == 0 || rng.Chance(0.5)) {
      data.low_resolution_point_cloud.push_back({f});
      low_scan.push_back(f.cast<double>());
    }
  }
  const int buckets = rng.Int(5, 60);
  Eigen::VectorXf submap_histogram(buckets), scan_histogram(buckets);
  const double sharp = rng.Chance(0.5) ? 0. : 0.8;
  for (int i = 0; i < buckets; ++i) {
    submap_histogram[i] = rng.Chance(sharp) ? 0. : rng.Real(0., 5.);
    scan_histogram[i] = rng.Chance(sharp) ? 0. : rng.Real(0., 5.);
  }
  if (rng.Chance(0.05)) scan_histogram.setZero();
  data.rotational_scan_matcher_histogram = scan_histogram;

  sm::proto::FastCorrelativeScanMatcherOptions3D options;
  const int depth = full ? rng.Int(6, 8) : rng.Int(1, 7);
  options.set_branch_and_bound_depth(depth);
  options.set_full_resolution_depth(rng.Int(1, 4));
  options.set_min_rotational_score(rng.Chance(0.3) ? 0. : rng.Real(0.2, 0.9));
  options.set_min_low_resolution_score(rng.Chance(0.3) ? 0.
                                                       : rng.Real(0.1, 0.7));
  options.set_linear_xy_search_window(xy_window);
  options.set_linear_z_search_window(z_window);
  options.set_angular_search_window(angular_window);

  // The lattice.
  double range = 3. * res;
  for (const auto& p : scan) range = std::max(range, p.norm());
  const double step =
      0.99 * std::acos(1. - res * res / (2. * range * range));
  const double ratio = angular_window / step;
  if (std::abs(ratio - std::floor(ratio) - 0.5) < 5e-3) return;
  const int angles = std::lround(ratio);

  struct Candidate {
    int lo = 0, hi = 0;  // sums of steps
  };
  struct Angle {
    int index;
    Eigen::Quaterniond rotation;
    double rotational_score;
    std::map<Key, Candidate> candidates;
  };
  const transform::Rigid3d node_to_submap = submap_pose.inverse() * node_pose;
  const double yaw =
      Yaw(node_to_submap.rotation() * gravity.inverse());
  std::vector<Angle> lattice;
  std::vector<Key> point_cells;
  uint64_t evaluated = 0;
  for (int a = -angles; a <= angles; ++a) {
    Angle angle;
    angle.index = a;
    angle.rotation = submap_pose.rotation().inverse() *
                     Eigen::AngleAxisd(a * step, Eigen::Vector3d::UnitZ()) *
                     node_pose.rotation();
    angle.rotational_score =
        Similarity(submap_histogram, Rotate(scan_histogram, yaw + a * step));
    for (const auto& p : scan) {
      CellsOf(angle.rotation * p + node_to_submap.translation(), res,
              &point_cells);
      if (point_cells.size() == 1) {
        for (const auto& e : cells) {
          Key o;
          for (int d = 0; d < 3; ++d) o[d] = e.first[d] - point_cells[0][d];
          if (!full && (std::abs(o[0]) > xy || std::abs(o[1]) > xy ||
                        std::abs(o[2]) > z)) {
            continue;
          }
          auto& c = angle.candidates[o];
          c.lo += e.second.lo;
          c.hi += e.second.hi;
          ++evaluated;
        }
      } else {
        std::map<Key, Candidate> best;
        std::map<Key, int> hits;
        for (const Key& q : point_cells) {
          for (const auto& e : cells) {
            Key o;
            for (int d = 0; d < 3; ++d) o[d] = e.first[d] - q[d];
            if (!full && (std::abs(o[0]) > xy || std::abs(o[1]) > xy ||
                          std::abs(o[2]) > z)) {
              continue;
            }
            auto it = best.find(o);
            if (it == best.end()) {
              best[o] = {e.second.lo, e.second.hi};
            } else {
              it->second.lo = std::min(it->second.lo, e.second.lo);
              it->second.hi = std::max(it->second.hi, e.second.hi);
            }
            ++hits[o];
            ++evaluated;
          }
        }
        for (const auto& b : best) {
          auto& c = angle.candidates[b.first];
          // Unless all of them are known the point may also count nothing.
          if (hits[b.first] == static_cast<int>(point_cells.size())) {
            c.lo += b.second.lo;
          }
          c.hi += b.second.hi;
        }
      }
    }
    lattice.push_back(std::move(angle));
  }
  auto score_of = [&](int sum) { return 0.1 + 0.8 / 255. * sum / n; };
  auto low_score = [&](const Angle& angle, const Key& o) {
    Bounds b;
    const Eigen::Vector3d t = node_to_submap.translation() +
                              res * Eigen::Vector3d(o[0], o[1], o[2]);
    for (const auto& p : low_scan) {
      CellsOf(angle.rotation * p + t, low_res, &point_cells);
      double lo = 1., hi = 0.;
      for (const Key& q : point_cells) {
        const double v =
            low_grid.GetProbability(Eigen::Array3i(q[0], q[1], q[2]));
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
      b.lo += lo / low_scan.size();
      b.hi += hi / low_scan.size();
    }
    return b;
  };
  const sm::FastCorrelativeScanMatcher3D matcher(grid, &low_grid,
                                                 &submap_histogram, options);
  // Candidates by upper bound of their score, the best first.
  struct Entry {
    double lo, hi;
    const Angle* angle;
    Key offset;
  };
  std::vector<Entry> order;
  for (const auto& a : lattice) {
    for (const auto& c : a.candidates) {
      order.push_back(
          {score_of(c.second.lo), score_of(c.second.hi), &a, c.first});
    }
  }
  std::sort(order.begin(), order.end(),
            [](const Entry& a, const Entry& b) { return a.lo > b.lo; });
  const double eps = 1e-4;
  // The best candidate that is admissible without doubt.
  double best = -1.;
  for (const auto& e : order) {
    if (e.angle->rotational_score < options.min_rotational_score() + eps) {
      continue;
    }
    if (low_score(*e.angle, e.offset).lo >=
        options.min_low_resolution_score() + eps) {
      best = e.lo;
      break;
    }
  }
  const double top = order.empty() ? 0.1 : order.front().lo;
  for (int q = 0; q < 3; ++q) {
    double min_score = 0.;
    switch (q) {
      case 0: min_score = rng.Real(0.12, 0.4); break;
      case 1: min_score = best - rng.Real(1e-3, 0.02); break;
      default: min_score = std::max(best, top) + rng.Real(1e-3, 0.02);
    }
    if (min_score < 0.11) continue;
    const auto result =
        full ? matcher.MatchFullSubmap(node_pose.rotation(),
                                       submap_pose.rotation(), data, min_score)
             : matcher.Match(node_pose, submap_pose, data, min_score);
    vh::Count(result ? "matches" : "no_matches");
    auto describe = [&]() {
      return VH_STR("resolution " << res << " cells " << cells.size()
                                  << " points " << n << " depth " << depth
                                  << "/" << options.full_resolution_depth()
                                  << " window " << xy << "," << z << " angles "
                                  << angles << " minimum " << min_score
                                  << " best " << best << " candidates "
                                  << order.size());
    };
    if (!result) {
      VH_EXPECT(best <= min_score + eps, "match-missed", describe());
      continue;
    }
    VH_EXPECT(result->score > min_score - 1e-6, "score-below-minimum",
              describe() << " score " << result->score);
    VH_EXPECT(result->score >= best - eps, "not-the-best",
              describe() << " score " << result->score);
    VH_EXPECT(result->rotational_score >=
                  options.min_rotational_score() - 1e-6,
              "rotational-minimum", describe());
    VH_EXPECT(result->low_resolution_score >=
                  options.min_low_resolution_score() - 1e-6,
              "low-resolution-minimum", describe());
    // Identify the candidate.
    const Eigen::Vector3d d =
        (result->pose_estimate.translation() - node_to_submap.translation()) /
        res;
    const Key o = {static_cast<int>(std::lround(d.x())),
                   static_cast<int>(std::lround(d.y())),
                   static_cast<int>(std::lround(d.z()))};
    VH_EXPECT((d - Eigen::Vector3d(o[0], o[1], o[2])).norm() < 1e-2,
              "pose-off-lattice", describe() << " " << d.transpose());
    VH_EXPECT(full || (std::abs(o[0]) <= xy && std::abs(o[1]) <= xy &&
                       std::abs(o[2]) <= z),
              "pose-outside-window", describe() << " " << d.transpose());
    bool angle_found = false, ok = false;
    std::string seen;
    for (const auto& a : lattice) {
      if (a.rotation.angularDistance(result->pose_estimate.rotation()) >
          2e-2 * step) {
        continue;
      }
      angle_found = true;
      const auto it = a.candidates.find(o);
      if (it == a.candidates.end()) continue;
      const Bounds low = low_score(a, o);
      seen += VH_STR(" [" << score_of(it->second.lo) << ","
                          << score_of(it->second.hi) << "] rotational "
                          << a.rotational_score << " low [" << low.lo << ","
                          << low.hi << "]");
      if (result->score > score_of(it->second.lo) - eps &&
          result->score < score_of(it->second.hi) + eps &&
          std::abs(result->rotational_score - a.rotational_score) < 2e-3 &&
          result->low_resolution_score > low.lo - eps &&
          result->low_resolution_score < low.hi + eps) {
        ok = true;
      }
    }
    VH_EXPECT(angle_found, "angle-off-lattice", describe());
    VH_EXPECT(ok, "scores-of-pose",
              describe() << " reported " << result->score << " rotational "
                         << result->rotational_score << " low "
                         << result->low_resolution_score
                         << " recomputed" << seen);
  }
  vh::Count("evaluated_points", evaluated);
  vh::Count("candidates", order.size());
  if (best > 0.12) {
    vh::Distinct(vh::Digest().AddD(best).Add(order.size()).Add(depth).Get());
  }
}

}  // namespace

VH_SCENARIO(window, 400, 10000) { RunMatch(rng, false); }
VH_SCENARIO(full_submap, 60, 1500) { RunMatch(rng, true); }

VH_SCENARIO(precomputation_grids, 200, 4000) {
  mapping::HybridGrid grid(0.1f);
  const int extent = rng.Int(2, 80);
  for (int k = rng.Int(1, 150); k > 0; --k) {
    grid.SetProbability(
        Eigen::Array3i(rng.Int(-extent, extent), rng.Int(-extent, extent),
                       rng.Int(-extent, extent)),
        rng.Real(0.05, 0.95));
  }
  std::unique_ptr<sm::PrecomputationGrid3D> grids(
      new sm::PrecomputationGrid3D(sm::ConvertToPrecomputationGrid(grid)));
  for (const auto& e : grid) {
    const double s =
        (mapping::ValueToProbability(e.second) - 0.1) * 255. / 0.8;
    VH_EXPECT(std::abs(grids->value(e.first) - s) < 0.501, "converted-cell",
              s << " stored as " << int(grids->value(e.first)));
  }
  for (int level = 0; level < 4; ++level) {
    const sm::PrecomputationGrid3D& current = *grids;
    const bool half = rng.Chance(0.5);
    const Eigen::Array3i shift(rng.Int(0, 8), rng.Int(0, 8), rng.Int(0, 8));
    const sm::PrecomputationGrid3D next =
        sm::PrecomputeGrid(current, half, shift);
    size_t checked = 0;
    for (const auto& e : current) {
      for (int o = 0; o < 8; ++o) {
        Eigen::Array3i i = e.first - shift * Eigen::Array3i(o & 1, (o >> 1) & 1,
                                                            (o >> 2) & 1);
        if (half) {
          for (int d = 0; d < 3; ++d) {
            i[d] = static_cast<int>(std::floor(i[d] / 2.));
          }
        }
        VH_EXPECT(next.value(i) >= e.second, "bound-too-low",
                  i.transpose() << " covers " << int(e.second) << " has "
                                << int(next.value(i)));
        ++checked;
      }
    }
    vh::Count("bounds_checked", checked);
    grids.reset(new sm::PrecomputationGrid3D(
        sm::PrecomputeGrid(current, half, shift)));
  }
  vh::Distinct(rng.U64());
}

VH_SCENARIO(rotate_histogram, 400, 4000) {
  const int n = rng.Int(1, 130);
  Eigen::VectorXf h(n);
  for (int i = 0; i < n; ++i) h[i] = rng.Real(0., 10.);
  const double angle = rng.Chance(0.2) ? M_PI / n * rng.Int(-300, 300)
                                       : rng.Real(-9., 9.);
  const Eigen::VectorXf r =
      sm::RotationalScanMatcher::RotateHistogram(h, angle);
  const Eigen::VectorXd e = Rotate(h, static_cast<float>(angle));
  VH_EXPECT(r.size() == n && (r.cast<double>() - e).norm() < 0.02 * h.norm(),
            "rotated-histogram", "size " << n << " angle " << angle);
  VH_EXPECT(std::abs(r.sum() - h.sum()) < 1e-3 * h.sum(), "histogram-mass",
            r.sum() << " " << h.sum());
  sm::RotationalScanMatcher matcher(&h);
  const std::vector<float> scores = matcher.Match(
      h, 0.f, {0.f, static_cast<float>(angle), static_cast<float>(M_PI)});
  VH_EXPECT(scores.size() == 3, "score-count", scores.size());
  VH_EXPECT(std::abs(scores[0] - 1.) < 1e-3 && std::abs(scores[2] - 1.) < 1e-2,
            "self-similarity", scores[0] << " " << scores[2]);
  VH_EXPECT(std::abs(scores[1] - Similarity(h, e)) < 2e-2, "similarity",
            scores[1]);
  vh::Distinct(vh::Digest().Add(n).AddD(angle).Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
