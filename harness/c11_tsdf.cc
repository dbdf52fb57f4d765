// C11: signed-distance cells hold bounded, correctly averaged distances.
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "ray2d.h"
#include "vh.h"

namespace mapping = cartographer::mapping;
namespace sensor = cartographer::sensor;

namespace {

struct Settings {
  double truncation, max_weight, angle_bandwidth, distance_bandwidth, radius;
  bool free_space, project;
  int exponent, samples;
};

struct Hit {
  Eigen::Vector2d position;
  double normal = 0.;
  bool skip = false;
};

// Scan normal: mean of the perpendiculars to the chords to the neighbours in
// angular order, all turned towards the sensor.  False if ill-conditioned.
bool Normals(const std::vector<Eigen::Vector3f>& returns,
             const Eigen::Vector3f& origin, const Settings& s,
             std::vector<Hit>* hits) {
  const int n = returns.size();
  std::vector<int> order(n);
  std::vector<double> angle(n);
  for (int i = 0; i < n; ++i) {
    order[i] = i;
    angle[i] = std::atan2(double(returns[i].y()) - origin.y(),
                          double(returns[i].x()) - origin.x());
    if (std::abs(angle[i]) > M_PI - 1e-3 || std::abs(angle[i]) < 1e-3) {
      return false;
    }
  }
  std::sort(order.begin(), order.end(),
            [&](int a, int b) { return angle[a] < angle[b]; });
  for (int i = 0; i + 1 < n; ++i) {
    if (angle[order[i + 1]] - angle[order[i]] < 1e-4) return false;
  }
  for (int i = 0; i < n; ++i) {
    const Eigen::Vector3d p = returns[order[i]].cast<double>();
    auto near = [&](int j, bool* ok) {
      const double d = (returns[order[j]].cast<double>() - p).norm();
      if (std::abs(d - s.radius) < 1e-4 * s.radius) *ok = false;
      return d < s.radius;
    };
    bool ok = true;
    int begin = i, end = i;
    while (begin > 0 && i - begin < s.samples / 2 && near(begin - 1, &ok)) {
      --begin;
    }
    while (end < n && end - i < (s.samples + 1) / 2 + 1 && near(end, &ok)) {
      ++end;
    }
    if (!ok) return false;
    const Eigen::Vector3d to_sensor = origin.cast<double>() - p;
    Eigen::Vector3d mean = Eigen::Vector3d::Zero();
    if (end - begin < 2) {
      mean = to_sensor;
    } else {
      for (int j = begin; j < end; ++j) {
        if (j == i) continue;
        const Eigen::Vector3d t = p - returns[order[j]].cast<double>();
        Eigen::Vector3d q(-t.y(), t.x(), 0.);
        if (q.norm() < 1e-3) return false;
        q.normalize();
        if (std::abs(q.dot(to_sensor)) < 1e-3) return false;
        if (q.dot(to_sensor) < 0.) q = -q;
        mean += q;
      }
    }
    if (mean.head<2>().norm() < 1e-2) return false;
    (*hits)[order[i]].normal = std::atan2(mean.y(), mean.x());
  }
  return true;
}

double Gauss(double x, double sigma) {
  return std::exp(-0.5 * x * x / (sigma * sigma)) /
         (std::sqrt(2. * M_PI) * sigma);
}

}  // namespace

VH_SCENARIO(scans, 900, 24000) {
  static mapping::ValueConversionTables tables;
  static constexpr double kTruncations[] = {0.2, 0.35, 0.8};
  static constexpr double kWeights[] = {1., 10., 128.};
  Settings s;
  s.truncation = kTruncations[rng.Int(0, 2)];
  s.max_weight = kWeights[rng.Int(0, 2)];
  s.free_space = rng.Chance(0.5);
  s.project = rng.Chance(0.3);
  s.exponent = rng.Chance(0.5) ? 0 : rng.Int(1, 3);
  s.angle_bandwidth = rng.Chance(0.3) ? rng.Real(0.3, 2.) : 0.;
  s.distance_bandwidth = rng.Chance(0.3) ? rng.Real(0.3, 2.) : 0.;
  s.samples = rng.Int(1, 5);
  s.radius = rng.Real(0.3, 3.);
  mapping::proto::TSDFRangeDataInserterOptions2D options;
  options.set_truncation_distance(s.truncation);
  options.set_maximum_weight(s.max_weight);
  options.set_update_free_space(s.free_space);
  options.set_project_sdf_distance_to_scan_normal(s.project);
  options.set_update_weight_range_exponent(s.exponent);
  options.set_update_weight_angle_scan_normal_to_ray_kernel_bandwidth(
      s.angle_bandwidth);
  options.set_update_weight_distance_cell_to_hit_kernel_bandwidth(
      s.distance_bandwidth);
  options.mutable_normal_estimation_options()->set_num_normal_samples(
      s.samples);
  options.mutable_normal_estimation_options()->set_sample_radius(s.radius);
  const bool with_normals = s.project || s.angle_bandwidth != 0.;
  const mapping::TSDFRangeDataInserter2D inserter(options);
  const double res = rng.Chance(0.5) ? 0.05 : rng.Real(0.05, 0.3);
  const Eigen::Vector2d max0(rng.Real(-3., 3.), rng.Real(-3., 3.));
  mapping::TSDF2D grid(
      mapping::MapLimits(res, max0,
                         mapping::CellLimits(rng.Int(1, 30), rng.Int(1, 30))),
      s.truncation, s.max_weight, &tables);
  const int scans = rng.Int(1, 4);
  const double reach = res * rng.Int(4, 30);
  const bool height = rng.Chance(0.5);
  vh::Digest digest;
  uint64_t updated = 0, behind = 0;
  for (int scan = 0; scan < scans; ++scan) {
    const Eigen::Vector3f origin(rng.Real(-1., 1.), rng.Real(-1., 1.),
                                 height ? rng.Real(-1., 1.) : 0.);
    const int n = rng.Int(1, rng.Chance(0.5) ? 3 : 14);
    std::vector<Eigen::Vector3f> returns;
    std::vector<Hit> hits;
    for (int i = 0; i < n; ++i) {
      const double a = rng.Real(-M_PI, M_PI),
                   r = (rng.Chance(0.1) ? 0.5 * s.truncation : s.truncation) +
                       rng.Real(0.01, reach);
      Eigen::Vector3f p(origin.x() + r * std::cos(a),
                        origin.y() + r * std::sin(a),
                        height ? rng.Real(-2., 2.) : 0.);
      if (i > 0 && rng.Chance(0.5)) {
        p = returns.back() + Eigen::Vector3f(rng.Real(-.3, .3),
                                             rng.Real(-.3, .3), 0.f);
      }
      returns.push_back(p);
      Hit h;
      h.position = p.head<2>().cast<double>();
      hits.push_back(h);
    }
    bool ambiguous = false;
    for (auto& h : hits) {
      const double range = (h.position - origin.head<2>().cast<double>()).norm();
      if (std::abs(range - s.truncation) < 1e-4) ambiguous = true;
      h.skip = range < s.truncation;
    }
    if (ambiguous) continue;
    bool normals_known = true;
    if (with_normals) normals_known = Normals(returns, origin, s, &hits);
    // Before.
    struct Old {
      bool known;
      float tsd, weight;
    };
    auto base = [&]() {
      return std::make_pair(
          static_cast<int>(
              std::lround((grid.limits().max().x() - max0.x()) / res)),
          static_cast<int>(
              std::lround((grid.limits().max().y() - max0.y()) / res)));
    };
    using Cell = std::pair<int, int>;  // along x, along y
    auto take = [&]() {
      std::map<Cell, Old> m;
      const auto b = base();
      const auto& l = grid.limits().cell_limits();
      Eigen::Array2i i;
      for (i.x() = 0; i.x() < l.num_x_cells; ++i.x()) {
        for (i.y() = 0; i.y() < l.num_y_cells; ++i.y()) {
          if (!grid.IsKnown(i)) {
            VH_EXPECT(grid.GetWeight(i) == 0.f, "unknown-weight",
                      "unknown cell with weight " << grid.GetWeight(i));
            continue;
          }
          m[{i.y() - b.first, i.x() - b.second}] = {true, grid.GetTSD(i),
                                                    grid.GetWeight(i)};
        }
      }
      return m;
    };
    const auto before = take();
    sensor::RangeData data;
    data.origin = origin;
    std::vector<sensor::RangefinderPoint> points;
    for (const auto& p : returns) points.push_back({p});
    data.returns = sensor::PointCloud(points);
    inserter.Insert(data, &grid);
    const auto after = take();
    for (const auto& c : after) {
      VH_EXPECT(std::abs(c.second.tsd) <= s.truncation * (1. + 1e-5) &&
                    c.second.weight >= 0.f &&
                    c.second.weight <= s.max_weight * (1. + 1e-5),
                "bounds", "distance " << c.second.tsd << " weight "
                                      << c.second.weight);
    }
    // Which rays may or must touch which cells.
    const Eigen::Vector2d o = origin.head<2>().cast<double>();
    auto to_cells = [&](const Eigen::Vector2d& p) {
      return Eigen::Vector2d((max0.x() - p.x()) / res,
                             (max0.y() - p.y()) / res);
    };
    std::map<Cell, std::vector<int>> possible;
    std::set<Cell> certain;
    for (int i = 0; i < n; ++i) {
      if (hits[i].skip) continue;
      const Eigen::Vector2d ray = hits[i].position - o;
      const double ratio = s.truncation / ray.norm();
      const Eigen::Vector2d a =
          to_cells(s.free_space ? o : o + (1. - ratio) * ray);
      const Eigen::Vector2d b = to_cells(o + (1. + ratio) * ray);
      ray2d::NearbyCells(a, b, [&](int x, int y) {
        if (ray2d::Possibly(a, b, x, y)) possible[{x, y}].push_back(i);
        if (ray2d::Certainly(a, b, x, y)) certain.insert({x, y});
      });
    }
    for (const auto& c : before) possible[c.first];
    for (const auto& c : after) possible[c.first];
    const double tol_d = s.truncation * 2.2 / 32766 + 2e-4 * s.truncation;
    for (const auto& e : possible) {
      const auto b = before.find(e.first), x = after.find(e.first);
      const bool was = b != before.end(), is = x != after.end();
      VH_EXPECT(is || !was, "forgotten-cell", "a known cell became unknown");
      const bool unchanged =
          was == is &&
          (!is || (b->second.tsd == x->second.tsd &&
                   b->second.weight == x->second.weight));
      if (e.second.empty()) {
        VH_EXPECT(unchanged, "unrelated-cell",
                  "cell " << e.first.first << "," << e.first.second
                          << " changed but no ray reaches it");
        continue;
      }
      if (unchanged && !certain.count(e.first)) continue;
      if (!normals_known) {
        if (certain.count(e.first) && s.angle_bandwidth == 0.) {
          VH_EXPECT(is, "missed-cell", "a cell on a ray stayed unknown");
        }
        continue;
      }
      // Some ray through the cell must explain the new value.
      const Eigen::Vector2d center(max0.x() - (e.first.first + 0.5) * res,
                                   max0.y() - (e.first.second + 0.5) * res);
      bool explained = false;
      std::ostringstream tried;
      for (int i : e.second) {
        const Eigen::Vector2d ray = hits[i].position - o;
        const double range = ray.norm();
        double d = range - (center - o).norm();
        if (s.project) {
          d = (center - hits[i].position)
                  .dot(Eigen::Vector2d(std::cos(hits[i].normal),
                                       std::sin(hits[i].normal)));
        }
        d = std::min(s.truncation, std::max(-s.truncation, d));
        double w = 1.;
        if (s.exponent != 0) w = std::pow(range, -s.exponent);
        if (s.angle_bandwidth != 0.) {
          w *= Gauss(std::remainder(hits[i].normal -
                                        std::atan2(-ray.y(), -ray.x()),
                                    2. * M_PI),
                     s.angle_bandwidth);
        }
        if (s.distance_bandwidth != 0.) w *= Gauss(d, s.distance_bandwidth);
        const double ow = was ? b->second.weight : 0.;
        const double od = was ? b->second.tsd : 0.;
        const double nw = ow + w;
        const double nd = (od * ow + d * w) / nw;
        const double cw = std::min(nw, s.max_weight);
        tried << " [" << nd << "/" << cw << "]";
        if (w < 1e-12 && unchanged) explained = true;
        if (is && std::abs(x->second.tsd - nd) <= tol_d &&
            std::abs(x->second.weight - cw) <=
                s.max_weight * 1.1 / 32766 + 2e-3 * w + 1e-4 * cw) {
          explained = true;
          if (nd < -0.2 * s.truncation) ++behind;
        }
      }
      VH_EXPECT(explained, "cell-update",
                "cell center " << center.transpose() << " was "
                               << (was ? VH_STR(b->second.tsd << "/"
                                                              << b->second
                                                                     .weight)
                                       : "unknown")
                               << " is "
                               << (is ? VH_STR(x->second.tsd
                                               << "/" << x->second.weight)
                                      : "unknown")
                               << " rays explain" << tried.str());
      ++updated;
      if (is) digest.AddD(x->second.tsd);
    }
  }
  vh::Count("cells_updated", updated);
  vh::Count("cells_behind_surface", behind);
  if (updated > 5) vh::Distinct(digest.Get());
  vh::Sample(VH_STR(scans << " scans, " << updated << " cells updated, "
                          << behind << " behind a surface"));
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
