// C05: voxel filtering keeps exactly one input point per occupied voxel.
#include <array>
#include <tuple>

#include "cartographer/sensor/internal/voxel_filter.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "vh.h"

namespace sensor = cartographer::sensor;

namespace {

using Voxel = std::array<int64_t, 3>;

Voxel VoxelOf(const Eigen::Vector3f& p, float resolution) {
  Voxel v;
  for (int i = 0; i < 3; ++i) v[i] = std::lround(p[i] / resolution);
  return v;
}

struct Cloud {
  std::vector<Eigen::Vector3f> points;
  std::vector<float> times;
  std::vector<float> intensities;  // unique per point
};

// Points well inside voxels of edge 'r', any sign, up to 'extent' voxels out.
Cloud Generate(vh::Rng& rng, float r, int n, int64_t extent) {
  Cloud c;
  const double u = extent > 50000 ? 0.25 : 0.45;
  const bool flat = rng.Chance(0.3);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p;
    if (i > 0 && rng.Chance(0.1)) {
      p = c.points[rng.Int(0, i - 1)];  // exact duplicate
    } else {
      for (int k = 0; k < 3; ++k) {
        double v = rng.Int(-extent, extent) + rng.Real(-u, u);
        // Voxels that differ in one index only, opposite signs, extremes.
        if (rng.Chance(0.15)) v = (rng.Chance(0.5) ? 1. : -1.) * extent;
        if (i > 0 && rng.Chance(0.3)) v = c.points[i - 1][k] / r;
        if (i > 0 && rng.Chance(0.1)) v = -c.points[i - 1][k] / r;
        p[k] = static_cast<float>(v * r);
      }
      if (flat) p.z() = 0.f;
      if (i > 0 && rng.Chance(0.25)) {
        // Far apart by powers of two, next to each other in another axis.
        p = c.points[rng.Int(0, i - 1)];
        const int axis = rng.Int(0, 2), other = rng.Int(0, 2);
        const auto step = [&](int k, int bits) {
          const double v = std::round(p[k] / r) +
                           (rng.Chance(0.5) ? 1. : -1.) * std::pow(2., bits) +
                           rng.Real(-u, u) / 2;
          if (std::abs(v) <= extent) p[k] = static_cast<float>(v * r);
        };
        step(axis, rng.Int(0, 20));
        if (other != axis) step(other, rng.Chance(0.8) ? 0 : rng.Int(0, 20));
      }
    }
    c.points.push_back(p);
    c.times.push_back(-1.f + i * 1e-3f);
    c.intensities.push_back(i + 1.f);
  }
  return c;
}

// 'kept' are the indices of the input the result consists of, in order.
void CheckSelection(const Cloud& cloud, float r, const std::vector<int>& kept,
                    const std::string& what) {
  std::set<Voxel> all, seen;
  for (const auto& p : cloud.points) all.insert(VoxelOf(p, r));
  for (size_t i = 0; i < kept.size(); ++i) {
    VH_EXPECT(i == 0 || kept[i] > kept[i - 1], "order",
              what << ": original order not kept or point repeated");
    VH_EXPECT(seen.insert(VoxelOf(cloud.points[kept[i]], r)).second,
              "two-in-a-voxel", what << ": two points of one voxel kept");
  }
  VH_EXPECT(seen.size() == all.size(), "voxel-lost",
            what << ": " << all.size() << " voxels occupied, " << seen.size()
                 << " represented (edge " << r << ")");
}

// Maps result points to input indices; duplicates of a position are matched
// to any of the inputs at that position, in order.
std::vector<int> Match(const Cloud& cloud,
                       const std::vector<Eigen::Vector3f>& result) {
  std::vector<int> kept;
  size_t next = 0;
  for (const auto& p : result) {
    while (next < cloud.points.size() && !(cloud.points[next] == p)) ++next;
    VH_EXPECT(next < cloud.points.size(), "not-a-subsequence",
              "result point is not an input point in order: "
                  << p.transpose());
    kept.push_back(next++);
  }
  return kept;
}

sensor::PointCloud ToPointCloud(const Cloud& c, bool intensities) {
  std::vector<sensor::RangefinderPoint> points;
  for (const auto& p : c.points) points.push_back({p});
  if (!intensities) return sensor::PointCloud(points);
  return sensor::PointCloud(points, c.intensities);
}

}  // namespace

VH_SCENARIO(plain, 6000, 200000) {
  const float r = rng.Chance(0.3) ? 0.05f : rng.Real(0.01, 5.);
  const int n = rng.Int(0, rng.Chance(0.2) ? 300 : 60);
  const int64_t extent = rng.Chance(0.35) ? (1 << 20) - 2
                         : rng.Chance(0.5) ? 3
                                           : rng.Int(1, 4000);
  const Cloud cloud = Generate(rng, r, n, extent);
  std::vector<sensor::RangefinderPoint> points;
  sensor::TimedPointCloud timed;
  std::vector<sensor::TimedPointCloudOriginData::RangeMeasurement> ranges;
  for (int i = 0; i < n; ++i) {
    points.push_back({cloud.points[i]});
    timed.push_back({cloud.points[i], cloud.times[i]});
    ranges.push_back({{cloud.points[i], cloud.times[i]},
                      cloud.intensities[i],
                      static_cast<size_t>(i * 3)});
  }
  std::vector<Eigen::Vector3f> out;
  for (const auto& p : sensor::VoxelFilter(points, r)) out.push_back(p.position);
  CheckSelection(cloud, r, Match(cloud, out), "points");
  const size_t count = out.size();

  const auto plain = sensor::VoxelFilter(ToPointCloud(cloud, false), r);
  out.clear();
  for (const auto& p : plain.points()) out.push_back(p.position);
  CheckSelection(cloud, r, Match(cloud, out), "point cloud");
  VH_EXPECT(plain.intensities().empty(), "intensities-invented",
            "cloud without intensities has some after filtering");

  const auto with = sensor::VoxelFilter(ToPointCloud(cloud, true), r);
  VH_EXPECT(with.intensities().size() == with.points().size(),
            "intensities-count", with.intensities().size());
  std::vector<int> kept;
  for (size_t i = 0; i < with.size(); ++i) {
    const int index = std::lround(with.intensities()[i]) - 1;
    VH_EXPECT(index >= 0 && index < n && cloud.points[index] ==
                                             with[i].position,
              "intensity-detached",
              "intensity " << with.intensities()[i] << " on the wrong point");
    kept.push_back(index);
  }
  CheckSelection(cloud, r, kept, "cloud with intensities");

  const auto timed_out = sensor::VoxelFilter(timed, r);
  kept.clear();
  for (const auto& p : timed_out) {
    const int index = std::lround((p.time + 1.f) * 1e3f);
    VH_EXPECT(index >= 0 && index < n && cloud.times[index] == p.time &&
                  cloud.points[index] == p.position,
              "time-detached", "time " << p.time << " on the wrong point");
    kept.push_back(index);
  }
  CheckSelection(cloud, r, kept, "timed cloud");

  const auto ranges_out = sensor::VoxelFilter(ranges, r);
  kept.clear();
  for (const auto& m : ranges_out) {
    const int index = std::lround(m.intensity) - 1;
    VH_EXPECT(index >= 0 && index < n &&
                  cloud.points[index] == m.point_time.position &&
                  m.point_time.time == cloud.times[index] &&
                  m.origin_index == static_cast<size_t>(index * 3),
              "measurement-detached", "measurement fields mixed up");
    kept.push_back(index);
  }
  CheckSelection(cloud, r, kept, "range measurements");
  vh::Count("points_in", 5 * n);
  vh::Count("points_kept", 5 * count);
  if (count > 1 && static_cast<int>(count) < n) {
    vh::Distinct(vh::Digest().Add(n).Add(count).AddD(r).AddD(
        cloud.points[0].x()).Get());
  }
  vh::Sample(VH_STR(n << " points, edge " << r << ", up to " << extent
                      << " voxels out: " << count << " voxels"));
}

VH_SCENARIO(adaptive, 3000, 80000) {
  sensor::proto::AdaptiveVoxelFilterOptions options;
  const float max_length = rng.Real(0.1, 5.);
  const float spread = max_length * rng.Real(0.05, 8.);
  options.set_max_length(max_length);
  options.set_min_num_points(rng.Int(0, 150));
  options.set_max_range(rng.Chance(0.5) ? 1e6 : spread * rng.Real(0.3, 1.5));
  const int n = rng.Int(0, 250);
  const bool clustered = rng.Chance(0.15);
  Cloud cloud;
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p(rng.Real(-spread, spread), rng.Real(-spread, spread),
                      rng.Chance(0.5) ? 0.f : rng.Real(-spread, spread));
    // Clusters much tighter than any edge length tried.
    if (clustered && i > 0 && rng.Chance(0.9)) {
      p = cloud.points[rng.Int(0, i - 1)];
      p.x() += max_length * 1e-4f * static_cast<float>(rng.Unit());
    }
    cloud.points.push_back(p);
    cloud.intensities.push_back(i + 1.f);
  }
  const bool intensities = rng.Chance(0.5);
  const auto result =
      sensor::AdaptiveVoxelFilter(ToPointCloud(cloud, intensities), options);
  Cloud in_range;
  int borderline = 0;
  for (int i = 0; i < n; ++i) {
    const double d = cloud.points[i].cast<double>().norm();
    if (std::abs(d - options.max_range()) < 1e-4 * options.max_range()) {
      ++borderline;
    }
    if (d <= options.max_range()) {
      in_range.points.push_back(cloud.points[i]);
      in_range.intensities.push_back(cloud.intensities[i]);
    }
  }
  if (borderline > 0) return;
  std::vector<Eigen::Vector3f> out;
  for (const auto& p : result.points()) {
    VH_EXPECT(p.position.cast<double>().norm() <= options.max_range(),
              "beyond-range", p.position.transpose());
    out.push_back(p.position);
  }
  std::vector<int> kept;
  if (intensities) {
    VH_EXPECT(result.intensities().size() == result.size(),
              "intensities-count", result.intensities().size());
    std::map<float, int> by_intensity;
    for (size_t i = 0; i < in_range.points.size(); ++i) {
      by_intensity[in_range.intensities[i]] = i;
    }
    for (size_t i = 0; i < out.size(); ++i) {
      const auto it = by_intensity.find(result.intensities()[i]);
      VH_EXPECT(it != by_intensity.end() &&
                    in_range.points[it->second] == out[i],
                "intensity-detached", "adaptive filter mixed up intensities");
      kept.push_back(it->second);
    }
  } else {
    kept = Match(in_range, out);
  }
  auto count = [&](float length) {
    std::set<Voxel> v;
    for (const auto& p : in_range.points) v.insert(VoxelOf(p, length));
    return v.size();
  };
  const size_t wanted = options.min_num_points();
  const size_t available = in_range.points.size();
  if (available <= wanted) {
    VH_EXPECT(out.size() == available, "sparse-cloud-thinned",
              available << " points within range, " << wanted << " wanted, "
                        << out.size() << " returned");
    vh::Count("already_sparse");
    return;
  }
  // Coarsest of the edge lengths tried that is dense enough.
  float length = max_length;
  bool dense = count(length) >= wanted;
  if (!dense) {
    for (float high = max_length; high > 1e-2f * max_length; high /= 2.f) {
      float low = high / 2.f;
      length = low;
      if (count(low) >= wanted) {
        dense = true;
        while ((high - low) / low > 1e-1f) {
          const float mid = (low + high) / 2.f;
          (count(mid) >= wanted ? low : high) = mid;
        }
        length = low;
        break;
      }
    }
  }
  VH_EXPECT(!dense || out.size() >= wanted, "too-few-points",
            wanted << " points wanted, edge length " << length << " gives "
                   << count(length) << ", returned " << out.size());
  CheckSelection(in_range, length, kept, "adaptive");
  vh::Count(dense ? "adapted" : "gave_up");
  if (dense && length < max_length) {
    vh::Count("adapted_below_maximum");
    vh::Distinct(vh::Digest().Add(n).Add(wanted).AddD(length).Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
