// C06: compression keeps every point within the quantization error.
#include <array>

#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/sensor/point_cloud.h"
#include "vh.h"

namespace sensor = cartographer::sensor;

namespace {

using Cell = std::array<int64_t, 3>;

Cell CellOf(const Eigen::Vector3f& p) {
  Cell c;
  for (int i = 0; i < 3; ++i) c[i] = std::lround(p[i] / 0.001f);
  return c;
}

void CheckCloud(const sensor::PointCloud& cloud, const std::string& what) {
  const sensor::CompressedPointCloud compressed(cloud);
  VH_EXPECT(compressed.size() == cloud.size() &&
                compressed.empty() == cloud.empty(),
            "size", what << ": size " << compressed.size());
  const sensor::PointCloud out = compressed.Decompress();
  VH_EXPECT(out.size() == cloud.size(), "count",
            what << ": " << cloud.size() << " points in, " << out.size()
                 << " out");
  std::multiset<Cell> in_cells, out_cells;
  std::map<Cell, std::vector<Eigen::Vector3f>> originals;
  for (const auto& p : cloud.points()) {
    in_cells.insert(CellOf(p.position));
    originals[CellOf(p.position)].push_back(p.position);
  }
  for (const auto& p : out.points()) {
    const Cell c = CellOf(p.position);
    out_cells.insert(c);
    auto it = originals.find(c);
    VH_EXPECT(it != originals.end(), "moved",
              what << ": decompressed point " << p.position.transpose()
                   << " has no original");
    for (const auto& o : it->second) {
      for (int k = 0; k < 3; ++k) {
        const double error = std::abs(double(p.position[k]) - double(o[k]));
        VH_EXPECT(error <= 0.0005 + 3e-7 * std::abs(o[k]) + 1e-7,
                  "quantization-error",
                  what << ": coordinate " << o[k] << " became "
                       << p.position[k]);
      }
    }
  }
  VH_EXPECT(in_cells == out_cells, "multiplicity",
            what << ": a point was lost or repeated");
  // Iteration and decompression agree, each point once.
  size_t i = 0;
  for (const sensor::RangefinderPoint& p : compressed) {
    VH_EXPECT(i < out.size() && p.position == out[i].position, "iteration",
              what << ": iteration differs from decompression at " << i);
    ++i;
  }
  VH_EXPECT(i == out.size(), "iteration", what << ": visited " << i);
  // Nothing more is lost by storing, reloading, or compressing again.
  const auto proto = compressed.ToProto();
  std::string bytes = proto.SerializeAsString();
  sensor::proto::CompressedPointCloud parsed;
  VH_EXPECT(parsed.ParseFromString(bytes), "parse", what);
  const sensor::CompressedPointCloud loaded(parsed);
  VH_EXPECT(loaded == compressed && loaded.size() == compressed.size(),
            "stored-form", what << ": reloaded cloud differs");
  const sensor::PointCloud again = loaded.Decompress();
  VH_EXPECT(again.size() == out.size(), "stored-form", what);
  for (size_t k = 0; k < out.size(); ++k) {
    VH_EXPECT(again[k].position == out[k].position, "stored-form",
              what << ": reloaded point differs");
  }
  const sensor::CompressedPointCloud twice(out);
  std::multiset<std::array<float, 3>> a, b;
  for (const auto& p : out.points()) {
    a.insert({p.position.x(), p.position.y(), p.position.z()});
  }
  for (const sensor::RangefinderPoint& p : twice) {
    b.insert({p.position.x(), p.position.y(), p.position.z()});
  }
  VH_EXPECT(a == b, "not-idempotent",
            what << ": compressing a decompressed cloud changed it");
  vh::Count("points", cloud.size());
}

float Coordinate(vh::Rng& rng, double extent) {
  const int kind = rng.Int(0, 5);
  double v;
  if (kind == 0) {
    // Around block borders (multiples of 1.024 m).
    v = rng.Int(-extent / 1.024, extent / 1.024) * 1.024 +
        0.001 * (rng.Int(-2, 2) + rng.Real(-0.4, 0.4));
  } else if (kind == 1) {
    v = 0.001 * (rng.Int(-3, 3) + rng.Real(-0.4, 0.4));
  } else {
    v = 0.001 * (rng.Int(-extent * 1000, extent * 1000) +
                 rng.Real(-0.4, 0.4));
  }
  return static_cast<float>(v);
}

}  // namespace

VH_SCENARIO(clouds, 3500, 120000) {
  const int n = rng.Chance(0.05) ? 0 : rng.Int(1, rng.Chance(0.1) ? 800 : 80);
  const double extent = rng.Chance(0.3) ? 2. : rng.Chance(0.6) ? 40. : 300.;
  std::vector<sensor::RangefinderPoint> points;
  std::set<Cell> blocks;
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p(Coordinate(rng, extent), Coordinate(rng, extent),
                      rng.Chance(0.2) ? 0.f : Coordinate(rng, extent));
    if (i > 0 && rng.Chance(0.15)) p = points[rng.Int(0, i - 1)].position;
    if (i > 0 && rng.Chance(0.15)) {
      p[rng.Int(0, 2)] = points[rng.Int(0, i - 1)].position[0];
    }
    points.push_back({p});
    Cell c = CellOf(p);
    for (auto& x : c) x >>= 10;
    blocks.insert(c);
  }
  CheckCloud(sensor::PointCloud(points), "cloud");
  vh::Max("blocks", blocks.size());
  if (blocks.size() > 1) {
    vh::Distinct(vh::Digest().Add(n).Add(blocks.size()).AddD(
        points[0].position.x()).AddD(points[0].position.y()).Get());
  }
  if (n > 0) {
    vh::Sample(VH_STR(n << " points in " << blocks.size()
                        << " blocks, first at "
                        << points[0].position.transpose()));
  }
}

// Near the largest supported coordinate.
VH_SCENARIO(far, 6, 60) {
  std::vector<sensor::RangefinderPoint> points;
  for (int i = 0; i < 8; ++i) {
    Eigen::Vector3f p = Eigen::Vector3f::Zero();
    p[rng.Int(0, 2)] = (rng.Chance(0.5) ? 1. : -1.) * rng.Real(2000., 8380.);
    points.push_back({p});
  }
  CheckCloud(sensor::PointCloud(points), "far cloud");
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
