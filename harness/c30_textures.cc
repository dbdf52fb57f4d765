// C30: submap textures encode the known cells at the place the slice pose and
// resolution assign to them, and painted maps show every submap at its pose.
#include <cmath>
#include <map>
#include <queue>
#include <set>

#include "absl/memory/memory.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/io/submap_painter.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/transform/transform.h"
#include "glog/logging.h"
#include "vh.h"
#include "zlib.h"

namespace io = cartographer::io;
namespace mapping = cartographer::mapping;
namespace mp = cartographer::mapping::proto;
namespace transform = cartographer::transform;
using transform::Rigid3d;

namespace {

Rigid3d RandomPose(vh::Rng& rng, double tilt) {
  const Eigen::Vector3d t(rng.Real(-30, 30), rng.Real(-30, 30),
                          tilt > 0 ? rng.Real(-3, 3) : 0.);
  Eigen::Quaterniond q(Eigen::AngleAxisd(
      rng.Chance(0.2) ? M_PI_2 * rng.Int(-2, 2) : rng.Real(-M_PI, M_PI),
      Eigen::Vector3d::UnitZ()));
  if (tilt > 0) {
    q = q * Eigen::AngleAxisd(rng.Real(-tilt, tilt), Eigen::Vector3d::UnitX()) *
        Eigen::AngleAxisd(rng.Real(-tilt, tilt), Eigen::Vector3d::UnitY());
  }
  return Rigid3d(t, q.normalized());
}

// Our own decompression, next to the library's.
std::string Gunzip(const std::string& in) {
  z_stream z{};
  VH_EXPECT(inflateInit2(&z, 16 + MAX_WBITS) == Z_OK, "zlib", "init");
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  std::string out;
  std::vector<char> buffer(1 << 16);
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buffer.data());
    z.avail_out = buffer.size();
    rc = inflate(&z, Z_NO_FLUSH);
    if (rc != Z_OK && rc != Z_STREAM_END) break;
    out.append(buffer.data(), buffer.size() - z.avail_out);
  } while (rc == Z_OK);
  inflateEnd(&z);
  VH_EXPECT(rc == Z_STREAM_END, "texture is not a gzip stream",
            rc << " for " << in.size() << " bytes");
  return out;
}

struct Texture {
  int width, height;
  double resolution;
  Rigid3d slice_pose;
  io::SubmapTexture::Pixels pixels;
  int value(int column, int row) const {
    return static_cast<uint8_t>(pixels.intensity[row * width + column]);
  }
  int alpha(int column, int row) const {
    return static_cast<uint8_t>(pixels.alpha[row * width + column]);
  }
  // Signed: lighter is positive.
  int delta(int column, int row) const {
    return value(column, row) - alpha(column, row);
  }
};

Texture Unpack(const mp::SubmapQuery::Response::SubmapTexture& t) {
  Texture r{t.width(), t.height(), t.resolution(),
            transform::ToRigid3(t.slice_pose()), {}};
  VH_EXPECT(r.width > 0 && r.height > 0 && r.width < 100000 &&
                r.height < 100000,
            "impossible texture size", r.width << "x" << r.height);
  const std::string raw = Gunzip(t.cells());
  VH_EXPECT(raw.size() == 2ull * r.width * r.height,
            "texture does not unpack to its size",
            raw.size() << " bytes for " << r.width << "x" << r.height);
  r.pixels = io::UnpackTextureData(t.cells(), r.width, r.height);
  VH_EXPECT(r.pixels.intensity.size() == raw.size() / 2 &&
                r.pixels.alpha.size() == raw.size() / 2,
            "unpacked pixels missing", r.pixels.intensity.size());
  for (size_t i = 0; i < raw.size() / 2; ++i) {
    VH_EXPECT(r.pixels.intensity[i] == raw[2 * i] &&
                  r.pixels.alpha[i] == raw[2 * i + 1],
              "unpacked pixels differ", i);
  }
  return r;
}

// Pixel (column, row) covering 'p', given in the submap frame.
Eigen::Vector2d PixelOf(const Texture& t, const Eigen::Vector3d& p) {
  const Eigen::Vector3d q = t.slice_pose.inverse() * p;
  return Eigen::Vector2d(-q.y() / t.resolution, -q.x() / t.resolution);
}

double LogOddsInteger(double p) {
  const auto logit = [](double v) { return std::log(v / (1. - v)); };
  return (logit(p) - logit(0.1)) * 254. / (logit(0.9) - logit(0.1)) + 1.;
}

struct Grid2DSetup {
  mapping::ValueConversionTables tables;
  std::unique_ptr<mapping::Submap2D> submap;
  mapping::MapLimits limits;
  // Known cells and what they are expected to show.
  std::map<std::pair<int, int>, double> delta;
};

Eigen::Vector3d CenterInLocal(const mapping::MapLimits& limits, int x, int y) {
  return Eigen::Vector3d(limits.max().x() - limits.resolution() * (y + 0.5),
                         limits.max().y() - limits.resolution() * (x + 0.5),
                         0.);
}

std::unique_ptr<Grid2DSetup> RandomGrid(vh::Rng& rng, bool tsdf) {
  const double resolution = rng.Real(0.02, 0.3);
  const int nx = rng.Int(1, 60), ny = rng.Int(1, 60);
  const mapping::MapLimits limits(
      resolution, Eigen::Vector2d(rng.Real(-20, 20), rng.Real(-20, 20)),
      mapping::CellLimits(nx, ny));
  std::unique_ptr<Grid2DSetup> s(new Grid2DSetup{{}, nullptr, limits, {}});
  const Eigen::Vector2f origin(rng.Real(-20, 20), rng.Real(-20, 20));
  const double rate = rng.Chance(0.1)   ? 0.
                      : rng.Chance(0.3) ? rng.Real(0, 0.02)
                                        : rng.Real(0, 1.);
  const int x0 = rng.Int(0, nx - 1), x1 = rng.Int(x0, nx - 1);
  const int y0 = rng.Int(0, ny - 1), y1 = rng.Int(y0, ny - 1);
  std::unique_ptr<mapping::Grid2D> grid;
  if (tsdf) {
    const float truncation = rng.Real(0.1, 0.5), weight = rng.Real(1, 100);
    auto g = absl::make_unique<mapping::TSDF2D>(limits, truncation, weight,
                                                &s->tables);
    for (int y = y0; y <= y1; ++y) {
      for (int x = x0; x <= x1; ++x) {
        if (!rng.Chance(rate)) continue;
        const float tsd = rng.Real(-truncation, truncation);
        const float w = rng.Real(0, weight);
        g->SetCell({x, y}, tsd, w);
        s->delta[{x, y}] = w / weight *
                           (std::sqrt(std::abs(tsd) / truncation) * 255 - 128);
      }
    }
    g->FinishUpdate();
    grid = std::move(g);
  } else {
    auto g = absl::make_unique<mapping::ProbabilityGrid>(limits, &s->tables);
    for (int y = y0; y <= y1; ++y) {
      for (int x = x0; x <= x1; ++x) {
        if (!rng.Chance(rate)) continue;
        const double p = rng.Chance(0.2)   ? 0.1
                         : rng.Chance(0.2) ? 0.9
                         : rng.Chance(0.1) ? 0.5
                                           : rng.Real(0.1, 0.9);
        g->SetProbability({x, y}, p);
        s->delta[{x, y}] = 128 - LogOddsInteger(p);
      }
    }
    g->FinishUpdate();
    grid = std::move(g);
  }
  s->submap = absl::make_unique<mapping::Submap2D>(origin, std::move(grid),
                                                   &s->tables);
  if (rng.Chance(0.5)) {
    // Loaded submaps may have any pose.
    mp::Submap proto = s->submap->ToProto(true);
    *proto.mutable_submap_2d()->mutable_local_pose() =
        transform::ToProto(RandomPose(rng, 0.));
    proto.mutable_submap_2d()->set_num_range_data(rng.Int(0, 500));
    s->submap =
        absl::make_unique<mapping::Submap2D>(proto.submap_2d(), &s->tables);
  }
  return s;
}

void Texture2D(vh::Rng& rng, bool tsdf) {
  const auto s = RandomGrid(rng, tsdf);
  mp::SubmapQuery::Response response;
  s->submap->ToResponseProto(RandomPose(rng, 0.), &response);
  VH_EXPECT(response.textures_size() == 1, "not one texture",
            response.textures_size());
  VH_EXPECT(response.submap_version() == s->submap->num_range_data(),
            "wrong version", response.submap_version());
  const Texture t = Unpack(response.textures(0));
  VH_EXPECT(std::abs(t.resolution - s->limits.resolution()) < 1e-9,
            "wrong resolution", t.resolution);
  const Rigid3d to_submap = s->submap->local_pose().inverse();
  std::set<std::pair<int, int>> shown;
  for (const auto& cell : s->delta) {
    const Eigen::Vector2d p = PixelOf(
        t, to_submap *
               CenterInLocal(s->limits, cell.first.first, cell.first.second));
    const int column = std::floor(p.x()), row = std::floor(p.y());
    VH_EXPECT(std::abs(p.x() - column - 0.5) < 0.01 &&
                  std::abs(p.y() - row - 0.5) < 0.01,
              "pixels do not line up with cells", p.transpose());
    VH_EXPECT(column >= 0 && row >= 0 && column < t.width && row < t.height,
              "known cell outside the texture",
              p.transpose() << " of " << t.width << "x" << t.height);
    VH_EXPECT(shown.emplace(column, row).second, "two cells in one pixel",
              p.transpose());
    const int value = t.value(column, row), alpha = t.alpha(column, row);
    VH_EXPECT(value != 0 || alpha != 0, "known cell not shown",
              p.transpose() << " " << cell.second);
    VH_EXPECT(value == 0 || alpha == 0, "pixel adds and subtracts",
              value << " " << alpha);
    const int expected = std::lround(cell.second);
    VH_EXPECT(std::abs(value - alpha - expected) <= 1,
              "pixel does not encode the cell",
              value - alpha << " not " << expected);
    vh::Count("cells_checked");
  }
  for (int row = 0; row < t.height; ++row) {
    for (int column = 0; column < t.width; ++column) {
      if (shown.count({column, row})) continue;
      VH_EXPECT(t.value(column, row) == 0 && t.alpha(column, row) == 0,
                "unknown cell is shown", column << " " << row);
      vh::Count("unknown_pixels_checked");
    }
  }
  if (s->delta.empty()) vh::Count("empty_textures");
  vh::Distinct(
      vh::Digest().Add(t.width).Add(t.height).Add(s->delta.size()).Get());
}

struct Voxels {
  double resolution;
  std::map<std::array<int, 3>, double> probability;
};

Voxels RandomVoxels(vh::Rng& rng, double resolution) {
  Voxels v;
  v.resolution = static_cast<float>(resolution);
  const int kind = rng.Int(0, 9);
  if (kind == 0) return v;  // nothing seen within range
  const int extent = rng.Int(1, 12), height = rng.Int(1, 10);
  const double rate = rng.Real(0.02, 0.9);
  const bool only_free = kind == 1;
  const int ox = rng.Int(-20, 20), oy = rng.Int(-20, 20);
  for (int x = -extent; x <= extent; ++x) {
    for (int y = -extent; y <= extent; ++y) {
      if (!rng.Chance(rate)) continue;
      const int z0 = rng.Int(-height, height);
      const int z1 = rng.Chance(0.5) ? z0 + rng.Int(0, height) : z0;
      for (int z = z0; z <= z1; ++z) {
        if (rng.Chance(0.2)) continue;
        double p = rng.Chance(0.7) ? rng.Real(0.51, 0.9) : rng.Real(0.1, 0.49);
        if (only_free) p = rng.Real(0.1, 0.49);
        v.probability[{{x + ox, y + oy, z}}] = p;
      }
    }
  }
  return v;
}

mp::HybridGrid ToProto(const Voxels& v) {
  mapping::HybridGrid grid(v.resolution);
  for (const auto& c : v.probability) {
    grid.SetProbability({c.first[0], c.first[1], c.first[2]}, c.second);
  }
  return grid.ToProto();
}

void CheckTexture3D(const Texture& t, const Voxels& v, const Rigid3d& pose) {
  VH_EXPECT(std::abs(t.resolution - v.resolution) < 1e-6, "wrong resolution",
            t.resolution);
  struct Pixel {
    int min_z = INT_MAX, max_z = INT_MIN, count = 0;
    double sum = 0, most = 0.5;
    bool clear = true;
  };
  std::map<std::pair<int, int>, Pixel> pixels;
  for (const auto& c : v.probability) {
    if (c.second < 0.5) continue;
    const Eigen::Vector3d center =
        v.resolution *
        Eigen::Vector3d(c.first[0], c.first[1], c.first[2]);
    const Eigen::Vector3d g = pose * center / v.resolution;
    bool clear = true;
    for (int d = 0; d < 3; ++d) {
      if (std::abs(g[d] - std::floor(g[d]) - 0.5) < 2e-3) clear = false;
    }
    const int x = std::lround(g.x()), y = std::lround(g.y()),
              z = std::lround(g.z());
    if (!clear) {
      for (int dx = -1; dx <= 1; ++dx) {
        for (int dy = -1; dy <= 1; ++dy) {
          pixels[{x + dx, y + dy}].clear = false;
        }
      }
      vh::Count("ambiguous_voxels");
      continue;
    }
    Pixel& p = pixels[{x, y}];
    p.min_z = std::min(p.min_z, z);
    p.max_z = std::max(p.max_z, z);
    ++p.count;
    p.sum += c.second;
    p.most = std::max(p.most, c.second);
    // Where the texture says this voxel is.
    const Eigen::Vector2d at = PixelOf(t, center);
    VH_EXPECT(at.x() > -1 && at.y() > -1 && at.x() < t.width + 1 &&
                  at.y() < t.height + 1,
              "voxel outside the texture",
              at.transpose() << " of " << t.width << "x" << t.height);
  }
  // The top left pixel is the largest index; pixel centers are voxels.
  const Eigen::Vector3d corner = pose * t.slice_pose.translation();
  const int max_x = std::lround(corner.x() / t.resolution);
  const int max_y = std::lround(corner.y() / t.resolution);
  for (int row = 0; row < t.height; ++row) {
    for (int column = 0; column < t.width; ++column) {
      const auto it = pixels.find({max_x - row, max_y - column});
      const int value = t.value(column, row), alpha = t.alpha(column, row);
      if (it == pixels.end()) {
        VH_EXPECT(value == 0 && alpha == 0, "pixel without voxels is shown",
                  column << " " << row);
        vh::Count("unknown_pixels_checked");
        continue;
      }
      const Pixel& p = it->second;
      if (!p.clear) continue;
      if (p.max_z - p.min_z < 3) {
        VH_EXPECT(value == 0 && alpha == 0, "low column is shown",
                  column << " " << row << " " << p.max_z - p.min_z);
        vh::Count("low_columns_checked");
        continue;
      }
      VH_EXPECT(value != 0 || alpha != 0, "column not shown",
                column << " " << row);
      const double free = std::max(p.max_z - p.min_z - p.count, 0);
      const double average =
          (p.sum + (1. - p.most) * 0.15 * free) / (p.count + 0.15 * free);
      const double expected =
          128 - LogOddsInteger(std::min(0.9, std::max(0.1, average)));
      VH_EXPECT(std::abs(value - alpha - expected) <= 1.6,
                "pixel does not encode the column",
                column << " " << row << ": " << value - alpha << " not "
                       << expected);
      vh::Count("columns_checked");
    }
  }
  for (const auto& p : pixels) {
    if (p.second.count == 0) continue;
    const int row = max_x - p.first.first, column = max_y - p.first.second;
    VH_EXPECT(row >= 0 && column >= 0 && row < t.height && column < t.width,
              "voxel outside the texture",
              column << " " << row << " of " << t.width << "x" << t.height);
  }
  vh::Count(v.probability.empty() ? "textures_without_voxels"
            : pixels.empty()      ? "textures_without_obstacles"
                                  : "textures_with_obstacles");
  vh::Distinct(vh::Digest().Add(t.width).Add(t.height).Add(pixels.size()).Get());
}

// ---- painting

struct Block {
  double x, y;  // center in the submap frame, in meters
  bool occupied;
};

struct Painted {
  Rigid3d pose;
  double resolution;
  std::vector<Block> blocks;
  double half;  // half the side of a block, in meters
  bool three_d;
};

mp::Submap RandomSubmapProto(vh::Rng& rng, bool three_d, Painted* out,
                             mapping::ValueConversionTables* tables) {
  const int num = rng.Int(1, 4);
  out->three_d = three_d;
  out->resolution = rng.Real(0.05, 0.2);
  const int k = three_d ? 9 : 7;
  out->half = 0.5 * k * out->resolution;
  std::vector<std::pair<int, int>> cells;  // lower corners of blocks
  for (int i = 0; i < num; ++i) {
    const int x = rng.Int(0, 80), y = rng.Int(0, 80);
    bool clash = false;
    for (const auto& c : cells) {
      if (std::abs(c.first - x) < 3 * k && std::abs(c.second - y) < 3 * k) {
        clash = true;
      }
    }
    if (!clash) cells.emplace_back(x, y);
  }
  mp::Submap proto;
  if (three_d) {
    mapping::HybridGrid grid(out->resolution), low(3 * out->resolution);
    for (const auto& c : cells) {
      for (int x = 0; x < k; ++x) {
        for (int y = 0; y < k; ++y) {
          for (int z = 0; z < 10; ++z) {
            grid.SetProbability({c.first + x - 40, c.second + y - 40, z - 5},
                                0.9);
          }
        }
      }
      out->blocks.push_back({(c.first - 40 + (k - 1) / 2.) * out->resolution,
                             (c.second - 40 + (k - 1) / 2.) * out->resolution,
                             true});
    }
    auto* s = proto.mutable_submap_3d();
    *s->mutable_high_resolution_hybrid_grid() = grid.ToProto();
    *s->mutable_low_resolution_hybrid_grid() = low.ToProto();
    *s->mutable_local_pose() = transform::ToProto(RandomPose(rng, 0.2));
    s->set_finished(true);
    return proto;
  }
  const mapping::MapLimits limits(
      out->resolution, Eigen::Vector2d(rng.Real(-10, 10), rng.Real(-10, 10)),
      mapping::CellLimits(100, 90));
  auto grid = absl::make_unique<mapping::ProbabilityGrid>(limits, tables);
  const Rigid3d local = RandomPose(rng, 0.);
  for (const auto& c : cells) {
    const bool occupied = rng.Chance(0.5);
    for (int x = 0; x < k; ++x) {
      for (int y = 0; y < k; ++y) {
        grid->SetProbability({c.first + x, c.second + y}, occupied ? 0.9 : 0.1);
      }
    }
    const Eigen::Vector3d center =
        local.inverse() *
        CenterInLocal(limits, c.first + k / 2, c.second + k / 2);
    out->blocks.push_back({center.x(), center.y(), occupied});
  }
  grid->FinishUpdate();
  mapping::Submap2D submap(Eigen::Vector2f::Zero(), std::move(grid), tables);
  proto = submap.ToProto(true);
  *proto.mutable_submap_2d()->mutable_local_pose() = transform::ToProto(local);
  proto.mutable_submap_2d()->set_finished(true);
  return proto;
}

// Whether 'world' lies within 'margin' of one of the blocks.
bool Near(const Painted& p, const Eigen::Vector3d& world, double margin) {
  for (const Block& b : p.blocks) {
    if (p.three_d) {
      // Tilted columns are seen from above.
      const Eigen::Vector3d c = p.pose * Eigen::Vector3d(b.x, b.y, 0);
      const double reach =
          p.half * M_SQRT2 + 5 * p.resolution * 0.2 + margin + p.resolution;
      if ((c - world).head<2>().norm() < reach) return true;
      continue;
    }
    const Eigen::Vector3d q = p.pose.inverse() * world;
    // Blocks are aligned with the local frame, not with the submap frame.
    if ((q.head<2>() - Eigen::Vector2d(b.x, b.y)).norm() <
        p.half * M_SQRT2 + margin) {
      return true;
    }
  }
  return false;
}

void Painting(vh::Rng& rng) {
  mapping::ValueConversionTables tables;
  const bool three_d = rng.Chance(0.3);
  const int num = rng.Int(1, 5);
  std::vector<Painted> painted;
  std::map<mapping::SubmapId, io::SubmapSlice> slices;
  mp::PoseGraph pose_graph;
  std::queue<std::unique_ptr<google::protobuf::Message>> messages;
  std::vector<std::unique_ptr<mp::SerializedData>> data;
  const bool deserialize = rng.Chance(0.4);
  int trajectory = 0, index = rng.Int(0, 3);
  mp::Trajectory* trajectory_proto = pose_graph.add_trajectory();
  std::set<mapping::SubmapId> without;
  for (int i = 0; i < num; ++i) {
    if (rng.Chance(0.3)) {
      ++trajectory;
      trajectory_proto = pose_graph.add_trajectory();
      trajectory_proto->set_trajectory_id(trajectory);
    }
    const mapping::SubmapId id(trajectory, index);
    index += rng.Int(1, 3);
    if (!deserialize && rng.Chance(0.2)) {
      // Known, but its texture has not been fetched yet.
      slices[id].pose = RandomPose(rng, 0);
      without.insert(id);
      continue;
    }
    Painted p;
    p.pose = RandomPose(rng, three_d ? 0.1 : 0.);
    const mp::Submap proto = RandomSubmapProto(rng, three_d, &p, &tables);
    auto* submap_proto = trajectory_proto->add_submap();
    submap_proto->set_submap_index(id.submap_index);
    *submap_proto->mutable_pose() = transform::ToProto(p.pose);
    if (deserialize) {
      data.push_back(absl::make_unique<mp::SerializedData>());
      *data.back()->mutable_submap() = proto;
      data.back()->mutable_submap()->mutable_submap_id()->set_trajectory_id(
          id.trajectory_id);
      data.back()->mutable_submap()->mutable_submap_id()->set_submap_index(
          id.submap_index);
    } else {
      io::FillSubmapSlice(p.pose, proto, &slices[id], &tables);
    }
    painted.push_back(p);
  }
  if (painted.empty()) return;
  if (deserialize) {
    io::InMemoryProtoStreamReader* reader = nullptr;
    {
      auto header = absl::make_unique<mp::SerializationHeader>();
      header->set_format_version(2);
      messages.push(std::move(header));
      auto d = absl::make_unique<mp::SerializedData>();
      *d->mutable_pose_graph() = pose_graph;
      messages.push(std::move(d));
      d = absl::make_unique<mp::SerializedData>();
      for (int k = 0; k < pose_graph.trajectory_size(); ++k) {
        d->mutable_all_trajectory_builder_options()
            ->add_options_with_sensor_ids();
      }
      messages.push(std::move(d));
    }
    rng.Shuffle(&data);
    for (auto& d : data) {
      if (rng.Chance(0.3)) {
        auto other = absl::make_unique<mp::SerializedData>();
        other->mutable_imu_data()->set_trajectory_id(0);
        messages.push(std::move(other));
      }
      messages.push(std::move(d));
    }
    io::InMemoryProtoStreamReader stream(std::move(messages));
    reader = &stream;
    io::ProtoStreamDeserializer deserializer(reader);
    io::DeserializeAndFillSubmapSlices(&deserializer, &slices, &tables);
    VH_EXPECT(slices.size() == painted.size(), "slices missing",
              slices.size() << " of " << painted.size());
    vh::Count("maps_from_streams");
  }
  double resolution = 1e9;
  for (const auto& p : painted) resolution = std::min(resolution, p.resolution);
  resolution *= rng.Real(0.5, 1.4);
  const auto result = io::PaintSubmapSlices(slices, resolution);
  cairo_surface_t* surface = result.surface.get();
  VH_EXPECT(surface != nullptr &&
                cairo_surface_status(surface) == CAIRO_STATUS_SUCCESS,
            "no surface", "");
  const int w = cairo_image_surface_get_width(surface);
  const int h = cairo_image_surface_get_height(surface);
  const int stride = cairo_image_surface_get_stride(surface);
  const unsigned char* pixels = cairo_image_surface_get_data(surface);
  const auto pixel = [&](int x, int y) {
    uint32_t u;
    memcpy(&u, pixels + y * stride + 4 * x, 4);
    return u;
  };
  const auto to_image = [&](const Eigen::Vector3d& world) {
    return Eigen::Vector2d(world.x() / resolution + result.origin.x(),
                           -world.y() / resolution + result.origin.y());
  };
  // All slices lie inside the image.
  size_t drawn = 0;
  for (const auto& s : slices) {
    if (without.count(s.first)) continue;
    VH_EXPECT(s.second.surface != nullptr, "slice not drawn", s.first);
    ++drawn;
    for (int a = 0; a < 2; ++a) {
      for (int b = 0; b < 2; ++b) {
        const Eigen::Vector3d corner =
            s.second.pose * s.second.slice_pose *
            Eigen::Vector3d(-a * s.second.height * s.second.resolution,
                            -b * s.second.width * s.second.resolution, 0.);
        const Eigen::Vector2d at = to_image(corner);
        VH_EXPECT(at.x() >= -0.5 && at.y() >= -0.5 && at.x() <= w + 0.5 &&
                      at.y() <= h + 0.5,
                  "submap outside the painted map",
                  at.transpose() << " of " << w << "x" << h);
      }
    }
  }
  VH_EXPECT(drawn == painted.size(), "slices missing", drawn);
  for (size_t k = 0; k < painted.size(); ++k) {
    const Painted& p = painted[k];
    for (const Block& b : p.blocks) {
      const Eigen::Vector3d world = p.pose * Eigen::Vector3d(b.x, b.y, 0.);
      const Eigen::Vector2d at = to_image(world);
      int green = 0, red = 0;
      const int cx = std::floor(at.x()), cy = std::floor(at.y());
      VH_EXPECT(cx >= 1 && cy >= 1 && cx < w - 1 && cy < h - 1,
                "block outside the painted map", at.transpose());
      // The cells of a turned 3D submap leave holes of a cell when seen along
      // the axes of the map.
      const int reach =
          p.three_d ? std::ceil(1.5 * p.resolution / resolution) : 1;
      for (int dx = -reach; dx <= reach; ++dx) {
        for (int dy = -reach; dy <= reach; ++dy) {
          if (cx + dx < 0 || cy + dy < 0 || cx + dx >= w || cy + dy >= h) {
            continue;
          }
          green = std::max<int>(green, (pixel(cx + dx, cy + dy) >> 8) & 255);
        }
      }
      red = (pixel(cx, cy) >> 16) & 255;
      VH_EXPECT(green >= 200, "submap not painted at its pose",
                "block at " << world.transpose() << " pixel " << at.transpose()
                            << " of " << w << "x" << h << " shows " << std::hex
                            << pixel(cx, cy));
      bool alone = !p.three_d;
      for (size_t j = 0; j < painted.size(); ++j) {
        if (j != k && Near(painted[j], world, 4 * p.resolution)) alone = false;
      }
      if (alone) {
        VH_EXPECT(b.occupied ? red < 100 : red > 200, "wrong shade",
                  "occupied " << b.occupied << " red " << red);
        vh::Count("shades_checked");
      }
      vh::Count("blocks_checked");
    }
  }
  for (int y = 0; y < h; ++y) {
    for (int x = 0; x < w; ++x) {
      if (((pixel(x, y) >> 8) & 255) < 128) continue;
      const Eigen::Vector3d world((x + 0.5 - result.origin.x()) * resolution,
                                  -(y + 0.5 - result.origin.y()) * resolution,
                                  0.);
      bool near = false;
      for (const Painted& p : painted) {
        near |= Near(p, world, 2 * resolution + p.resolution);
      }
      VH_EXPECT(near, "something painted where no submap knows anything",
                world.transpose() << " pixel " << x << " " << y);
      vh::Count("painted_pixels_checked");
    }
  }
  vh::Count("maps");
  if (!without.empty()) vh::Count("maps_with_missing_textures");
  vh::Distinct(vh::Digest().Add(w).Add(h).Add(painted.size()).Get());
}

}  // namespace

VH_SCENARIO(texture_probability, 60, 1000) { Texture2D(rng, false); }

VH_SCENARIO(texture_tsdf, 60, 1000) { Texture2D(rng, true); }

VH_SCENARIO(texture_3d, 60, 1000) {
  const Voxels high = RandomVoxels(rng, rng.Real(0.05, 0.3));
  const Voxels low = RandomVoxels(rng, rng.Real(0.2, 0.6));
  mp::Submap3D proto;
  *proto.mutable_high_resolution_hybrid_grid() = ToProto(high);
  *proto.mutable_low_resolution_hybrid_grid() = ToProto(low);
  *proto.mutable_local_pose() = transform::ToProto(RandomPose(rng, 0.5));
  proto.set_num_range_data(rng.Int(0, 400));
  proto.set_finished(rng.Chance(0.5));
  const mapping::Submap3D submap(proto);
  const Rigid3d pose = RandomPose(rng, rng.Chance(0.5) ? 0. : 0.5);
  mp::SubmapQuery::Response response;
  submap.ToResponseProto(pose, &response);
  VH_EXPECT(response.textures_size() == 2, "not two textures",
            response.textures_size());
  VH_EXPECT(response.submap_version() == proto.num_range_data(),
            "wrong version", response.submap_version());
  CheckTexture3D(Unpack(response.textures(0)), high, pose);
  CheckTexture3D(Unpack(response.textures(1)), low, pose);
}

VH_SCENARIO(painting, 60, 1000) { Painting(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
