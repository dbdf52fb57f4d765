// C29: exported point files are well formed and contain every point once;
// exported grids and images have the size of the mapped area and mark the
// points' cells. Files are parsed back by readers of our own.
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "absl/memory/memory.h"
#include "cairo/cairo.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/io/hybrid_grid_points_processor.h"
#include "cartographer/io/image.h"
#include "cartographer/io/null_points_processor.h"
#include "cartographer/io/pcd_writing_points_processor.h"
#include "cartographer/io/ply_writing_points_processor.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/probability_grid_points_processor.h"
#include "cartographer/io/xray_points_processor.h"
#include "cartographer/io/xyz_writing_points_processor.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/proto/hybrid_grid.pb.h"
#include "cartographer/transform/transform.h"
#include "glog/logging.h"
#include "vh.h"

namespace io = cartographer::io;
namespace common = cartographer::common;
namespace mapping = cartographer::mapping;
namespace transform = cartographer::transform;

namespace {

std::string Path(const std::string& name) {
  return vh::S().scratch + "/" + name;
}

std::string ReadFile(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  VH_EXPECT(in.good(), "file missing", path);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

// A file in memory.
class MemoryFile : public io::FileWriter {
 public:
  MemoryFile(const std::string& name, std::shared_ptr<std::vector<char>> content)
      : name_(name), content_(content) {}
  bool WriteHeader(const char* data, size_t len) override {
    VH_EXPECT(!closed_, "write after close", name_);
    if (content_->size() < len) content_->resize(len);
    std::copy(data, data + len, content_->begin());
    return true;
  }
  bool Write(const char* data, size_t len) override {
    VH_EXPECT(!closed_, "write after close", name_);
    content_->insert(content_->end(), data, data + len);
    return true;
  }
  bool Close() override {
    const bool ok = !closed_;
    closed_ = true;
    return ok;
  }
  std::string GetFilename() override { return name_; }

 private:
  const std::string name_;
  const std::shared_ptr<std::vector<char>> content_;
  bool closed_ = false;
};

// Records what passes the stage under test.
class Sink : public io::PointsProcessor {
 public:
  void Process(std::unique_ptr<io::PointsBatch> batch) override {
    points += batch->points.size();
    ++batches;
  }
  FlushResult Flush() override {
    ++flushes;
    return FlushResult::kFinished;
  }
  size_t points = 0, batches = 0;
  int flushes = 0;
};

// A file in memory or in the scratch directory.
struct File {
  explicit File(vh::Rng& rng) : on_disk(rng.Chance(0.4)) {
    path = Path("export" + std::to_string(rng.Int(0, 3)) + ".bin");
    if (on_disk && rng.Chance(0.5)) {
      // A longer file of that name exists already.
      std::ofstream(path) << std::string(rng.Int(0, 50000), 'x');
    }
  }
  std::unique_ptr<io::FileWriter> Writer() {
    if (on_disk) return absl::make_unique<io::StreamFileWriter>(path);
    return absl::make_unique<MemoryFile>(path, content);
  }
  std::string Content() {
    if (on_disk) return ReadFile(path);
    return std::string(content->begin(), content->end());
  }
  bool on_disk;
  std::string path;
  std::shared_ptr<std::vector<char>> content =
      std::make_shared<std::vector<char>>();
};

float RandomFloat(vh::Rng& rng, bool weird) {
  if (weird && rng.Chance(0.1)) {
    switch (rng.Int(0, 5)) {
      case 0:
        return std::numeric_limits<float>::quiet_NaN();
      case 1:
        return std::numeric_limits<float>::infinity();
      case 2:
        return -0.f;
      case 3:
        return std::numeric_limits<float>::denorm_min();
      case 4:
        return -std::numeric_limits<float>::max();
      default: {
        uint32_t u = rng.U64();
        float f;
        memcpy(&f, &u, 4);
        return f;
      }
    }
  }
  return rng.Normal() * std::pow(10., rng.Int(-3, 4));
}

io::PointsBatch RandomBatch(vh::Rng& rng, int n, bool color, bool intensity,
                            bool weird) {
  io::PointsBatch b;
  b.frame_id = "f";
  for (int i = 0; i < n; ++i) {
    b.points.push_back({Eigen::Vector3f(RandomFloat(rng, weird),
                                        RandomFloat(rng, weird),
                                        RandomFloat(rng, weird))});
    if (color) {
      io::FloatColor c;
      for (float& v : c) {
        v = rng.Chance(0.1) ? rng.Real(-1, 2) : rng.Int(0, 255) / 255.f;
        if (rng.Chance(0.3)) v = rng.Real(0, 1);
      }
      b.colors.push_back(c);
    }
    if (intensity) b.intensities.push_back(RandomFloat(rng, weird));
  }
  return b;
}

// Every batch has at least what the first non-empty one has.
std::vector<io::PointsBatch> RandomBatches(vh::Rng& rng, bool weird) {
  std::vector<io::PointsBatch> batches;
  const bool color = rng.Chance(0.5), intensity = rng.Chance(0.5);
  const int num = rng.Chance(0.1) ? 0 : rng.Int(1, 10);
  const bool all_empty = rng.Chance(0.05);
  bool first = true;
  for (int i = 0; i < num; ++i) {
    const int n = all_empty || rng.Chance(0.2) ? 0
                  : rng.Chance(0.05)           ? rng.Int(1000, 5000)
                                               : rng.Int(1, 80);
    const bool extra = !first && rng.Chance(0.2);
    batches.push_back(RandomBatch(rng, n, color || extra, intensity || extra,
                                  weird));
    if (n > 0) first = false;
  }
  return batches;
}

bool SameBits(const char* a, float b) { return memcmp(a, &b, 4) == 0; }

bool GoodColor(uint8_t v, float c) {
  const double e = std::min(1., std::max(0., static_cast<double>(c))) * 255;
  return std::abs(v - e) <= 0.5 + 1e-3;
}

std::string Line(const std::string& s, size_t* pos) {
  const size_t end = s.find('\n', *pos);
  VH_EXPECT(end != std::string::npos, "header incomplete", s.substr(0, 300));
  const std::string line = s.substr(*pos, end - *pos);
  *pos = end + 1;
  return line;
}

struct Cloud {
  int64_t num = 0;
  bool color = false, intensity = false;
  std::string data;  // what follows the header
  std::vector<std::string> comments;
};

Cloud ParsePly(const std::string& s) {
  Cloud c;
  size_t pos = 0;
  VH_EXPECT(Line(s, &pos) == "ply", "not a PLY file", s.substr(0, 100));
  VH_EXPECT(Line(s, &pos) == "format binary_little_endian 1.0",
            "wrong PLY format", s.substr(0, 300));
  std::vector<std::string> properties;
  int elements = 0;
  for (;;) {
    const std::string l = Line(s, &pos);
    if (l == "end_header") break;
    if (l.rfind("comment ", 0) == 0) {
      c.comments.push_back(l.substr(8));
    } else if (l.rfind("element vertex ", 0) == 0) {
      c.num = std::stoll(l.substr(15), nullptr, 10);
      ++elements;
    } else if (l.rfind("property ", 0) == 0) {
      properties.push_back(l.substr(9));
    } else {
      VH_EXPECT(false, "unknown PLY header line", l);
    }
  }
  VH_EXPECT(elements == 1, "PLY file needs one element", s.substr(0, 300));
  std::vector<std::string> expected{"float x", "float y", "float z"};
  size_t next = 3;
  if (properties.size() > next && properties[next] == "uchar red") {
    c.color = true;
    expected.insert(expected.end(), {"uchar red", "uchar green", "uchar blue"});
    next = 6;
  }
  if (properties.size() > next && properties[next] == "float intensity") {
    c.intensity = true;
    expected.push_back("float intensity");
  }
  VH_EXPECT(properties == expected, "wrong PLY properties", s.substr(0, 400));
  c.data = s.substr(pos);
  return c;
}

Cloud ParsePcd(const std::string& s) {
  Cloud c;
  size_t pos = 0;
  std::map<std::string, std::string> fields;
  for (;;) {
    const std::string l = Line(s, &pos);
    if (l[0] == '#') continue;
    const size_t space = l.find(' ');
    VH_EXPECT(space != std::string::npos &&
                  fields.emplace(l.substr(0, space), l.substr(space + 1)).second,
              "bad PCD header line", l);
    if (l.rfind("DATA", 0) == 0) break;
  }
  VH_EXPECT(fields["DATA"] == "binary" && fields["VERSION"] == ".7" &&
                fields["HEIGHT"] == "1",
            "wrong PCD header", s.substr(0, 300));
  c.num = std::stoll(fields["POINTS"], nullptr, 10);
  VH_EXPECT(std::stoll(fields["WIDTH"], nullptr, 10) == c.num,
            "PCD width is not the number of points", s.substr(0, 300));
  c.color = fields["FIELDS"] == "x y z rgb";
  VH_EXPECT(c.color || fields["FIELDS"] == "x y z", "wrong PCD fields",
            s.substr(0, 300));
  VH_EXPECT(fields["SIZE"] == (c.color ? "4 4 4 4" : "4 4 4") &&
                fields["TYPE"] == (c.color ? "F F F U" : "F F F") &&
                fields["COUNT"] == (c.color ? "1 1 1 1" : "1 1 1"),
            "wrong PCD fields", s.substr(0, 300));
  c.data = s.substr(pos);
  return c;
}

void CheckCloud(const Cloud& c, const std::vector<io::PointsBatch>& batches,
                bool ply) {
  int64_t num = 0;
  bool color = false, intensity = false;
  for (const auto& b : batches) {
    if (num == 0 && !b.points.empty()) {
      color = !b.colors.empty();
      intensity = !b.intensities.empty() && ply;
    }
    num += b.points.size();
  }
  VH_EXPECT(c.num == num, "wrong number of points in the header",
            c.num << " not " << num);
  VH_EXPECT(c.color == color && c.intensity == intensity,
            "wrong fields in the header",
            c.color << c.intensity << " not " << color << intensity);
  const size_t stride = 12 + (color ? (ply ? 3 : 4) : 0) + (intensity ? 4 : 0);
  VH_EXPECT(c.data.size() == stride * num,
            "data does not have the announced size",
            c.data.size() << " not " << stride << " * " << num);
  const char* p = c.data.data();
  for (size_t k = 0; k < batches.size(); ++k) {
    const auto& b = batches[k];
    for (size_t i = 0; i < b.points.size(); ++i) {
      const auto& q = b.points[i].position;
      VH_EXPECT(SameBits(p, q.x()) && SameBits(p + 4, q.y()) &&
                    SameBits(p + 8, q.z()),
                "wrong coordinates", "batch " << k << " point " << i);
      p += 12;
      if (color) {
        const uint8_t* u = reinterpret_cast<const uint8_t*>(p);
        const auto& col = b.colors[i];
        if (ply) {
          VH_EXPECT(GoodColor(u[0], col[0]) && GoodColor(u[1], col[1]) &&
                        GoodColor(u[2], col[2]),
                    "wrong color", "batch " << k << " point " << i);
          p += 3;
        } else {
          VH_EXPECT(GoodColor(u[2], col[0]) && GoodColor(u[1], col[1]) &&
                        GoodColor(u[0], col[2]) && u[3] == 0,
                    "wrong color", "batch " << k << " point " << i);
          p += 4;
        }
      }
      if (intensity) {
        VH_EXPECT(SameBits(p, b.intensities[i]), "wrong intensity",
                  "batch " << k << " point " << i);
        p += 4;
      }
    }
  }
  vh::Count("points_checked", num);
  vh::Count(num == 0 ? "files_without_points" : "files");
  if (color) vh::Count("files_with_color");
  if (intensity) vh::Count("files_with_intensity");
}

void Feed(const std::vector<io::PointsBatch>& batches,
          io::PointsProcessor* processor, const Sink& sink) {
  size_t points = 0;
  for (const auto& b : batches) {
    processor->Process(absl::make_unique<io::PointsBatch>(b));
    points += b.points.size();
  }
  VH_EXPECT(processor->Flush() == io::PointsProcessor::FlushResult::kFinished &&
                sink.flushes == 1,
            "not flushed once", sink.flushes);
  VH_EXPECT(sink.points == points && sink.batches == batches.size(),
            "points not forwarded", sink.points << " of " << points);
}

// ---- images

struct Png {
  int width = 0, height = 0;
  std::vector<uint32_t> pixels;
  int R(int x, int y) const { return (pixels[y * width + x] >> 16) & 255; }
  int G(int x, int y) const { return (pixels[y * width + x] >> 8) & 255; }
  int B(int x, int y) const { return pixels[y * width + x] & 255; }
};

Png ParsePng(const std::string& s) {
  struct Reader {
    const std::string& s;
    size_t pos;
  } reader{s, 0};
  cairo_surface_t* surface = cairo_image_surface_create_from_png_stream(
      [](void* r, unsigned char* data, unsigned int len) {
        auto* reader = static_cast<Reader*>(r);
        if (reader->pos + len > reader->s.size()) {
          return CAIRO_STATUS_READ_ERROR;
        }
        memcpy(data, reader->s.data() + reader->pos, len);
        reader->pos += len;
        return CAIRO_STATUS_SUCCESS;
      },
      &reader);
  VH_EXPECT(cairo_surface_status(surface) == CAIRO_STATUS_SUCCESS,
            "image cannot be read",
            cairo_status_to_string(cairo_surface_status(surface)));
  VH_EXPECT(reader.pos == s.size(), "image file has more than the image",
            s.size() - reader.pos);
  Png png;
  png.width = cairo_image_surface_get_width(surface);
  png.height = cairo_image_surface_get_height(surface);
  const int stride = cairo_image_surface_get_stride(surface);
  const unsigned char* data = cairo_image_surface_get_data(surface);
  for (int y = 0; y < png.height; ++y) {
    for (int x = 0; x < png.width; ++x) {
      uint32_t u;
      memcpy(&u, data + y * stride + 4 * x, 4);
      png.pixels.push_back(u);
    }
  }
  cairo_surface_destroy(surface);
  return png;
}

// Points none of whose cells is ambiguous under 'to_cells'.
std::vector<io::PointsBatch> GridBatches(
    vh::Rng& rng, double size, double extent, bool color,
    const transform::Rigid3d& to_cells) {
  std::vector<io::PointsBatch> batches;
  const Eigen::Vector3d center(rng.Real(-20, 20), rng.Real(-20, 20),
                               rng.Real(-5, 5));
  const int num = rng.Chance(0.05) ? 0 : rng.Int(1, 8);
  int64_t time = 1000;
  for (int i = 0; i < num; ++i) {
    io::PointsBatch b;
    b.start_time = common::FromUniversal(time += rng.Int(1, 1000));
    b.origin = center.cast<float>();
    const bool columns = rng.Chance(0.5);
    int n = rng.Chance(0.1) ? 0 : rng.Int(1, 60);
    while (n > 0) {
      Eigen::Vector3d p = center + extent * Eigen::Vector3d(rng.Real(-1, 1),
                                                            rng.Real(-1, 1),
                                                            rng.Real(-.4, .4));
      const io::FloatColor c{{static_cast<float>(rng.Real(0, 1)),
                              static_cast<float>(rng.Real(0, 1)),
                              static_cast<float>(rng.Real(0, 1))}};
      // X-rays look along x in their frame.
      const Eigen::Vector3d step =
          columns ? Eigen::Vector3d(to_cells.rotation().conjugate() *
                                    (size * Eigen::Vector3d::UnitX()))
                  : Eigen::Vector3d::Zero();
      for (int k = columns ? rng.Int(1, 12) : 1; k > 0 && n > 0; --k) {
        p += step;
        const Eigen::Vector3f f = p.cast<float>();
        const Eigen::Vector3d q = to_cells * f.cast<double>();
        bool clear = true;
        for (int d = 0; d < 3; ++d) {
          const double v = q[d] / size;
          if (std::abs(v - std::floor(v) - 0.5) < 0.01) clear = false;
        }
        if (!clear) continue;
        b.points.push_back({f});
        if (color) b.colors.push_back(c);
        --n;
      }
    }
    batches.push_back(b);
  }
  return batches;
}

Eigen::Vector3d MarginPoint(const io::PointsBatch& b, size_t i) {
  return b.points[i].position.cast<double>();
}

mapping::proto::Trajectory MakeTrajectory(vh::Rng& rng,
                                          const Eigen::Vector3d& from,
                                          const Eigen::Vector3d& to) {
  mapping::proto::Trajectory t;
  const int n = rng.Int(2, 10);
  for (int i = 0; i < n; ++i) {
    auto* node = t.add_node();
    node->set_timestamp(100 + i);
    const Eigen::Vector3d p = from + (to - from) * i / (n - 1.);
    *node->mutable_pose() =
        transform::ToProto(transform::Rigid3d::Translation(p));
  }
  return t;
}

}  // namespace

VH_SCENARIO(ply, 120, 1200) {
  const auto batches = RandomBatches(rng, true);
  File file(rng);
  std::vector<std::string> comments;
  for (int n = rng.Int(0, 3); n > 0; --n) {
    comments.push_back("comment no. " + std::to_string(rng.Int(0, 1000)));
  }
  Sink sink;
  {
    io::PlyWritingPointsProcessor p(file.Writer(), comments, &sink);
    Feed(batches, &p, sink);
  }
  const Cloud c = ParsePly(file.Content());
  CheckCloud(c, batches, true);
  for (const auto& comment : comments) {
    VH_EXPECT(std::find(c.comments.begin(), c.comments.end(), comment) !=
                  c.comments.end(),
              "comment missing", comment);
  }
  vh::Digest d;
  for (const auto& b : batches) d.Add(b.points.size());
  vh::Distinct(d.Add(c.color).Add(c.intensity).Get());
}

VH_SCENARIO(pcd, 120, 1200) {
  const auto batches = RandomBatches(rng, true);
  File file(rng);
  Sink sink;
  {
    io::PcdWritingPointsProcessor p(file.Writer(), &sink);
    Feed(batches, &p, sink);
  }
  const Cloud c = ParsePcd(file.Content());
  CheckCloud(c, batches, false);
  vh::Digest d;
  for (const auto& b : batches) d.Add(b.points.size());
  vh::Distinct(d.Add(c.color).Add(77).Get());
}

VH_SCENARIO(xyz, 60, 600) {
  const auto batches = RandomBatches(rng, false);
  File file(rng);
  Sink sink;
  {
    io::XyzWriterPointsProcessor p(file.Writer(), &sink);
    Feed(batches, &p, sink);
  }
  std::istringstream in(file.Content());
  for (size_t k = 0; k < batches.size(); ++k) {
    for (size_t i = 0; i < batches[k].points.size(); ++i) {
      std::string line, rest;
      VH_EXPECT(static_cast<bool>(std::getline(in, line)), "point missing",
                "batch " << k << " point " << i);
      std::istringstream l(line);
      for (int d = 0; d < 3; ++d) {
        double v;
        const double e = batches[k].points[i].position[d];
        VH_EXPECT(static_cast<bool>(l >> v) &&
                      std::abs(v - e) <= 6e-6 * std::abs(e),
                  "wrong coordinates", line << " not " << e);
      }
      VH_EXPECT(!(l >> rest), "more than three coordinates", line);
      vh::Count("points_checked");
    }
  }
  std::string rest;
  VH_EXPECT(!std::getline(in, rest), "data after the last point", rest);
  vh::Count("files");
}

// When later batches lack what the first had, no file may be malformed.
VH_SCENARIO(missing_fields, 6, 60) {
  const bool ply = rng.Chance(0.5);
  const bool color = !ply || rng.Chance(0.5), intensity = ply;
  std::vector<io::PointsBatch> batches;
  batches.push_back(RandomBatch(rng, rng.Int(1, 20), color, intensity, false));
  batches.push_back(RandomBatch(rng, rng.Int(1, 20), color && rng.Chance(0.3),
                                false, false));
  const std::string path = Path("missing.bin");
  unlink(path.c_str());
  const auto outcome = vh::RunForked([&] {
    Sink sink;
    if (ply) {
      io::PlyWritingPointsProcessor p(
          absl::make_unique<io::StreamFileWriter>(path), {}, &sink);
      Feed(batches, &p, sink);
    } else {
      io::PcdWritingPointsProcessor p(
          absl::make_unique<io::StreamFileWriter>(path), &sink);
      Feed(batches, &p, sink);
    }
  });
  VH_EXPECT(outcome != vh::Outcome::kCrashed, "crash on batches without color",
            "ply " << ply);
  if (outcome == vh::Outcome::kReturned) {
    const Cloud c = ply ? ParsePly(ReadFile(path)) : ParsePcd(ReadFile(path));
    const size_t stride =
        12 + (c.color ? (ply ? 3 : 4) : 0) + (c.intensity ? 4 : 0);
    VH_EXPECT(c.data.size() == c.num * stride,
              "malformed file for batches with different fields",
              "ply " << ply << ": " << c.data.size() << " bytes for " << c.num
                     << " points");
    vh::Count("mixed_written");
  } else {
    vh::Count("mixed_refused");
  }
}

// A file that cannot be written is never reported as written.
VH_SCENARIO(unwritable, 6, 40) {
  const int where = rng.Int(0, 2);
  const std::string path = where == 0   ? Path("no/such/dir/file.ply")
                           : where == 1 ? std::string("/dev/full")
                                        : vh::S().scratch;
  const std::string data(rng.Chance(0.5) ? rng.Int(1, 100)
                                         : rng.Int(10000, 100000),
                         'd');
  {
    io::StreamFileWriter writer(path);
    bool ok = true;
    if (rng.Chance(0.5)) ok = writer.WriteHeader("header", 6) && ok;
    ok = writer.Write(data.data(), data.size()) && ok;
    if (rng.Chance(0.5)) ok = writer.WriteHeader("header", 6) && ok;
    ok = writer.Close() && ok;
    VH_EXPECT(!ok, "failure to write a file not reported", path);
  }
  vh::Count("unwritable_files");
}

VH_SCENARIO(stream_file, 60, 400) {
  const std::string path = Path("stream.bin");
  std::string expected;
  {
    io::StreamFileWriter writer(path);
    VH_EXPECT(writer.GetFilename() == path, "wrong file name",
              writer.GetFilename());
    std::string header(rng.Int(1, 300), 'h');
    VH_EXPECT(writer.WriteHeader(header.data(), header.size()),
              "write failed", path);
    expected = header;
    for (int n = rng.Int(0, 30); n > 0; --n) {
      std::string chunk;
      for (int k = rng.Chance(0.1) ? 20000 : rng.Int(0, 50); k > 0; --k) {
        chunk += static_cast<char>(rng.Int(0, 255));
      }
      VH_EXPECT(writer.Write(chunk.data(), chunk.size()), "write failed", path);
      expected += chunk;
    }
    for (char& c : header) c = static_cast<char>(rng.Int(0, 255));
    VH_EXPECT(writer.WriteHeader(header.data(), header.size()), "write failed",
              path);
    expected.replace(0, header.size(), header);
    VH_EXPECT(writer.Close(), "close failed", path);
  }
  VH_EXPECT(ReadFile(path) == expected, "file content differs",
            expected.size());
  vh::Count("stream_files");
}

VH_SCENARIO(hybrid_grid, 40, 400) {
  const double size = rng.Real(0.1, 1.);
  const auto batches = GridBatches(rng, static_cast<float>(size),
                                   rng.Real(1., 15.) * size, false,
                                   transform::Rigid3d::Identity());
  mapping::proto::RangeDataInserterOptions3D options;
  options.set_hit_probability(0.6);
  options.set_miss_probability(0.4);
  const int free = rng.Chance(0.5) ? 0 : rng.Int(1, 5);
  options.set_num_free_space_voxels(free);
  options.set_intensity_threshold(100);
  File file(rng);
  Sink sink;
  {
    io::HybridGridPointsProcessor p(size, options, file.Writer(), &sink);
    Feed(batches, &p, sink);
  }
  mapping::proto::HybridGrid proto;
  VH_EXPECT(proto.ParseFromString(file.Content()), "cannot parse the grid",
            file.Content().size());
  VH_EXPECT(std::abs(proto.resolution() - size) < 1e-6, "wrong voxel size",
            proto.resolution());
  const int num = proto.values_size();
  VH_EXPECT(proto.x_indices_size() == num && proto.y_indices_size() == num &&
                proto.z_indices_size() == num,
            "index lists of different lengths", num);
  std::map<std::array<int, 3>, int> cells;
  for (int i = 0; i < num; ++i) {
    VH_EXPECT(cells
                  .emplace(std::array<int, 3>{{proto.x_indices(i),
                                               proto.y_indices(i),
                                               proto.z_indices(i)}},
                           proto.values(i))
                  .second,
              "voxel twice", i);
  }
  // Per voxel: in how many batches it was hit.
  std::map<std::array<int, 3>, int> hits;
  for (const auto& b : batches) {
    std::set<std::array<int, 3>> here;
    for (size_t i = 0; i < b.points.size(); ++i) {
      const Eigen::Vector3d q = MarginPoint(b, i) / static_cast<float>(size);
      here.insert({{static_cast<int>(std::lround(q.x())),
                    static_cast<int>(std::lround(q.y())),
                    static_cast<int>(std::lround(q.z()))}});
    }
    for (const auto& h : here) ++hits[h];
  }
  for (const auto& h : hits) {
    const auto it = cells.find(h.first);
    VH_EXPECT(it != cells.end(), "voxel of a point missing",
              h.first[0] << " " << h.first[1] << " " << h.first[2]);
    if (free == 0) {
      const double odds = std::pow(0.6 / 0.4, h.second);
      const double p = std::min(0.9, odds / (1 + odds));
      VH_EXPECT(std::abs(mapping::ValueToProbability(it->second) - p) < 1e-3,
                "wrong probability",
                mapping::ValueToProbability(it->second)
                    << " not " << p << " after " << h.second);
    }
    vh::Count("voxels_checked");
  }
  if (free == 0) {
    VH_EXPECT(cells.size() == hits.size(), "voxels without points",
              cells.size() << " not " << hits.size());
  }
}

VH_SCENARIO(probability_grid, 40, 400) {
  const double resolution = rng.Real(0.1, 1.);
  // Cells here are not centred at zero.
  const auto batches =
      GridBatches(rng, resolution, rng.Real(1., 60.) * resolution, false,
                  transform::Rigid3d::Translation(
                      Eigen::Vector3d(resolution / 2, resolution / 2, 0)));
  mapping::proto::ProbabilityGridRangeDataInserterOptions2D options;
  options.set_hit_probability(0.65);
  options.set_miss_probability(0.4);
  const bool free = rng.Chance(0.5);
  options.set_insert_free_space(free);
  std::vector<mapping::proto::Trajectory> trajectories;
  const bool draw = rng.Chance(0.3);
  using Processor = io::ProbabilityGridPointsProcessor;
  File png_file(rng);
  auto pb = std::make_shared<std::vector<char>>();
  Eigen::Vector3d from, to;
  if (!batches.empty() && batches[0].points.size() > 1) {
    from = MarginPoint(batches[0], 0);
    to = MarginPoint(batches[0], 1);
    if (draw) trajectories.push_back(MakeTrajectory(rng, from, to));
  }
  int64_t num_points = 0;
  for (const auto& b : batches) num_points += b.points.size();
  for (const auto type : {Processor::OutputType::kPng,
                          Processor::OutputType::kPb}) {
    Sink sink;
    Processor p(resolution, options,
                draw ? Processor::DrawTrajectories::kYes
                     : Processor::DrawTrajectories::kNo,
                type,
                type == Processor::OutputType::kPng
                    ? png_file.Writer()
                    : absl::make_unique<MemoryFile>("pb", pb),
                trajectories, &sink);
    Feed(batches, &p, sink);
  }
  mapping::proto::Grid2D proto;
  VH_EXPECT(proto.ParseFromString(std::string(pb->begin(), pb->end())),
            "cannot parse the grid", pb->size());
  mapping::ValueConversionTables tables;
  const mapping::ProbabilityGrid grid(proto, &tables);
  // Which cells are known, by scanning all of them.
  const auto& limits = grid.limits();
  const int nx = limits.cell_limits().num_x_cells;
  const int ny = limits.cell_limits().num_y_cells;
  int min_x = nx, min_y = ny, max_x = -1, max_y = -1, known = 0;
  for (int y = 0; y < ny; ++y) {
    for (int x = 0; x < nx; ++x) {
      if (grid.IsKnown({x, y})) {
        ++known;
        min_x = std::min(min_x, x);
        min_y = std::min(min_y, y);
        max_x = std::max(max_x, x);
        max_y = std::max(max_y, y);
      }
    }
  }
  std::set<std::pair<int, int>> hit_cells;
  for (const auto& b : batches) {
    for (size_t i = 0; i < b.points.size(); ++i) {
      const Eigen::Vector3d q = MarginPoint(b, i);
      const int x = std::lround((limits.max().y() - q.y()) / resolution - 0.5);
      const int y = std::lround((limits.max().x() - q.x()) / resolution - 0.5);
      VH_EXPECT(limits.Contains({x, y}) && grid.IsKnown({x, y}),
                "cell of a point not in the grid", x << " " << y);
      hit_cells.emplace(x, y);
      vh::Count("cells_checked");
    }
  }
  if (!free) {
    VH_EXPECT(known == static_cast<int>(hit_cells.size()),
              "cells without points are known",
              known << " not " << hit_cells.size());
  }
  if (num_points == 0) {
    vh::Count("empty_grids");
    return;  // a grid without any cell has an image of one or no pixel
  }
  const Png png = ParsePng(png_file.Content());
  VH_EXPECT(png.width == max_x - min_x + 1 && png.height == max_y - min_y + 1,
            "image does not have the size of the known area",
            png.width << "x" << png.height << " not " << max_x - min_x + 1
                      << "x" << max_y - min_y + 1);
  if (trajectories.empty()) {
    for (int y = 0; y < png.height; ++y) {
      for (int x = 0; x < png.width; ++x) {
        const Eigen::Array2i cell(min_x + x, min_y + y);
        double value = 128;
        if (grid.IsKnown(cell)) {
          value = 255. * ((1. - grid.GetProbability(cell)) - 0.1) / 0.8;
        }
        VH_EXPECT(std::abs(png.R(x, y) - value) <= 1 &&
                      png.R(x, y) == png.G(x, y) && png.R(x, y) == png.B(x, y),
                  "wrong pixel", x << " " << y << ": " << png.R(x, y)
                                   << " not " << value);
      }
    }
    vh::Count("pixels_checked", png.width * png.height);
  } else if ((to - from).head<2>().norm() > 16 * resolution) {
    // Start and end markers are drawn in green and red.
    const int x0 = std::lround((limits.max().y() - from.y()) / resolution - .5);
    const int y0 = std::lround((limits.max().x() - from.x()) / resolution - .5);
    const int x1 = std::lround((limits.max().y() - to.y()) / resolution - .5);
    const int y1 = std::lround((limits.max().x() - to.x()) / resolution - .5);
    VH_EXPECT(png.G(x0 - min_x, y0 - min_y) >
                  png.R(x0 - min_x, y0 - min_y) + 80,
              "start of the trajectory not marked", x0 << " " << y0);
    VH_EXPECT(png.R(x1 - min_x, y1 - min_y) >
                  png.G(x1 - min_x, y1 - min_y) + 80,
              "end of the trajectory not marked", x1 << " " << y1);
    vh::Count("trajectories_checked");
  }
  vh::Distinct(vh::Digest().Add(png.width).Add(png.height).Add(known).Get());
}

VH_SCENARIO(xray, 40, 400) {
  const double size = rng.Real(0.1, 1.);
  const double saturation = rng.Chance(0.5) ? 1. : rng.Real(0.3, 3.);
  transform::Rigid3d to_view(
      Eigen::Vector3d(rng.Real(-2, 2), rng.Real(-2, 2), rng.Real(-2, 2)),
      rng.Chance(0.3)
          ? Eigen::Quaterniond::Identity()
          : Eigen::Quaterniond(rng.Normal(), rng.Normal(), rng.Normal(),
                               rng.Normal())
                .normalized());
  // As the processor sees it.
  to_view = to_view.cast<float>().cast<double>();
  const bool color = rng.Chance(0.6);
  const auto batches = GridBatches(rng, static_cast<float>(size),
                                   rng.Real(1., 15.) * size, color, to_view);
  // Floors are given by times.
  std::vector<mapping::Floor> floors;
  if (rng.Chance(0.4) && !batches.empty()) {
    for (int n = rng.Int(1, 3); n > 0; --n) {
      mapping::Floor f;
      f.z = n;
      for (int k = rng.Int(0, 2); k > 0; --k) {
        common::Time a = batches[rng.Int(0, batches.size() - 1)].start_time;
        common::Time b = batches[rng.Int(0, batches.size() - 1)].start_time;
        if (b < a) std::swap(a, b);
        f.timespans.push_back({a, b});
      }
      floors.push_back(f);
    }
  }
  std::map<std::string, std::shared_ptr<std::vector<char>>> files;
  {
    Sink sink;
    io::XRayPointsProcessor p(
        size, saturation, to_view.cast<float>(), floors,
        io::XRayPointsProcessor::DrawTrajectories::kNo, "x", {},
        [&files](const std::string& name) {
          files[name] = std::make_shared<std::vector<char>>();
          return absl::make_unique<MemoryFile>(name, files[name]);
        },
        &sink);
    Feed(batches, &p, sink);
  }
  const size_t num_floors = std::max<size_t>(1, floors.size());
  VH_EXPECT(files.size() == num_floors, "wrong number of images",
            files.size() << " not " << num_floors);
  struct Column {
    std::set<int> depths;
    double sum[3] = {0, 0, 0};
    int count = 0;
  };
  std::vector<std::map<std::pair<int, int>, Column>> columns(num_floors);
  int min_y = INT_MAX, min_z = INT_MAX, max_y = INT_MIN, max_z = INT_MIN;
  for (const auto& b : batches) {
    for (size_t f = 0; f < num_floors; ++f) {
      bool inside = floors.empty();
      if (!inside) {
        for (const auto& t : floors[f].timespans) {
          inside |= t.start <= b.start_time && b.start_time <= t.end;
        }
      }
      if (!inside) continue;
      for (size_t i = 0; i < b.points.size(); ++i) {
        const Eigen::Vector3d q =
            to_view * MarginPoint(b, i) / static_cast<float>(size);
        const int y = std::lround(q.y()), z = std::lround(q.z());
        Column& c = columns[f][{y, z}];
        c.depths.insert(std::lround(q.x()));
        ++c.count;
        for (int k = 0; k < 3; ++k) c.sum[k] += color ? b.colors[i][k] : 0;
        min_y = std::min(min_y, y);
        max_y = std::max(max_y, y);
        min_z = std::min(min_z, z);
        max_z = std::max(max_z, z);
      }
    }
  }
  for (size_t f = 0; f < num_floors; ++f) {
    const std::string name =
        floors.empty() ? "x.png" : "x" + std::to_string(f) + ".png";
    VH_EXPECT(files.count(name), "image missing", name);
    const std::string content(files[name]->begin(), files[name]->end());
    if (min_y > max_y) {
      vh::Count("empty_xrays");
      continue;
    }
    const Png png = ParsePng(content);
    VH_EXPECT(
        png.width == max_y - min_y + 1 && png.height == max_z - min_z + 1,
        "image does not have the size of the seen area",
        png.width << "x" << png.height << " not " << max_y - min_y + 1 << "x"
                  << max_z - min_z + 1);
    double most = 0;
    for (const auto& c : columns[f]) {
      most = std::max<double>(most, std::log(c.second.depths.size()));
    }
    for (int y = 0; y < png.height; ++y) {
      for (int x = 0; x < png.width; ++x) {
        const auto it = columns[f].find({max_y - x, max_z - y});
        double expected[3] = {255, 255, 255};
        if (it != columns[f].end()) {
          const Column& c = it->second;
          const double s =
              most == 0 ? 0
                        : std::min(1., std::log(c.depths.size()) / most *
                                           saturation);
          for (int k = 0; k < 3; ++k) {
            expected[k] = 255. * ((1. - s) + s * c.sum[k] / c.count);
          }
          vh::Count("columns_checked");
        }
        VH_EXPECT(std::abs(png.R(x, y) - expected[0]) <= 1.5 &&
                      std::abs(png.G(x, y) - expected[1]) <= 1.5 &&
                      std::abs(png.B(x, y) - expected[2]) <= 1.5,
                  "wrong pixel",
                  name << " " << x << " " << y << ": " << png.R(x, y) << " "
                       << png.G(x, y) << " " << png.B(x, y) << " not "
                       << expected[0] << " " << expected[1] << " "
                       << expected[2]);
      }
    }
    vh::Count("xrays");
    vh::Distinct(vh::Digest()
                     .Add(png.width)
                     .Add(png.height)
                     .Add(columns[f].size())
                     .Get());
  }
}

// Images: pixels, rotation and files.
VH_SCENARIO(image, 40, 400) {
  const int w = rng.Int(1, 40), h = rng.Int(1, 40);
  io::Image image(w, h);
  std::vector<io::Uint8Color> pixels(w * h);
  for (int y = 0; y < h; ++y) {
    for (int x = 0; x < w; ++x) {
      io::Uint8Color& c = pixels[y * w + x];
      for (auto& v : c) v = rng.Int(0, 255);
      image.SetPixel(x, y, c);
    }
  }
  const int turns = rng.Int(0, 4);
  for (int i = 0; i < turns; ++i) image.Rotate90DegreesClockwise();
  VH_EXPECT(image.width() == (turns % 2 ? h : w) &&
                image.height() == (turns % 2 ? w : h),
            "wrong size after turning", turns);
  auto content = std::make_shared<std::vector<char>>();
  {
    MemoryFile writer("i", content);
    image.WritePng(&writer);
    VH_EXPECT(writer.Close(), "close failed", "");
  }
  const Png png = ParsePng(std::string(content->begin(), content->end()));
  VH_EXPECT(png.width == image.width() && png.height == image.height(),
            "wrong size of the file", png.width);
  for (int y = 0; y < h; ++y) {
    for (int x = 0; x < w; ++x) {
      int u = x, v = y, cw = w, ch = h;
      for (int i = 0; i < turns; ++i) {
        // The top row becomes the rightmost column.
        const int nu = ch - 1 - v;
        v = u;
        u = nu;
        std::swap(cw, ch);
      }
      const io::Uint8Color& c = pixels[y * w + x];
      VH_EXPECT(image.GetPixel(u, v) == c, "wrong pixel after turning",
                x << " " << y);
      VH_EXPECT(png.R(u, v) == c[0] && png.G(u, v) == c[1] &&
                    png.B(u, v) == c[2],
                "wrong pixel in the file", x << " " << y);
    }
  }
  vh::Count("images");
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
