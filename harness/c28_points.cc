// C28: every stage of an offline point processing pipeline forwards exactly
// the batches and points its definition selects, in order and complete, and
// flushes and repeated passes reach all stages.
//
// Pipelines are built from generated Lua configurations by the real builder.
// A probe of ours sits before, between and after the stages and records what
// passes; afterwards every stage's output is checked against its input.
#include <cmath>
#include <map>
#include <set>
#include <sstream>

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/points_processor.h"
#include "cartographer/io/points_processor_pipeline_builder.h"
#include "glog/logging.h"
#include "vh.h"

namespace io = cartographer::io;
namespace common = cartographer::common;
using cartographer::sensor::RangefinderPoint;

namespace {

class NoFiles : public common::FileResolver {
 public:
  std::string GetFullPathOrDie(const std::string&) override {
    LOG(FATAL) << "no files";
  }
  std::string GetFileContentOrDie(const std::string&) override {
    LOG(FATAL) << "no files";
  }
};

// Keeps the contents of the file in memory.
class MemoryFile : public io::FileWriter {
 public:
  explicit MemoryFile(std::string name, int* closed)
      : name_(std::move(name)), closed_(closed) {}
  bool WriteHeader(const char* data, size_t len) override {
    if (content_.size() < len) content_.resize(len);
    content_.replace(0, len, data, len);
    return true;
  }
  bool Write(const char* data, size_t len) override {
    content_.append(data, len);
    return true;
  }
  bool Close() override {
    ++*closed_;
    return true;
  }
  std::string GetFilename() override { return name_; }

 private:
  std::string name_, content_;
  int* closed_;
};

struct Pass {
  std::vector<io::PointsBatch> batches;
  bool flushed = false;
};

struct Probe {
  std::vector<Pass> passes{1};
  int flushes_after_end = 0;
  bool finished = false;
};

class ProbeProcessor : public io::PointsProcessor {
 public:
  ProbeProcessor(Probe* probe, int restarts, io::PointsProcessor* next)
      : probe_(probe), restarts_(restarts), next_(next) {}
  void Process(std::unique_ptr<io::PointsBatch> batch) override {
    probe_->passes.back().batches.push_back(*batch);
    // Like a stage needing several passes: forwards only in the last.
    if (restarts_ == 0) next_->Process(std::move(batch));
  }
  FlushResult Flush() override {
    if (probe_->finished) ++probe_->flushes_after_end;
    probe_->passes.back().flushed = true;
    FlushResult result = FlushResult::kRestartStream;
    if (restarts_ > 0) {
      --restarts_;
    } else {
      result = next_->Flush();
    }
    if (result == FlushResult::kRestartStream) {
      probe_->passes.emplace_back();
    } else {
      probe_->finished = true;
    }
    return result;
  }

 private:
  Probe* const probe_;
  int restarts_;
  io::PointsProcessor* const next_;
};

enum class Kind {
  kCount,
  kSample,
  kFrames,
  kRange,
  kVertical,
  kOutlier,
  kColor,
  kIntensity,
  kPcd,
  kPly,
  kXyz,
  kHybrid,
  kProbability,
  kXray,
  kRepeat,
};

struct Stage {
  Kind kind;
  double a = 0, b = 0;
  bool keep = false;
  std::set<std::string> frames;
  std::string frame;
  int color[3] = {0, 0, 0};
  int restarts = 0;
};

bool Writer(Kind k) {
  return k == Kind::kPcd || k == Kind::kPly || k == Kind::kXyz ||
         k == Kind::kHybrid || k == Kind::kProbability || k == Kind::kXray;
}

std::string Num(double v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}

std::string Lua(const Stage& s, int index) {
  std::string f = "\"f" + std::to_string(index) + "\"";
  switch (s.kind) {
    case Kind::kCount:
      return "{ action = \"dump_num_points\" },\n";
    case Kind::kSample:
      return "{ action = \"fixed_ratio_sampler\", sampling_ratio = " +
             Num(s.a) + " },\n";
    case Kind::kFrames: {
      std::string l = "{ action = \"frame_id_filter\", ";
      l += s.keep ? "keep_frames = {" : "drop_frames = {";
      for (const auto& fr : s.frames) l += "\"" + fr + "\",";
      return l + "} },\n";
    }
    case Kind::kRange:
      return "{ action = \"min_max_range_filter\", min_range = " + Num(s.a) +
             ", max_range = " + Num(s.b) + " },\n";
    case Kind::kVertical:
      return "{ action = \"vertical_range_filter\", min_z = " + Num(s.a) +
             ", max_z = " + Num(s.b) + " },\n";
    case Kind::kOutlier:
      return "{ action = \"voxel_filter_and_remove_moving_objects\", "
             "voxel_size = " +
             Num(s.a) +
             (s.b == 3. ? "" : ", miss_per_hit_limit = " + Num(s.b)) + " },\n";
    case Kind::kColor:
      return "{ action = \"color_points\", frame_id = \"" + s.frame +
             "\", color = {" + std::to_string(s.color[0]) + "," +
             std::to_string(s.color[1]) + "," + std::to_string(s.color[2]) +
             "} },\n";
    case Kind::kIntensity:
      return "{ action = \"intensity_to_color\", min_intensity = " + Num(s.a) +
             ", max_intensity = " + Num(s.b) +
             (s.frame.empty() ? "" : ", frame_id = \"" + s.frame + "\"") +
             " },\n";
    case Kind::kPcd:
      return "{ action = \"write_pcd\", filename = " + f + " },\n";
    case Kind::kPly:
      return "{ action = \"write_ply\", filename = " + f + " },\n";
    case Kind::kXyz:
      return "{ action = \"write_xyz\", filename = " + f + " },\n";
    case Kind::kHybrid:
      return "{ action = \"write_hybrid_grid\", voxel_size = 0.5, filename = " +
             f +
             ", range_data_inserter = { hit_probability = 0.55, "
             "miss_probability = 0.49, num_free_space_voxels = 0, "
             "intensity_threshold = 100. } },\n";
    case Kind::kProbability:
      return "{ action = \"write_probability_grid\", resolution = 0.5, "
             "filename = " +
             f +
             ", range_data_inserter = { insert_free_space = true, "
             "hit_probability = 0.55, miss_probability = 0.49 } },\n";
    case Kind::kXray:
      return "{ action = \"write_xray_image\", voxel_size = 0.5, filename = " +
             f +
             ", transform = { translation = { 0., 0., 0. }, rotation = { 0., "
             "0., 0. } } },\n";
    case Kind::kRepeat:
      return "";  // a probe that asks for more passes
  }
  return "";
}

const char* const kFrames[] = {"front", "rear", "", "top", "a", "frönt"};

Stage RandomStage(vh::Rng& rng, bool may_restart, bool writers) {
  Stage s;
  const int top = writers ? 13 : 7;
  do {
    s.kind = static_cast<Kind>(rng.Int(0, top));
  } while (s.kind == Kind::kOutlier && !may_restart);
  switch (s.kind) {
    case Kind::kSample:
      s.a = rng.Chance(0.3) ? 0.5 : rng.Real(0.01, 0.99);
      break;
    case Kind::kFrames:
      s.keep = rng.Chance(0.5);
      for (int n = rng.Int(1, 3); n > 0; --n) {
        s.frames.insert(kFrames[rng.Int(0, 5)]);
      }
      break;
    case Kind::kRange:
      s.a = rng.Int(0, 5 * 16) / 16.;
      s.b = rng.Chance(0.1) ? s.a : s.a + rng.Int(0, 20 * 16) / 16.;
      if (rng.Chance(0.05)) std::swap(s.a, s.b);
      break;
    case Kind::kVertical:
      s.a = rng.Int(-8 * 16, 4 * 16) / 16.;
      s.b = rng.Chance(0.1) ? s.a : s.a + rng.Int(0, 10 * 16) / 16.;
      break;
    case Kind::kOutlier:
      s.a = rng.Real(0.3, 2.);
      s.b = rng.Chance(0.3) ? 3. : rng.Real(0.2, 6.);
      break;
    case Kind::kColor:
      s.frame = kFrames[rng.Int(0, 5)];
      for (int& c : s.color) {
        c = rng.Chance(0.2) ? 255 * rng.Int(0, 1) : rng.Int(0, 255);
      }
      break;
    case Kind::kIntensity:
      s.a = rng.Int(0, 100);
      s.b = s.a + rng.Int(1, 200);
      if (rng.Chance(0.5)) s.frame = kFrames[rng.Int(0, 5)];
      break;
    default:
      break;
  }
  return s;
}

bool SamePoint(const io::PointsBatch& a, size_t i, const io::PointsBatch& b,
               size_t j) {
  if (a.points[i].position != b.points[j].position) return false;
  if (!a.intensities.empty() != !b.intensities.empty()) return false;
  if (!a.intensities.empty() && a.intensities[i] != b.intensities[j]) {
    return false;
  }
  if (!a.colors.empty() != !b.colors.empty()) return false;
  return a.colors.empty() || a.colors[i] == b.colors[j];
}

bool SameMeta(const io::PointsBatch& a, const io::PointsBatch& b) {
  return a.start_time == b.start_time && a.origin == b.origin &&
         a.frame_id == b.frame_id && a.trajectory_id == b.trajectory_id;
}

bool Consistent(const io::PointsBatch& b) {
  return (b.intensities.empty() || b.intensities.size() == b.points.size()) &&
         (b.colors.empty() || b.colors.size() == b.points.size());
}

bool SameBatch(const io::PointsBatch& a, const io::PointsBatch& b) {
  if (!SameMeta(a, b) || a.points.size() != b.points.size() ||
      a.intensities != b.intensities || a.colors != b.colors) {
    return false;
  }
  for (size_t i = 0; i < a.points.size(); ++i) {
    if (a.points[i].position != b.points[i].position) return false;
  }
  return true;
}

enum class Choice { kKeep, kDrop, kAny };

using Cell = std::array<int64_t, 3>;

// The cell of 'p', and whether it is too close to a border to tell.
Cell CellOf(const Eigen::Vector3d& p, double size, bool* clear) {
  Cell c;
  for (int k = 0; k < 3; ++k) {
    const double v = p[k] / size;
    c[k] = std::llround(v);
    if (std::abs(v - std::floor(v) - 0.5) < 1e-3) *clear = false;
  }
  return c;
}

// Which points an outlier remover has to keep, from all its input.
std::vector<std::vector<Choice>> OutlierChoices(
    const std::vector<io::PointsBatch>& batches, const Stage& s) {
  struct Range {
    int64_t lo = 0, hi = 0;
  };
  std::map<Cell, Range> hits, rays;
  const auto mark = [](const Cell& c, bool clear, std::map<Cell, Range>* m) {
    if (clear) {
      ++(*m)[c].lo;
      ++(*m)[c].hi;
      return;
    }
    for (int dx = -1; dx <= 1; ++dx) {
      for (int dy = -1; dy <= 1; ++dy) {
        for (int dz = -1; dz <= 1; ++dz) {
          ++(*m)[{{c[0] + dx, c[1] + dy, c[2] + dz}}].hi;
        }
      }
    }
  };
  const double size = static_cast<float>(s.a);
  for (const auto& b : batches) {
    for (const auto& p : b.points) {
      bool clear = true;
      const Cell c = CellOf(p.position.cast<double>(), size, &clear);
      mark(c, clear, &hits);
    }
  }
  for (const auto& b : batches) {
    for (const auto& p : b.points) {
      const Eigen::Vector3d o = b.origin.cast<double>();
      const Eigen::Vector3d delta = p.position.cast<double>() - o;
      const double length = delta.norm();
      for (double x = 0; x < length + 1e-4; x += s.a) {
        bool clear = x < length - 1e-3;
        mark(CellOf(o + x / length * delta, size, &clear), clear, &rays);
      }
    }
  }
  std::vector<std::vector<Choice>> result;
  for (const auto& b : batches) {
    result.emplace_back();
    for (const auto& p : b.points) {
      bool clear = true;
      const Cell c = CellOf(p.position.cast<double>(), size, &clear);
      Choice choice = Choice::kAny;
      if (clear) {
        const Range h = hits[c], r = rays[c];
        // Rays only count in cells with hits; 'c' has one.
        if (r.hi < s.b * h.lo - 1e-6) choice = Choice::kKeep;
        if (r.lo > s.b * h.hi + 1e-6) choice = Choice::kDrop;
      }
      vh::Count(choice == Choice::kAny    ? "outlier_undecided"
                : choice == Choice::kKeep ? "outlier_must_keep"
                                          : "outlier_must_drop");
      result.back().push_back(choice);
    }
  }
  return result;
}

std::string Show(const Stage& s, const std::string& lua, size_t pass,
                 size_t batch) {
  return Lua(s, 0) + " pass " + std::to_string(pass) + " batch " +
         std::to_string(batch) + " in pipeline:\n" + lua;
}

// 'in' and 'out' are what the probes around stage 's' saw in one pass.
void CheckStage(const Stage& s, const std::vector<io::PointsBatch>& in,
                const std::vector<io::PointsBatch>& out,
                const std::string& lua, size_t pass) {
  std::vector<std::vector<Choice>> outlier;
  if (s.kind == Kind::kOutlier) outlier = OutlierChoices(in, s);
  int64_t seen = 0, sampled = 0;
  size_t j = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    const io::PointsBatch& a = in[i];
    if (s.kind == Kind::kFrames &&
        s.keep != (s.frames.count(a.frame_id) != 0)) {
      vh::Count("batches_dropped");
      continue;
    }
    VH_EXPECT(j < out.size(), "batch missing", Show(s, lua, pass, i));
    const io::PointsBatch& b = out[j++];
    VH_EXPECT(SameMeta(a, b), "batch meta data changed",
              Show(s, lua, pass, i));
    VH_EXPECT(Consistent(b), "points and attributes do not match up",
              Show(s, lua, pass, i));
    switch (s.kind) {
      case Kind::kSample: {
        size_t k = 0;
        for (size_t n = 0; n < a.points.size(); ++n) {
          ++seen;
          // Unique intensities or positions identify points.
          if (k < b.points.size() && SamePoint(a, n, b, k)) {
            ++k;
            ++sampled;
          }
          VH_EXPECT(sampled >= s.a * seen - 1e-6 &&
                        sampled < s.a * seen + 1 + 1e-6,
                    "sampling ratio not kept",
                    Show(s, lua, pass, i)
                        << "\n" << sampled << " of " << seen);
        }
        VH_EXPECT(k == b.points.size(), "sampler forwarded foreign points",
                  Show(s, lua, pass, i));
        vh::Count("points_checked", a.points.size());
        break;
      }
      case Kind::kRange:
      case Kind::kVertical:
      case Kind::kOutlier: {
        size_t k = 0;
        for (size_t n = 0; n < a.points.size(); ++n) {
          Choice choice;
          const Eigen::Vector3d d = a.points[n].position.cast<double>() -
                                    a.origin.cast<double>();
          // Multiples of 1/16 are compared without rounding.
          const bool exact =
              (16 * a.points[n].position - (16 * a.points[n].position)
                                               .array()
                                               .round()
                                               .matrix())
                      .squaredNorm() == 0 &&
              (16 * a.origin - (16 * a.origin).array().round().matrix())
                      .squaredNorm() == 0;
          if (s.kind == Kind::kOutlier) {
            choice = outlier[i][n];
          } else if (s.kind == Kind::kRange) {
            choice = d.squaredNorm() >= s.a * s.a && d.squaredNorm() <= s.b * s.b
                         ? Choice::kKeep
                         : Choice::kDrop;
            if (std::abs(d.norm() - s.a) < 1e-4 ||
                std::abs(d.norm() - s.b) < 1e-4) {
              vh::Count("points_on_the_limit");
              if (!exact) choice = Choice::kAny;
            }
          } else {
            choice = d.z() >= s.a && d.z() <= s.b ? Choice::kKeep
                                                  : Choice::kDrop;
            if (std::abs(d.z() - s.a) < 1e-4 || std::abs(d.z() - s.b) < 1e-4) {
              vh::Count("points_on_the_limit");
              if (!exact) choice = Choice::kAny;
            }
          }
          const bool there = k < b.points.size() && SamePoint(a, n, b, k);
          if (choice == Choice::kKeep) {
            VH_EXPECT(there, "point missing or out of order",
                      Show(s, lua, pass, i)
                          << "\npoint " << n << " " << d.transpose());
          }
          if (choice == Choice::kKeep || (choice == Choice::kAny && there)) ++k;
        }
        VH_EXPECT(k == b.points.size(), "point forwarded that is filtered",
                  Show(s, lua, pass, i) << "\n" << b.points.size() - k);
        vh::Count("points_checked", a.points.size());
        vh::Count("points_removed", a.points.size() - b.points.size());
        break;
      }
      case Kind::kColor:
      case Kind::kIntensity: {
        io::PointsBatch c = a;
        bool recolored = false;
        if (s.kind == Kind::kColor) {
          if (a.frame_id == s.frame) {
            c.colors.assign(a.points.size(),
                            {{s.color[0] / 255.f, s.color[1] / 255.f,
                              s.color[2] / 255.f}});
            recolored = true;
          }
        } else if (!a.intensities.empty() &&
                   (s.frame.empty() || a.frame_id == s.frame)) {
          c.colors.clear();
          for (float v : a.intensities) {
            const float g = std::min(
                1., std::max(0., (v - s.a) / (s.b - s.a)));
            c.colors.push_back({{g, g, g}});
          }
          recolored = true;
        }
        VH_EXPECT(c.colors.size() == b.colors.size(), "colors missing",
                  Show(s, lua, pass, i));
        for (size_t n = 0; n < c.colors.size(); ++n) {
          for (int k = 0; k < 3; ++k) {
            VH_EXPECT(std::abs(c.colors[n][k] - b.colors[n][k]) <=
                          (recolored ? 1e-5 : 0.),
                      "wrong color", Show(s, lua, pass, i));
          }
        }
        c.colors = b.colors;
        VH_EXPECT(SameBatch(c, b), "coloring changed something else",
                  Show(s, lua, pass, i));
        vh::Count("points_checked", a.points.size());
        if (recolored) vh::Count("points_colored", a.points.size());
        break;
      }
      default:
        VH_EXPECT(SameBatch(a, b), "recording stage changed a batch",
                  Show(s, lua, pass, i));
        vh::Count("points_checked", a.points.size());
    }
    vh::Count("batches_checked");
  }
  VH_EXPECT(j == out.size(), "batch forwarded that should not be",
            Show(s, lua, pass, in.size()) << out.size() << " > " << j);
}

std::vector<io::PointsBatch> RandomBatches(vh::Rng& rng, bool lattice,
                                           bool uniform) {
  std::vector<io::PointsBatch> batches;
  const int num = rng.Chance(0.05) ? 0 : rng.Int(1, 12);
  const bool dense = rng.Chance(0.3);
  const double spread = dense ? 3. : rng.Real(3., 12.);
  const bool colors = rng.Chance(0.4), intensities = rng.Chance(0.6);
  int64_t time = rng.Int(1, 1000000);
  float id = 0.f;
  const auto coordinate = [&](double s) -> float {
    return lattice ? rng.Int(-s * 16, s * 16) / 16.f
                   : static_cast<float>(rng.Real(-s, s));
  };
  for (int i = 0; i < num; ++i) {
    io::PointsBatch b;
    b.start_time = common::FromUniversal(time);
    time += rng.Int(0, 1000000);
    b.origin = {coordinate(4), coordinate(4), coordinate(2)};
    b.frame_id = kFrames[rng.Int(0, 5)];
    b.trajectory_id = rng.Int(0, 4);
    const int n = rng.Chance(0.1) ? 0
                  : rng.Chance(0.1) ? rng.Int(200, 800)
                                    : rng.Int(1, 60);
    const bool with_color = uniform ? colors : rng.Chance(0.4);
    const bool with_intensity = uniform ? intensities : rng.Chance(0.6);
    for (int k = 0; k < n; ++k) {
      Eigen::Vector3f p(coordinate(spread), coordinate(spread),
                        coordinate(spread / 2));
      if (p == b.origin) p.x() += 1;  // no direction
      b.points.push_back({p});
      if (with_color) {
        b.colors.push_back({{static_cast<float>(rng.Real(0, 1)),
                             static_cast<float>(rng.Real(0, 1)),
                             static_cast<float>(rng.Real(0, 1))}});
      }
      if (with_intensity) b.intensities.push_back(id += 0.25f);
    }
    batches.push_back(b);
  }
  return batches;
}

void Run(vh::Rng& rng, bool writers) {
  // Stages that write files come last: no further passes may start there.
  std::vector<Stage> stages;
  const int num = rng.Int(1, 6);
  int restarter = rng.Chance(0.5) ? rng.Int(0, num - 1) : -1;
  for (int i = 0; i < num; ++i) {
    if (i == restarter && rng.Chance(0.5)) {
      Stage s;
      s.kind = Kind::kRepeat;
      s.restarts = rng.Int(1, 3);
      stages.push_back(s);
      restarter = -1;
      continue;
    }
    Stage s = RandomStage(rng, i == restarter, false);
    if (i == restarter) {
      s.kind = Kind::kOutlier;
      s.a = rng.Real(0.3, 2.);
      s.b = rng.Chance(0.3) ? 3. : rng.Real(0.2, 6.);
    }
    stages.push_back(s);
  }
  if (writers) {
    for (int n = rng.Int(1, 4); n > 0; --n) {
      stages.push_back(RandomStage(rng, false, true));
    }
  }
  std::vector<std::unique_ptr<Probe>> probes;
  std::string lua = "return {\n";
  int num_files = 0;
  std::vector<int> restarts;
  const auto add_probe = [&](int times) {
    lua += "{ action = \"probe\", n = " + std::to_string(probes.size()) +
           " },\n";
    probes.push_back(absl::make_unique<Probe>());
    restarts.push_back(times);
  };
  // For every real stage: the indices of the probes around it.
  std::vector<std::pair<int, Stage>> real;
  add_probe(0);
  int expected_passes = 1;
  for (const Stage& s : stages) {
    if (s.kind == Kind::kRepeat) {
      add_probe(s.restarts);
      expected_passes = s.restarts + 1;
      continue;
    }
    if (s.kind == Kind::kOutlier) expected_passes = 3;
    if (Writer(s.kind)) ++num_files;
    real.emplace_back(static_cast<int>(probes.size()) - 1, s);
    lua += Lua(s, num_files);
    add_probe(0);
  }
  lua += "}";

  int closed = 0;
  const std::vector<cartographer::mapping::proto::Trajectory> trajectories;
  io::PointsProcessorPipelineBuilder builder;
  io::RegisterBuiltInPointsProcessors(
      trajectories,
      [&closed](const std::string& name) {
        return absl::make_unique<MemoryFile>(name, &closed);
      },
      &builder);
  builder.Register("probe", [&](common::LuaParameterDictionary* d,
                                io::PointsProcessor* next) {
    const int n = d->GetInt("n");
    return absl::make_unique<ProbeProcessor>(probes.at(n).get(),
                                             restarts.at(n), next);
  });
  common::LuaParameterDictionary dictionary(lua, absl::make_unique<NoFiles>());
  auto pipeline = builder.CreatePipeline(&dictionary);

  // PLY and PCD files have the fields of their first batch.
  const std::vector<io::PointsBatch> input =
      RandomBatches(rng, rng.Chance(0.5), writers);
  bool mixed = false;
  if (writers) {
    // Stages that color some frames only make the batches differ.
    for (const auto& s : stages) {
      if (s.kind == Kind::kColor || s.kind == Kind::kIntensity) mixed = true;
    }
  }
  std::vector<io::PointsBatch> feed = input;
  if (mixed) {
    for (auto& b : feed) {
      b.colors.assign(b.points.size(), {{0.5f, 0.25f, 1.f}});
    }
  }
  int passes = 0;
  do {
    for (const auto& b : feed) {
      pipeline.back()->Process(absl::make_unique<io::PointsBatch>(b));
    }
    ++passes;
    VH_EXPECT(passes <= 8, "pipeline restarts for ever", lua);
  } while (pipeline.back()->Flush() ==
           io::PointsProcessor::FlushResult::kRestartStream);
  vh::Count("pipelines");
  vh::Count("passes", passes);
  vh::Max("stages", stages.size());

  VH_EXPECT(passes == expected_passes, "wrong number of passes",
            passes << " not " << expected_passes << "\n" << lua);
  // What the first probe sees is what was fed.
  for (size_t k = 0; k < probes.size(); ++k) {
    const Probe& p = *probes[k];
    VH_EXPECT(p.finished && p.passes.back().flushed &&
                  p.flushes_after_end == 0,
              "flush did not reach a stage once", "probe " << k << "\n" << lua);
  }
  for (const auto& pass : probes[0]->passes) {
    VH_EXPECT(pass.batches.size() == feed.size(), "first stage missed batches",
              lua);
    for (size_t i = 0; i < feed.size(); ++i) {
      VH_EXPECT(SameBatch(pass.batches[i], feed[i]),
                "first stage saw other data", lua);
    }
  }
  for (const auto& r : real) {
    const Probe& before = *probes[r.first];
    const Probe& after = *probes[r.first + 1];
    // In the pass before the last one stages may keep the data to themselves,
    // so passes are aligned at the end.
    VH_EXPECT(after.passes.size() ==
                  (r.second.kind == Kind::kOutlier || restarts[r.first] > 0
                       ? 1u
                       : before.passes.size()),
              "passes not forwarded",
              after.passes.size() << " of " << before.passes.size() << "\n"
                                  << Lua(r.second, 0) << lua);
    for (size_t k = 0; k < after.passes.size(); ++k) {
      const size_t b = before.passes.size() - after.passes.size() + k;
      CheckStage(r.second, before.passes[b].batches, after.passes[k].batches,
                 lua, b);
    }
    vh::Count(std::string("stages_checked"));
    vh::Count("stage_kind_" + std::to_string(static_cast<int>(r.second.kind)));
  }
  // All passes see the same data.
  for (const auto& p : probes) {
    for (const auto& pass : p->passes) {
      VH_EXPECT(pass.batches.size() == p->passes[0].batches.size(),
                "passes differ", lua);
      for (size_t i = 0; i < pass.batches.size(); ++i) {
        VH_EXPECT(SameBatch(pass.batches[i], p->passes[0].batches[i]),
                  "passes differ", "batch " << i << "\n" << lua);
      }
    }
  }
  vh::Digest d;
  for (const Stage& s : stages) d.Add(static_cast<uint64_t>(s.kind));
  d.Add(feed.size());
  vh::Distinct(d.Get());
  if (vh::WantSample()) vh::Sample(lua);
}

}  // namespace

VH_SCENARIO(pipeline, 150, 1500) { Run(rng, false); }

VH_SCENARIO(pipeline_with_writers, 60, 600) { Run(rng, true); }

// Removing any set of points keeps the others with their attributes.
VH_SCENARIO(remove_points, 200, 2000) {
  io::PointsBatch b;
  const int n = rng.Chance(0.1) ? 0 : rng.Int(1, 300);
  const bool colors = rng.Chance(0.5), intensities = rng.Chance(0.5);
  for (int i = 0; i < n; ++i) {
    b.points.push_back({Eigen::Vector3f(i, rng.Normal(), rng.Normal())});
    if (colors) b.colors.push_back({{0.001f * i, 0.5f, 0.f}});
    if (intensities) b.intensities.push_back(i);
  }
  const double rate = rng.Chance(0.3) ? rng.Int(0, 1) : rng.Real(0, 1);
  absl::flat_hash_set<int> remove;
  for (int i = 0; i < n; ++i) {
    if (rng.Real(0, 1) < rate) remove.insert(i);
  }
  const io::PointsBatch before = b;
  io::RemovePoints(remove, &b);
  VH_EXPECT(Consistent(b), "attributes out of step", n);
  VH_EXPECT(b.points.size() == n - remove.size(), "wrong number removed",
            b.points.size() << " left of " << n);
  size_t k = 0;
  for (int i = 0; i < n; ++i) {
    if (remove.count(i)) continue;
    VH_EXPECT(SamePoint(before, i, b, k), "wrong point removed", i);
    ++k;
  }
  vh::Count("removals");
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
