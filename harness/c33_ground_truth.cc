// C33: ground-truth relations describe the given trajectory, and the
// relation metrics are those of the given pose graph.
#include <fstream>

#include "cartographer/ground_truth/relations_text_file.h"
#include "cartographer/ground_truth/autogenerate_ground_truth.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/transform/transform.h"
#include "glog/logging.h"
#include "vh.h"

namespace gt = cartographer::ground_truth;
namespace mp = cartographer::mapping::proto;
namespace tf = cartographer::transform;

namespace {

using Rigid3d = tf::Rigid3d;

// Own pose arithmetic on plain matrices.
struct Pose {
  Eigen::Matrix3d r = Eigen::Matrix3d::Identity();
  Eigen::Vector3d t = Eigen::Vector3d::Zero();
  Pose operator*(const Pose& o) const { return {r * o.r, r * o.t + t}; }
  Pose Inverse() const { return {r.transpose(), -(r.transpose() * t)}; }
  double Angle() const {
    const Eigen::Vector3d v(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0),
                            r(1, 0) - r(0, 1));
    return std::atan2(v.norm(), r.trace() - 1.);
  }
};
Pose FromProtoPose(const tf::proto::Rigid3d& p) {
  const auto& q = p.rotation();
  Pose out;
  out.r = Eigen::Quaterniond(q.w(), q.x(), q.y(), q.z()).toRotationMatrix();
  out.t = Eigen::Vector3d(p.translation().x(), p.translation().y(),
                          p.translation().z());
  return out;
}
void ToProtoPose(const Pose& p, tf::proto::Rigid3d* out) {
  const Eigen::Quaterniond q(p.r);
  out->mutable_rotation()->set_w(q.w());
  out->mutable_rotation()->set_x(q.x());
  out->mutable_rotation()->set_y(q.y());
  out->mutable_rotation()->set_z(q.z());
  out->mutable_translation()->set_x(p.t.x());
  out->mutable_translation()->set_y(p.t.y());
  out->mutable_translation()->set_z(p.t.z());
}
Pose RandomPose(vh::Rng& rng, double spread, double angle) {
  Pose p;
  p.t = spread * Eigen::Vector3d(rng.Real(-1, 1), rng.Real(-1, 1),
                                 rng.Real(-1, 1));
  Eigen::Vector3d axis(rng.Normal(), rng.Normal(), rng.Normal());
  if (axis.norm() < 1e-3) axis = Eigen::Vector3d::UnitZ();
  p.r = Eigen::AngleAxisd(rng.Real(0, angle), axis.normalized())
            .toRotationMatrix();
  return p;
}
double PoseDistance(const Pose& a, const Pose& b) {
  return (a.r - b.r).norm() + (a.t - b.t).norm();
}

mp::PoseGraph RandomGraph(vh::Rng& rng, int* num_submaps) {
  mp::PoseGraph graph;
  auto* trajectory = graph.add_trajectory();
  trajectory->set_trajectory_id(0);
  const int per_submap = rng.Int(1, 6);
  const int nodes = rng.Int(3, 60);
  Pose pose = RandomPose(rng, 5., 3.);
  int64_t time = 635000000000000000ll + rng.Int(0, 1000000000);
  for (int i = 0; i < nodes; ++i) {
    auto* node = trajectory->add_node();
    node->set_timestamp(time);
    ToProtoPose(pose, node->mutable_pose());
    time += rng.Int(1, 30000000);
    pose = pose * RandomPose(rng, rng.Chance(0.1) ? 3. : 0.6, 0.5);
  }
  const int submaps = (nodes + per_submap - 1) / per_submap;
  *num_submaps = submaps;
  for (int s = 0; s < submaps; ++s) {
    ToProtoPose(FromProtoPose(trajectory->node(s * per_submap).pose()) *
                    RandomPose(rng, 0.05, 0.05),
                trajectory->add_submap()->mutable_pose());
  }
  auto add = [&](int s, int n, bool intra) {
    auto* c = graph.add_constraint();
    c->mutable_submap_id()->set_trajectory_id(0);
    c->mutable_submap_id()->set_submap_index(s);
    c->mutable_node_id()->set_trajectory_id(0);
    c->mutable_node_id()->set_node_index(n);
    c->set_tag(intra ? mp::PoseGraph::Constraint::INTRA_SUBMAP
                     : mp::PoseGraph::Constraint::INTER_SUBMAP);
    const Pose rel = FromProtoPose(trajectory->submap(s).pose()).Inverse() *
                     FromProtoPose(trajectory->node(n).pose());
    const double noise = intra ? 0. : std::pow(10., rng.Real(-4, 1));
    ToProtoPose(rel * RandomPose(rng, noise, std::min(3., noise)),
                c->mutable_relative_pose());
  };
  for (int n = 0; n < nodes; ++n) {
    const int s = n / per_submap;
    if (s > 0) add(s - 1, n, true);
    add(s, n, true);
    while (rng.Chance(0.5)) {
      add(rng.Int(0, submaps - 1), rng.Int(0, nodes - 1), false);
    }
  }
  return graph;
}

}  // namespace

VH_SCENARIO(generate, 600, 30000) {
  int submaps;
  const mp::PoseGraph graph = RandomGraph(rng, &submaps);
  const auto& trajectory = graph.trajectory(0);
  const double min_distance = rng.Chance(0.2) ? 0. : rng.Real(0., 20.);
  const double max_m = std::pow(10., rng.Real(-3, 1));
  const double max_rad = std::pow(10., rng.Real(-3, 0.4));
  const auto result =
      gt::GenerateGroundTruth(graph, min_distance, max_m, max_rad);

  std::vector<double> covered{0.};
  for (int i = 1; i < trajectory.node_size(); ++i) {
    covered.push_back(covered.back() +
                      (FromProtoPose(trajectory.node(i).pose()).t -
                       FromProtoPose(trajectory.node(i - 1).pose()).t)
                          .norm());
  }
  // The node in the middle of a submap is the first one of the next submap.
  std::map<int, int> middle;
  for (const auto& c : graph.constraint()) {
    if (c.tag() != mp::PoseGraph::Constraint::INTRA_SUBMAP) continue;
    middle.emplace(c.submap_id().submap_index() - 1, c.node_id().node_index());
  }
  int next = 0, kept = 0, outliers = 0, shorter = 0;
  for (const auto& c : graph.constraint()) {
    if (c.tag() == mp::PoseGraph::Constraint::INTRA_SUBMAP) continue;
    const int s = c.submap_id().submap_index();
    const int n = c.node_id().node_index();
    if (!middle.count(s)) continue;
    const int rep = middle[s];
    const double distance = std::abs(covered[n] - covered[rep]);
    const Pose p1 = FromProtoPose(trajectory.node(rep).pose());
    const Pose p2 = FromProtoPose(trajectory.node(n).pose());
    const Pose expected = p1.Inverse() *
                          FromProtoPose(trajectory.submap(s).pose()) *
                          FromProtoPose(c.relative_pose());
    const Pose error = (p1.Inverse() * p2) * expected.Inverse();
    const double e_m = error.t.norm(), e_rad = error.Angle();
    const bool in_doubt = std::abs(distance - min_distance) < 1e-7 ||
                          std::abs(e_m - max_m) < 1e-6 ||
                          std::abs(e_rad - max_rad) < 1e-6;
    const bool keep =
        distance >= min_distance && e_m <= max_m && e_rad <= max_rad;
    // Does the next reported relation describe this constraint?
    bool same = false;
    if (next < result.relation_size()) {
      const auto& r = result.relation(next);
      same = r.timestamp1() == trajectory.node(rep).timestamp() &&
             r.timestamp2() == trajectory.node(n).timestamp() &&
             PoseDistance(FromProtoPose(r.expected()), expected) < 1e-6 &&
             std::abs(r.covered_distance() - distance) < 1e-6;
    }
    if (in_doubt && !same) continue;
    if (!in_doubt && !keep) {
      distance < min_distance ? ++shorter : ++outliers;
      continue;
    }
    VH_EXPECT(same, "relation missing or different",
              "submap " << s << " node " << n << " distance " << distance
                        << " error " << e_m << " m " << e_rad << " rad; "
                        << result.relation_size() << " relations, at " << next);
    ++next;
    ++kept;
  }
  VH_EXPECT(next == result.relation_size(), "relations not in the graph",
            result.relation_size() << " reported, " << next << " expected");
  vh::Count("relations_kept", kept);
  vh::Count("outliers_dropped", outliers);
  vh::Count("short_loops_dropped", shorter);
  if (kept > 0 && outliers + shorter > 0) {
    vh::Distinct(vh::Digest().AddS(result.SerializeAsString()).Get());
  }
  if (vh::WantSample()) {
    vh::Sample(VH_STR(trajectory.node_size()
                      << " nodes, " << submaps << " submaps: " << kept
                      << " relations, " << outliers << " outliers, " << shorter
                      << " too short"));
  }
}

VH_SCENARIO(text_file, 400, 4000) {
  const std::string path = vh::S().scratch + "/relations.txt";
  struct Line {
    int64_t us1, us2;
    double v[6];
  };
  std::vector<Line> lines;
  const bool damaged = rng.Chance(0.1);
  {
    std::ofstream f(path);
    f.precision(17);
    for (int i = rng.Int(damaged ? 1 : 0, 20); i > 0; --i) {
      Line l;
      l.us1 = rng.Int(0, 2000000000) * 1000000ll + rng.Int(0, 999999);
      l.us2 = rng.Int(0, 2000000000) * 1000000ll + rng.Int(0, 999999);
      for (double& v : l.v) v = rng.Real(-3, 3);
      l.v[4] = rng.Real(-1.5, 1.5);
      char buf[120];
      snprintf(buf, sizeof(buf), "%lld.%06lld %lld.%06lld",
               (long long)(l.us1 / 1000000), (long long)(l.us1 % 1000000),
               (long long)(l.us2 / 1000000), (long long)(l.us2 % 1000000));
      f << buf;
      for (double v : l.v) f << (rng.Chance(0.3) ? "\t" : " ") << v;
      f << "\n";
      lines.push_back(l);
    }
    if (damaged) f << "1.0 2.0 x y z\n";
  }
  if (damaged) {
    VH_EXPECT(vh::RunForked([&] { gt::ReadRelationsTextFile(path); }) ==
                  vh::Outcome::kRefused,
              "damaged relations file accepted", lines.size());
    return;
  }
  const auto result = gt::ReadRelationsTextFile(path);
  VH_EXPECT(result.relation_size() == static_cast<int>(lines.size()),
            "number of relations read",
            result.relation_size() << " of " << lines.size());
  for (size_t i = 0; i < lines.size(); ++i) {
    const auto& r = result.relation(i);
    const Line& l = lines[i];
    const int64_t epoch = 719162ll * 24 * 60 * 60 * 10000000;
    VH_EXPECT(std::abs(r.timestamp1() - (epoch + l.us1 * 10)) <= 10 &&
                  std::abs(r.timestamp2() - (epoch + l.us2 * 10)) <= 10,
              "time stamp read",
              r.timestamp1() << " for " << epoch + l.us1 * 10);
    Pose want;
    want.t = Eigen::Vector3d(l.v[0], l.v[1], l.v[2]);
    want.r = (Eigen::AngleAxisd(l.v[5], Eigen::Vector3d::UnitZ()) *
              Eigen::AngleAxisd(l.v[4], Eigen::Vector3d::UnitY()) *
              Eigen::AngleAxisd(l.v[3], Eigen::Vector3d::UnitX()))
                 .toRotationMatrix();
    VH_EXPECT(PoseDistance(FromProtoPose(r.expected()), want) < 1e-9,
              "relative pose read", i);
  }
  if (lines.size() > 1) {
    vh::Distinct(vh::Digest().AddS(result.SerializeAsString()).Get());
  }
}

// The relation metrics program against an independent computation.
VH_SCENARIO(metrics, 60, 600) {
  const char* tool = getenv("VERIF_TOOL_METRICS");
  CHECK(tool != nullptr);
  int submaps;
  const mp::PoseGraph graph = RandomGraph(rng, &submaps);
  const auto& trajectory = graph.trajectory(0);
  const std::string stream = vh::S().scratch + "/graph.pbstream";
  const std::string relations = vh::S().scratch + "/relations.pb";
  const std::string csv = stream + ".relation_metrics.csv";
  unlink(csv.c_str());
  {
    cartographer::io::ProtoStreamWriter writer(stream);
    mp::SerializationHeader header;
    header.set_format_version(2);
    writer.WriteProto(header);
    mp::SerializedData data;
    *data.mutable_pose_graph() = graph;
    writer.WriteProto(data);
    data.mutable_all_trajectory_builder_options()
        ->add_options_with_sensor_ids();
    writer.WriteProto(data);
    CHECK(writer.Close());
  }
  gt::proto::GroundTruth truth;
  const int first = 0, last = trajectory.node_size() - 1;
  std::vector<std::pair<Pose, Pose>> poses;
  auto moment = [&](Pose* pose) -> int64_t {
    const int n = rng.Int(first, last);
    *pose = FromProtoPose(trajectory.node(n).pose());
    if (rng.Chance(0.1)) {  // before the start: the first pose counts
      *pose = FromProtoPose(trajectory.node(first).pose());
      return trajectory.node(first).timestamp() - rng.Int(1, 10000000);
    }
    if (rng.Chance(0.1)) {
      *pose = FromProtoPose(trajectory.node(last).pose());
      return trajectory.node(last).timestamp() + rng.Int(1, 10000000);
    }
    if (n < last && rng.Chance(0.4)) {
      const Pose next = FromProtoPose(trajectory.node(n + 1).pose());
      const int64_t span = trajectory.node(n + 1).timestamp() -
                           trajectory.node(n).timestamp();
      const int64_t delta = rng.Int(0, span);
      const double f = static_cast<double>(delta) / span;
      pose->t = (1. - f) * pose->t + f * next.t;
      const Eigen::AngleAxisd turn(
          Eigen::Matrix3d(pose->r.transpose() * next.r));
      pose->r = pose->r *
                Eigen::AngleAxisd(f * turn.angle(), turn.axis())
                    .toRotationMatrix();
      return trajectory.node(n).timestamp() + delta;
    }
    return trajectory.node(n).timestamp();
  };
  for (int i = rng.Int(2, 20); i > 0; --i) {
    Pose a, b;
    auto* r = truth.add_relation();
    r->set_timestamp1(moment(&a));
    r->set_timestamp2(moment(&b));
    ToProtoPose((a.Inverse() * b) * RandomPose(rng, 1., 1.),
                r->mutable_expected());
    r->set_covered_distance(rng.Real(0., 100.));
    poses.emplace_back(a, b);
  }
  {
    std::ofstream f(relations, std::ios::binary);
    CHECK(truth.SerializeToOstream(&f));
  }
  const int status = vh::RunProgram(
      {tool, "--pose_graph_filename=" + stream,
       "--relations_filename=" + relations, "--write_relation_metrics=true"});
  VH_EXPECT(status == 0, "metrics program failed", status);
  std::ifstream f(csv);
  std::string line;
  VH_EXPECT(static_cast<bool>(std::getline(f, line)), "metrics file missing",
            csv);
  for (int i = 0; i < truth.relation_size(); ++i) {
    VH_EXPECT(static_cast<bool>(std::getline(f, line)),
              "relation missing from metrics", i);
    std::vector<double> v;
    std::istringstream is(line);
    std::string cell;
    while (std::getline(is, cell, ',')) v.push_back(atof(cell.c_str()));
    VH_EXPECT(v.size() == 12, "metrics columns", line);
    const Pose expected = FromProtoPose(truth.relation(i).expected());
    const Pose error = (poses[i].first.Inverse() * poses[i].second) *
                       expected.Inverse();
    const double deg = error.Angle() * 180. / M_PI;
    auto near = [](double a, double b) {
      return std::abs(a - b) <= 2e-5 * std::max(std::abs(a), std::abs(b)) + 2e-5;
    };
    VH_EXPECT(near(v[0], error.t.norm()) && near(v[1], error.t.squaredNorm()),
              "translational error",
              v[0] << " instead of " << error.t.norm() << ": " << line);
    VH_EXPECT(near(v[2], deg) && near(std::sqrt(v[3]), deg),
              "rotational error", v[2] << " instead of " << deg);
    const auto& e = truth.relation(i).expected();
    VH_EXPECT(near(v[4], e.translation().x()) &&
                  near(v[5], e.translation().y()) &&
                  near(v[6], e.translation().z()) &&
                  near(v[7], e.rotation().w()) &&
                  near(v[8], e.rotation().x()) &&
                  near(v[9], e.rotation().y()) &&
                  near(v[10], e.rotation().z()) &&
                  near(v[11], truth.relation(i).covered_distance()),
              "relation columns", line);
  }
  VH_EXPECT(!std::getline(f, line), "extra lines in metrics", line);
  vh::Count("relations_measured", truth.relation_size());
  vh::Distinct(vh::Digest().AddS(truth.SerializeAsString()).Get());
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
