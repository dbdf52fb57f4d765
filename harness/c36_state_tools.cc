// C36: upgrading old state files and summarizing state files.
#include <fstream>
#include <sstream>

#include "cartographer/io/serialization_format_migration.h"
#include "saved_map.h"

namespace {

std::string Tool() {
  const char* tool = getenv("VERIF_TOOL_PBSTREAM");
  if (tool == nullptr) _exit(3);
  return tool;
}

// Takes the histograms of the submaps away.
std::map<SubmapId, std::vector<float>> TakeHistograms(Saved* saved) {
  std::map<SubmapId, std::vector<float>> histograms;
  for (auto& p : saved->parts) {
    if (!p.has_submap()) continue;
    auto* h = p.mutable_submap()
                  ->mutable_submap_3d()
                  ->mutable_rotational_scan_matcher_histogram();
    histograms[SubmapId{p.submap().submap_id().trajectory_id(),
                        p.submap().submap_id().submap_index()}] = {h->begin(),
                                                                   h->end()};
    h->Clear();
  }
  return histograms;
}

void Write(const Saved& saved, const std::string& name) {
  io::ProtoStreamWriter writer(name);
  writer.WriteProto(saved.header);
  for (const auto& p : saved.parts) writer.WriteProto(p);
  if (!writer.Close()) _exit(3);
}

Saved ReadFile(const std::string& name) {
  io::ProtoStreamReader reader(name);
  Saved saved;
  VH_EXPECT(reader.ReadProto(&saved.header), "upgraded state has a header",
            name);
  SerializedData part;
  while (reader.ReadProto(&part)) saved.parts.push_back(part);
  VH_EXPECT(reader.eof(), "upgraded state is read to the end", name);
  return saved;
}

Saved Upgrade(vh::Rng& rng, const Saved& old, bool unfinished) {
  if (rng.Chance(0.25)) {
    File in, out;
    Write(old, in.name);
    const int status =
        vh::RunProgram({Tool(), "migrate", in.name, out.name,
                        unfinished ? "--include_unfinished_submaps=true"
                                   : "--include_unfinished_submaps=false"});
    VH_EXPECT(status == 0, "the tool upgrades a state file", status);
    vh::Count("upgraded_by_tool");
    return ReadFile(out.name);
  }
  std::queue<std::unique_ptr<google::protobuf::Message>> messages;
  messages.push(std::make_unique<m::proto::SerializationHeader>(old.header));
  for (const auto& p : old.parts) {
    messages.push(std::make_unique<SerializedData>(p));
  }
  io::InMemoryProtoStreamReader reader(std::move(messages));
  Saved result;
  int index = 0;
  io::ForwardingProtoStreamWriter writer(
      [&](const google::protobuf::Message* proto) {
        if (proto == nullptr) return true;
        if (index++ == 0) {
          result.header.ParseFromString(proto->SerializeAsString());
        } else {
          result.parts.emplace_back();
          result.parts.back().ParseFromString(proto->SerializeAsString());
        }
        return true;
      });
  io::MigrateStreamVersion1ToVersion2(&reader, &writer, unfinished);
  return result;
}

void Migrate(vh::Rng& rng) {
  vmutex::Configure(rng.U64(), rng.Chance(0.5) ? 0 : rng.Int(1, 20));
  File file;
  World a(rng, true);
  a.Drive(rng.Int(1, 2), true, false);
  a.FinishAll();
  a.graph()->RunFinalOptimization();
  const bool complete = rng.Chance(0.7);
  Saved saved = Save(a.builder.get(), complete, file);
  // The tool supports trajectories numbered from zero without gaps.
  const auto& graph = saved.parts[0].pose_graph();
  for (int i = 0; i < graph.trajectory_size(); ++i) {
    if (graph.trajectory(i).trajectory_id() != i) return;
  }
  // Submaps whose nodes were trimmed cannot get their histogram back.
  const bool trimmed = [&] {
    for (const auto& o :
         saved.parts[1].all_trajectory_builder_options()
             .options_with_sensor_ids()) {
      if (o.trajectory_builder_options().has_pure_localization_trimmer()) {
        return true;
      }
    }
    return false;
  }();
  const bool old_format = rng.Chance(0.8);
  Saved old = saved;
  if (old_format) {
    old.header.set_format_version(1);
    TakeHistograms(&old);
  }
  const bool unfinished = !complete || rng.Chance(0.6);
  Saved upgraded = Upgrade(rng, old, unfinished);
  // The histograms.
  const auto expected = TakeHistograms(&saved);
  const auto actual = TakeHistograms(&upgraded);
  for (const auto& h : actual) {
    VH_EXPECT(expected.count(h.first), "an upgraded submap was there before",
              h.first);
    const auto& e = expected.at(h.first);
    VH_EXPECT(h.second.size() == e.size(), "size of a histogram",
              h.second.size() << " not " << e.size() << " of " << h.first);
    if (trimmed) continue;
    float largest = 0;
    for (float v : e) largest = std::max(largest, std::abs(v));
    for (size_t i = 0; i < e.size(); ++i) {
      VH_EXPECT(std::abs(h.second[i] - e[i]) <= 1e-3f * (1.f + largest),
                "an upgraded submap has the histogram of its nodes",
                h.first << " bucket " << i << ": " << h.second[i] << " not "
                        << e[i]);
    }
    vh::Count("histograms");
  }
  // Everything else.
  Map before = FromSaved(saved);
  const Map after = FromSaved(upgraded);
  if (!unfinished) {
    // Without the submaps that are still unfinished.
    for (const auto& p : saved.parts) {
      if (!p.has_submap() || p.submap().submap_3d().finished()) continue;
      before.submaps.erase(SubmapId{p.submap().submap_id().trajectory_id(),
                                    p.submap().submap_id().submap_index()});
    }
    for (auto it = before.constraints.begin();
         it != before.constraints.end();) {
      it = before.submaps.count(std::get<0>(it->first))
               ? std::next(it)
               : before.constraints.erase(it);
    }
    vh::Count("without_unfinished");
  }
  Same(before, after, "upgraded", Skip{});
  vh::Count("upgraded_nodes", before.nodes.size());
  vh::Count("upgraded_submaps", before.submaps.size());
  vh::Count("upgraded_constraints", before.constraints.size());
  if (before.nodes.size() > 1) {
    vh::Distinct(vh::Digest()
                     .Add(before.nodes.size())
                     .Add(before.constraints.size())
                     .Add(before.nodes.begin()->second.pose.translation().x())
                     .Get());
  }
}

// A state file with random records of every kind.
void Info(vh::Rng& rng) {
  Saved saved;
  saved.header.set_format_version(2);
  saved.parts.resize(2);
  auto* graph = saved.parts[0].mutable_pose_graph();
  auto* options = saved.parts[1].mutable_all_trajectory_builder_options();
  const int trajectories = rng.Int(0, 3);
  std::vector<std::string> lines;
  for (int i = 0; i < trajectories; ++i) {
    options->add_options_with_sensor_ids();
    auto* t = graph->add_trajectory();
    const int id = 7 * i + rng.Int(0, 5), nodes = rng.Int(0, 9),
              submaps = rng.Int(0, 4);
    t->set_trajectory_id(id);
    for (int k = 0; k < nodes; ++k) t->add_node();
    for (int k = 0; k < submaps; ++k) t->add_submap();
    lines.push_back("Trajectory id: " + std::to_string(id) + " has #nodes " +
                    std::to_string(nodes) + " has #submaps " +
                    std::to_string(submaps));
  }
  std::map<std::string, int> counts = {
      {"submap_2d", 0},
      {"submap_2d_grid", 0},
      {"submap_3d", 0},
      {"submap_3d_high_resolution_hybrid_grid", 0}};
  const int records = rng.Int(0, 40);
  int unknown = 0;
  for (int i = 0; i < records; ++i) {
    saved.parts.emplace_back();
    auto& p = saved.parts.back();
    switch (rng.Int(0, 8)) {
      case 0:
        ++counts["submap"];
        ++counts["submap_2d"];
        p.mutable_submap()->mutable_submap_2d();
        if (rng.Chance(0.5)) {
          p.mutable_submap()->mutable_submap_2d()->mutable_grid();
          ++counts["submap_2d_grid"];
        }
        break;
      case 1:
        ++counts["submap"];
        ++counts["submap_3d"];
        p.mutable_submap()->mutable_submap_3d();
        if (rng.Chance(0.5)) {
          p.mutable_submap()
              ->mutable_submap_3d()
              ->mutable_high_resolution_hybrid_grid();
          ++counts["submap_3d_high_resolution_hybrid_grid"];
        }
        break;
      case 2:
        ++counts["node"];
        p.mutable_node();
        break;
      case 3:
        ++counts["trajectory_data"];
        p.mutable_trajectory_data();
        break;
      case 4:
        ++counts["imu_data"];
        p.mutable_imu_data();
        break;
      case 5:
        ++counts["odometry_data"];
        p.mutable_odometry_data();
        break;
      case 6:
        ++counts["fixed_frame_pose_data"];
        p.mutable_fixed_frame_pose_data();
        break;
      case 7:
        ++counts["landmark_data"];
        p.mutable_landmark_data();
        break;
      default:
        // Of a kind that this version does not know.
        if (rng.Chance(0.3)) {
          ++unknown;
          p.ParseFromString(std::string("\xd2\x3e\x02hi", 5));
        } else {
          saved.parts.pop_back();
        }
    }
  }
  File file, log;
  Write(saved, file.name);
  std::vector<std::string> args = {Tool(), "info", file.name};
  if (rng.Chance(0.2)) args.push_back("--all_debug_strings");
  const int status = vh::RunProgram(args, log.name);
  std::ifstream in(log.name);
  std::stringstream text;
  text << in.rdbuf();
  VH_EXPECT(status == 0, "the tool summarizes a state file",
            "status " << status << " with " << unknown << " unknown records\n"
                      << text.str().substr(0, 2000));
  for (const auto& c : counts) {
    lines.push_back("SerializedData package contains #" + c.first + ": " +
                    std::to_string(c.second));
  }
  for (const auto& line : lines) {
    VH_EXPECT(text.str().find(line + "\n") != std::string::npos,
              "the summary tells what the file contains", line);
    vh::Count("summary_lines");
  }
  vh::Count("unknown_records", unknown);
  if (records > 0) vh::Distinct(vh::Digest().Add(text.str().size()).Get());
}

}  // namespace

VH_SCENARIO(migrate, 64, 1500) { Migrate(rng); }
VH_SCENARIO(info, 64, 1500) { Info(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
