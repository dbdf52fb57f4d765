// C26: record stream files return exactly the records written, and after
// truncation at any byte an exact prefix of them.
#include <sys/stat.h>

#include <fstream>
#include <queue>

#include "absl/memory/memory.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "glog/logging.h"
#include "vh.h"

namespace io = cartographer::io;
namespace mp = cartographer::mapping::proto;

namespace {

std::string Path(const std::string& name) {
  return vh::S().scratch + "/" + name;
}

mp::SerializedData RandomMessage(vh::Rng& rng, bool large) {
  mp::SerializedData d;
  switch (rng.Int(0, 4)) {
    case 0:
      break;  // empty
    case 1: {
      auto* imu = d.mutable_imu_data();
      imu->set_trajectory_id(rng.Int(0, 5));
      imu->mutable_imu_data()->set_timestamp(rng.U64() >> 2);
      imu->mutable_imu_data()->mutable_linear_acceleration()->set_x(
          rng.Normal());
      break;
    }
    case 2: {
      auto* l = d.mutable_landmark_data()->mutable_landmark_data();
      l->set_timestamp(rng.Int(0, 1000));
      for (int i = rng.Int(0, 6); i > 0; --i) {
        std::string id;
        for (int k = rng.Int(0, 30); k > 0; --k) id += 'a' + rng.Int(0, 25);
        l->add_landmark_observations()->set_id(id);
      }
      break;
    }
    default: {
      auto* t = d.mutable_pose_graph()->add_trajectory();
      const int n = large ? rng.Int(1000, 20000) : rng.Int(0, 8);
      for (int i = 0; i < n; ++i) {
        auto* node = t->add_node();
        node->set_timestamp(rng.U64() >> 1);
        node->mutable_pose()->mutable_translation()->set_x(
            large && rng.Chance(0.5) ? 1. : rng.Normal());
      }
    }
  }
  return d;
}

std::vector<std::string> RandomRecords(vh::Rng& rng, int max,
                                       bool allow_large) {
  std::vector<std::string> r;
  for (int i = rng.Int(0, max); i > 0; --i) {
    r.push_back(RandomMessage(rng, allow_large && rng.Chance(0.2))
                    .SerializeAsString());
  }
  return r;
}

std::string FileContent(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)),
                     std::istreambuf_iterator<char>());
}
void WriteFile(const std::string& path, const std::string& data) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(data.data(), data.size());
}

void WriteStream(const std::string& path,
                 const std::vector<std::string>& records) {
  io::ProtoStreamWriter writer(path);
  for (const auto& r : records) {
    mp::SerializedData d;
    CHECK(d.ParseFromString(r));
    writer.WriteProto(d);
  }
  VH_EXPECT(writer.Close(), "closing a good stream failed", path);
}

// Reads until the end; returns what was read.
std::vector<std::string> ReadStream(const std::string& path, bool* eof) {
  io::ProtoStreamReader reader(path);
  std::vector<std::string> got;
  while (true) {
    mp::SerializedData d;
    if (!reader.ReadProto(&d)) break;
    got.push_back(d.SerializeAsString());
    VH_EXPECT(got.size() < 1000, "endless stream", got.size());
  }
  *eof = reader.eof();
  // Asking again does not bring records back.
  mp::SerializedData d;
  VH_EXPECT(!reader.ReadProto(&d), "record after the end", "");
  return got;
}

void CheckTruncated(const std::string& full,
                    const std::vector<std::string>& records, size_t cut,
                    const std::vector<size_t>& ends) {
  const std::string path = Path("truncated.pbstream");
  WriteFile(path, full.substr(0, cut));
  if (cut < 8) {
    VH_EXPECT(vh::RunForked([&] { io::ProtoStreamReader r(path); }) ==
                  vh::Outcome::kRefused,
              "stream without header accepted", cut);
    vh::Count("refused_headers");
    return;
  }
  bool eof = false;
  const auto got = ReadStream(path, &eof);
  size_t complete = 0;
  while (complete < ends.size() && ends[complete] <= cut) ++complete;
  VH_EXPECT(got.size() == complete, "records of a truncated stream",
            got.size() << " read of " << complete
                       << " complete ones, cut at byte " << cut << " of "
                       << full.size());
  for (size_t i = 0; i < got.size(); ++i) {
    VH_EXPECT(got[i] == records[i], "truncation altered a record",
              "record " << i << ", cut at " << cut);
  }
  vh::Count("truncations");
}

// End offset of each record, from the size prefixes.
std::vector<size_t> RecordEnds(const std::string& full) {
  std::vector<size_t> ends;
  size_t p = 8;
  while (p + 8 <= full.size()) {
    uint64_t size = 0;
    for (int i = 7; i >= 0; --i) {
      size = (size << 8) | static_cast<unsigned char>(full[p + i]);
    }
    VH_EXPECT(size <= full.size() - p - 8, "size prefix beyond the file",
              size);
    p += 8 + size;
    ends.push_back(p);
  }
  VH_EXPECT(p == full.size(), "bytes after the last record", p);
  return ends;
}

}  // namespace

VH_SCENARIO(round_trip, 400, 6000) {
  const auto records = RandomRecords(rng, 12, true);
  const std::string path = Path("stream.pbstream");
  WriteStream(path, records);
  bool eof = false;
  const auto got = ReadStream(path, &eof);
  VH_EXPECT(got.size() == records.size(), "number of records",
            got.size() << " of " << records.size());
  size_t bytes = 0;
  vh::Digest digest;
  for (size_t i = 0; i < records.size(); ++i) {
    VH_EXPECT(got[i] == records[i], "record content", i);
    bytes += records[i].size();
    digest.AddS(records[i].substr(0, 200));
  }
  VH_EXPECT(eof, "no end of file after the last record", "");
  if (records.size() > 1) vh::Distinct(digest.Get());
  vh::Count("records", records.size());
  vh::Count("bytes", bytes);
  if (vh::WantSample()) {
    vh::Sample(VH_STR(records.size() << " records, " << bytes << " bytes"));
  }
}

// Every truncation point of a small file.
VH_SCENARIO(truncate_small, 24, 600) {
  const auto records = RandomRecords(rng, 5, false);
  const std::string path = Path("small.pbstream");
  WriteStream(path, records);
  const std::string full = FileContent(path);
  const auto ends = RecordEnds(full);
  VH_EXPECT(ends.size() == records.size(), "records in the file", ends.size());
  // The header cuts fork; sample them.
  CheckTruncated(full, records, rng.Int(0, 7), ends);
  for (size_t cut = 8; cut <= full.size(); ++cut) {
    CheckTruncated(full, records, cut, ends);
  }
  vh::Distinct(vh::Digest().AddS(full).Get());
}

VH_SCENARIO(truncate_large, 24, 600) {
  const auto records = RandomRecords(rng, 6, true);
  const std::string path = Path("large.pbstream");
  WriteStream(path, records);
  const std::string full = FileContent(path);
  const auto ends = RecordEnds(full);
  std::set<size_t> cuts;
  for (size_t e : ends) {
    for (int d = -10; d <= 10; ++d) cuts.insert(e + d);
  }
  for (int i = 0; i < 30; ++i) cuts.insert(rng.Int(0, full.size()));
  int headers = 0;
  for (size_t cut : cuts) {
    if (cut > full.size() || (cut < 8 && ++headers > 2)) continue;
    CheckTruncated(full, records, cut, ends);
  }
  vh::Distinct(vh::Digest().AddS(full.substr(0, 4000)).Get());
}

// A file that is not a record stream is refused.
VH_SCENARIO(bad_magic, 60, 400) {
  const auto records = RandomRecords(rng, 3, false);
  const std::string path = Path("magic.pbstream");
  WriteStream(path, records);
  std::string full = FileContent(path);
  full[rng.Int(0, 7)] ^= 1 << rng.Int(0, 7);
  WriteFile(path, full);
  VH_EXPECT(vh::RunForked([&] { io::ProtoStreamReader r(path); }) ==
                vh::Outcome::kRefused,
            "damaged header accepted", "");
  VH_EXPECT(vh::RunForked([&] {
              io::ProtoStreamReader r(Path("does_not_exist.pbstream"));
            }) == vh::Outcome::kRefused,
            "missing file accepted", "");
}

// Failing writes are reported by Close.
VH_SCENARIO(write_failure, 40, 200) {
  {
    io::ProtoStreamWriter writer("/dev/full");
    for (int i = rng.Int(1, 4); i > 0; --i) {
      writer.WriteProto(RandomMessage(rng, rng.Chance(0.3)));
    }
    VH_EXPECT(!writer.Close(), "full disk not reported", "");
  }
  io::ProtoStreamWriter writer(Path("no_such_directory/file.pbstream"));
  writer.WriteProto(RandomMessage(rng, false));
  VH_EXPECT(!writer.Close(), "unwritable path not reported", "");
}

// A mapping-state file cut anywhere is read as a prefix or refused; its
// leading parts are checked for order.
VH_SCENARIO(deserializer, 60, 800) {
  const std::string path = Path("state.pbstream");
  mp::SerializationHeader header;
  header.set_format_version(rng.Chance(0.8) ? 2 : 1);
  mp::SerializedData graph, options;
  graph.mutable_pose_graph();
  options.mutable_all_trajectory_builder_options();
  const int trajectories = rng.Int(0, 3);
  for (int i = 0; i < trajectories; ++i) {
    graph.mutable_pose_graph()->add_trajectory()->set_trajectory_id(i);
    options.mutable_all_trajectory_builder_options()
        ->add_options_with_sensor_ids();
  }
  const int fault = rng.Int(0, 5);
  if (fault == 1) header.set_format_version(rng.Chance(0.5) ? 0 : 3);
  if (fault == 2) graph.mutable_pose_graph()->add_trajectory();
  std::vector<mp::SerializedData> rest;
  for (int i = rng.Int(0, 4); i > 0; --i) {
    rest.push_back(RandomMessage(rng, false));
  }
  {
    io::ProtoStreamWriter writer(path);
    writer.WriteProto(header);
    if (fault == 3) {
      writer.WriteProto(options);
      writer.WriteProto(graph);
    } else {
      if (fault != 4) writer.WriteProto(graph);
      writer.WriteProto(options);
    }
    for (const auto& r : rest) writer.WriteProto(r);
    CHECK(writer.Close());
  }
  const bool bad = fault >= 1 && fault <= 4;
  if (bad) {
    VH_EXPECT(vh::RunForked([&] {
                io::ProtoStreamReader reader(path);
                io::ProtoStreamDeserializer d(&reader);
              }) == vh::Outcome::kRefused,
              "malformed state file accepted", fault);
    vh::Count("refused_states");
    return;
  }
  io::ProtoStreamReader reader(path);
  io::ProtoStreamDeserializer d(&reader);
  VH_EXPECT(d.header().SerializeAsString() == header.SerializeAsString() &&
                d.pose_graph().SerializeAsString() ==
                    graph.pose_graph().SerializeAsString() &&
                d.all_trajectory_builder_options().SerializeAsString() ==
                    options.all_trajectory_builder_options()
                        .SerializeAsString(),
            "leading parts of the state", trajectories);
  for (const auto& r : rest) {
    mp::SerializedData got;
    VH_EXPECT(d.ReadNextSerializedData(&got), "state part missing", "");
    VH_EXPECT(got.SerializeAsString() == r.SerializeAsString(), "state part",
              "");
  }
  mp::SerializedData got;
  VH_EXPECT(!d.ReadNextSerializedData(&got), "made-up state part", "");
  // Cut inside the leading parts: refused.
  const std::string full = FileContent(path);
  const auto ends = RecordEnds(full);
  const size_t cut = rng.Int(0, ends[2] - 1);
  WriteFile(path, full.substr(0, cut));
  VH_EXPECT(vh::RunForked([&] {
              io::ProtoStreamReader reader(path);
              io::ProtoStreamDeserializer d(&reader);
            }) == vh::Outcome::kRefused,
            "state without its leading parts accepted", cut);
  vh::Distinct(vh::Digest().AddS(full).Add(cut).Get());
}

VH_SCENARIO(in_memory, 300, 4000) {
  const auto records = RandomRecords(rng, 10, false);
  std::vector<std::string> forwarded;
  bool closed = false;
  io::ForwardingProtoStreamWriter writer(
      [&](const google::protobuf::Message* m) {
        VH_EXPECT(!closed, "write after close", "");
        if (m == nullptr) {
          closed = true;
        } else {
          forwarded.push_back(m->SerializeAsString());
        }
        return true;
      });
  io::InMemoryProtoStreamReader reader;
  std::queue<std::unique_ptr<google::protobuf::Message>> chunks;
  const bool queue = rng.Chance(0.5);
  for (const auto& r : records) {
    mp::SerializedData d;
    CHECK(d.ParseFromString(r));
    writer.WriteProto(d);
    reader.AddProto(d);
    chunks.push(absl::make_unique<mp::SerializedData>(d));
  }
  VH_EXPECT(writer.Close() && closed, "close not forwarded", "");
  VH_EXPECT(forwarded == records, "forwarded records", forwarded.size());
  io::InMemoryProtoStreamReader reader2(std::move(chunks));
  io::InMemoryProtoStreamReader& in = queue ? reader2 : reader;
  for (const auto& r : records) {
    VH_EXPECT(!in.eof(), "early end", "");
    mp::SerializedData d;
    d.mutable_odometry_data()->set_trajectory_id(9);  // must be overwritten
    VH_EXPECT(in.ReadProto(&d) && d.SerializeAsString() == r,
              "record from memory", "");
  }
  mp::SerializedData d;
  VH_EXPECT(in.eof() && !in.ReadProto(&d), "end of stream", "");
  if (records.size() > 1) {
    vh::Distinct(vh::Digest().AddS(records[0]).AddS(records[1]).Get());
  }
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
