// C31: configuration dictionaries are read faithfully and completely.
#include <sys/stat.h>

#include <fstream>
#include <memory>

#include "absl/memory/memory.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/map_builder_interface.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/proto/map_builder_options.pb.h"
#include "cartographer/mapping/proto/trajectory_builder_options.pb.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "vh.h"

namespace common = cartographer::common;
namespace mapping = cartographer::mapping;
using Dict = common::LuaParameterDictionary;

namespace {

// Reference value.
struct Node {
  enum Kind { kBool, kInt, kDouble, kString, kTable } kind = kTable;
  bool b = false;
  int i = 0;
  double d = 0.;
  std::string s;
  std::map<std::string, Node> fields;
  std::vector<Node> items;
};

std::string Quote(const std::string& s, vh::Rng& rng) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\%03d", c);
      out += buf;
    } else {
      out += c;
    }
  }
  return out + "\"";
}
std::string Num(double d) {
  char buf[64];
  snprintf(buf, sizeof(buf), "%.17g", d);
  return buf;
}
std::string Render(const Node& n, vh::Rng& rng) {
  switch (n.kind) {
    case Node::kBool: return n.b ? "true" : "false";
    case Node::kInt: return std::to_string(n.i);
    case Node::kDouble:
      if (std::isinf(n.d)) return n.d > 0 ? "math.huge" : "-math.huge";
      return Num(n.d);
    case Node::kString: return Quote(n.s, rng);
    case Node::kTable: break;
  }
  std::string out = "{";
  for (const auto& x : n.items) {
    out += Render(x, rng) + (rng.Chance(0.5) ? ", " : "; ");
  }
  std::vector<std::string> keys;
  for (const auto& f : n.fields) keys.push_back(f.first);
  rng.Shuffle(&keys);
  for (const auto& k : keys) {
    out += (rng.Chance(0.5) ? k : "[\"" + k + "\"]") + " = " +
           Render(n.fields.at(k), rng) + ",\n";
  }
  return out + "}";
}

std::string RandomString(vh::Rng& rng) {
  static const char special[] = "\"\\\n\r\t'[]{}=,%-_/ ";
  std::string s;
  for (int i = rng.Int(0, 12); i > 0; --i) {
    if (rng.Chance(0.3)) {
      s += special[rng.Int(0, sizeof(special) - 2)];
    } else if (rng.Chance(0.1)) {
      s += static_cast<char>(rng.Int(1, 255));
    } else {
      s += static_cast<char>(rng.Int('0', 'z'));
    }
  }
  return s;
}
std::string RandomKey(vh::Rng& rng) {
  static const char first[] =
      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  std::string s(1, first[rng.Int(0, sizeof(first) - 2)]);
  for (int i = rng.Int(0, 6); i > 0; --i) {
    s += rng.Chance(0.2) ? static_cast<char>('0' + rng.Int(0, 9))
                         : first[rng.Int(0, sizeof(first) - 2)];
  }
  return s + "x";  // never a keyword
}

enum class Items { kNone, kDoubles, kStrings, kTables };
Node RandomTable(vh::Rng& rng, int depth);
Node RandomValue(vh::Rng& rng, int depth) {
  Node n;
  const int kind = rng.Int(0, depth > 0 ? 5 : 3);
  switch (kind) {
    case 0:
      n.kind = Node::kBool;
      n.b = rng.Chance(0.5);
      break;
    case 1:
      n.kind = Node::kInt;
      n.i = rng.Chance(0.2) ? rng.Int(-2147483647 - 1, 2147483647)
                            : rng.Int(-50, 50);
      break;
    case 2:
      n.kind = Node::kDouble;
      n.d = rng.Chance(0.05)
                ? (rng.Chance(0.5) ? 1. : -1.) *
                      std::numeric_limits<double>::infinity()
                : rng.Real(-1, 1) * std::pow(10., rng.Int(-6, 6));
      break;
    case 3:
      n.kind = Node::kString;
      n.s = RandomString(rng);
      break;
    default:
      return RandomTable(rng, depth - 1);
  }
  return n;
}
Node RandomTable(vh::Rng& rng, int depth) {
  Node n;
  for (int i = rng.Int(0, 6); i > 0; --i) {
    n.fields[RandomKey(rng)] = RandomValue(rng, depth);
  }
  if (rng.Chance(0.4)) {
    const int kind = rng.Int(0, depth > 0 ? 2 : 1);
    for (int i = rng.Int(1, 8); i > 0; --i) {
      Node x;
      if (kind == 0) {
        x.kind = Node::kDouble;
        x.d = rng.Real(-100, 100);
      } else if (kind == 1) {
        x.kind = Node::kString;
        x.s = RandomString(rng);
      } else {
        x = RandomTable(rng, depth - 1);
      }
      n.items.push_back(x);
    }
  }
  return n;
}

std::unique_ptr<common::FileResolver> NoFiles() {
  return absl::make_unique<common::ConfigurationFileResolver>(
      std::vector<std::string>{});
}

int g_reads = 0;

// Reads every value exactly once and compares.  'tolerance': numbers went
// through the printed form.
void Compare(Dict* dict, const Node& n, double tolerance) {
  std::vector<std::string> keys = dict->GetKeys();
  std::sort(keys.begin(), keys.end());
  std::vector<std::string> want;
  for (const auto& f : n.fields) want.push_back(f.first);
  VH_EXPECT(keys == want, "keys", keys.size() << " keys, " << want.size()
                                              << " expected");
  VH_EXPECT(!dict->HasKey("no_such_key"), "made-up key", "");
  auto close = [&](double a, double b) {
    return a == b || std::abs(a - b) <= tolerance;
  };
  for (const auto& f : n.fields) {
    const std::string& k = f.first;
    const Node& v = f.second;
    VH_EXPECT(dict->HasKey(k), "key missing", k);
    ++g_reads;
    switch (v.kind) {
      case Node::kBool:
        VH_EXPECT(dict->GetBool(k) == v.b, "boolean value", k);
        break;
      case Node::kInt: {
        const int got =
            v.i >= 0 && v.i % 2 ? dict->GetNonNegativeInt(k) : dict->GetInt(k);
        VH_EXPECT(got == v.i, "integer value", got << " for " << v.i);
        break;
      }
      case Node::kDouble: {
        const double got = dict->GetDouble(k);
        VH_EXPECT(close(got, v.d), "number value", got << " for " << v.d);
        break;
      }
      case Node::kString: {
        const std::string got = dict->GetString(k);
        VH_EXPECT(got == v.s, "string value", got << " for " << v.s);
        break;
      }
      case Node::kTable: {
        auto sub = dict->GetDictionary(k);
        Compare(sub.get(), v, tolerance);
        break;
      }
    }
  }
  if (n.items.empty() || n.items[0].kind == Node::kDouble) {
    const auto got = dict->GetArrayValuesAsDoubles();
    VH_EXPECT(got.size() == n.items.size(), "array length", got.size());
    for (size_t i = 0; i < got.size(); ++i) {
      VH_EXPECT(close(got[i], n.items[i].d), "array order", i);
    }
  }
  if (n.items.empty() || n.items[0].kind == Node::kString) {
    const auto got = dict->GetArrayValuesAsStrings();
    VH_EXPECT(got.size() == n.items.size(), "array length", got.size());
    for (size_t i = 0; i < got.size(); ++i) {
      VH_EXPECT(got[i] == n.items[i].s, "array order", i);
    }
  }
  if (n.items.empty() || n.items[0].kind == Node::kTable) {
    auto got = dict->GetArrayValuesAsDictionaries();
    VH_EXPECT(got.size() == n.items.size(), "array length", got.size());
    for (size_t i = 0; i < got.size(); ++i) {
      Compare(got[i].get(), n.items[i], tolerance);
    }
  }
}

int CountFields(const Node& n) {
  int c = n.fields.size();
  for (const auto& f : n.fields) c += CountFields(f.second);
  for (const auto& x : n.items) c += CountFields(x);
  return c;
}

}  // namespace

VH_SCENARIO(values, 1500, 30000) {
  const Node tree = RandomTable(rng, rng.Int(0, 3));
  const std::string code = "return " + Render(tree, rng);
  {
    Dict dict(code, NoFiles());
    Compare(&dict, tree, 0.);
  }
  auto again = Dict::NonReferenceCounted(code, NoFiles());
  const std::string text = again->ToString();
  VH_EXPECT(again->ToString() == text, "printing changes the dictionary", text);
  Compare(again.get(), tree, 0.);
  // What was printed reads back as the same content.
  auto reread = Dict::NonReferenceCounted("return " + text, NoFiles());
  Compare(reread.get(), tree, 1e-6);
  VH_EXPECT(reread->ToString() == text, "printed form changes when reread",
            text);
  if (CountFields(tree) > 2) vh::Distinct(vh::Digest().AddS(text).Get());
  vh::Count("values_read", g_reads);
  g_reads = 0;
  if (vh::WantSample()) vh::Sample(code);
}

// A wrong access is reported, a right one is not.
VH_SCENARIO(refusals, 400, 6000) {
  Node tree = RandomTable(rng, 1);
  tree.items.clear();
  while (tree.fields.size() < 2) {
    tree.fields[RandomKey(rng)] = RandomValue(rng, 1);
  }
  const std::string code = "return " + Render(tree, rng);
  std::vector<std::string> keys;
  for (const auto& f : tree.fields) keys.push_back(f.first);
  const std::string k = keys[rng.Int(0, keys.size() - 1)];
  const Node v = tree.fields[k];
  auto read = [](Dict* d, const std::string& k, const Node& v) {
    switch (v.kind) {
      case Node::kBool: d->GetBool(k); break;
      case Node::kInt: d->GetInt(k); break;
      case Node::kDouble: d->GetDouble(k); break;
      case Node::kString: d->GetString(k); break;
      case Node::kTable: Compare(d->GetDictionary(k).get(), v, 0.); break;
    }
  };
  auto expect = [&](const std::string& what, bool refused,
                    const std::function<void()>& f) {
    const auto outcome = vh::RunForked(f);
    VH_EXPECT(outcome == (refused ? vh::Outcome::kRefused
                                  : vh::Outcome::kReturned),
              what, static_cast<int>(outcome) << " for key " << k << " in\n"
                                              << code);
    vh::Count(refused ? "refusals" : "acceptances");
  };
  const int what = rng.Int(0, 6);
  vh::Distinct(vh::Digest().Add(what).AddS(code).Get());
  switch (what) {
    case 0:
      expect("unread key accepted", true, [&] {
        Dict dict(code, NoFiles());
        for (const auto& f : tree.fields) {
          if (f.first != k) read(&dict, f.first, f.second);
        }
      });
      break;
    case 1:
      expect("key read twice accepted", true, [&] {
        Dict dict(code, NoFiles());
        for (const auto& f : tree.fields) read(&dict, f.first, f.second);
        read(&dict, k, v);
      });
      break;
    case 2:
      expect("missing key accepted", true, [&] {
        auto dict = Dict::NonReferenceCounted(code, NoFiles());
        switch (rng.Int(0, 5)) {
          case 0: dict->GetBool(k + "y"); break;
          case 1: dict->GetInt(k + "y"); break;
          case 2: dict->GetDouble(k + "y"); break;
          case 3: dict->GetString(k + "y"); break;
          case 4: dict->GetNonNegativeInt(k + "y"); break;
          default: dict->GetDictionary(k + "y"); break;
        }
      });
      break;
    case 3: {
      // A reader whose type cannot fit the value.
      const bool numeric = v.kind == Node::kInt || v.kind == Node::kDouble;
      if (v.kind == Node::kString) break;  // text may look like a number
      const int reader = rng.Int(0, 3);
      if ((reader == 0 && v.kind == Node::kBool) ||
          (reader == 1 && numeric) || (reader == 2 && numeric) ||
          (reader == 3 && v.kind == Node::kTable)) {
        break;
      }
      expect("mistyped value accepted", true, [&] {
        auto dict = Dict::NonReferenceCounted(code, NoFiles());
        switch (reader) {
          case 0: dict->GetBool(k); break;
          case 1: dict->GetInt(k); break;
          case 2: dict->GetDouble(k); break;
          default: dict->GetDictionary(k); break;
        }
      });
      break;
    }
    case 4: {
      const int n = -rng.Int(1, 100);
      expect("negative value accepted", true, [&] {
        auto dict = Dict::NonReferenceCounted(
            "return { a = " + std::to_string(n) + " }", NoFiles());
        dict->GetNonNegativeInt("a");
      });
      break;
    }
    case 5: {
      // Unread key of a nested dictionary.
      expect("unread nested key accepted", true, [&] {
        Dict dict("return { a = { b = " + Render(tree, rng) + " } }",
                  NoFiles());
        auto a = dict.GetDictionary("a");
        auto b = a->GetDictionary("b");
        for (const auto& f : tree.fields) {
          if (f.first != k) read(b.get(), f.first, f.second);
        }
      });
      break;
    }
    default:
      expect("complete reading refused", false, [&] {
        Dict dict(code, NoFiles());
        for (const auto& f : tree.fields) read(&dict, f.first, f.second);
      });
      break;
  }
}

VH_SCENARIO(files, 200, 2000) {
  // Several directories holding files of the same names.
  const std::string base = vh::S().scratch + "/conf";
  mkdir(base.c_str(), 0755);
  const int dirs = rng.Int(1, 4), names = rng.Int(1, 4);
  std::vector<std::string> paths;
  std::vector<std::map<int, int>> content(dirs);
  for (int d = 0; d < dirs; ++d) {
    paths.push_back(base + "/d" + std::to_string(d));
    mkdir(paths.back().c_str(), 0755);
    for (int n = 0; n < 4; ++n) {
      const std::string file = paths.back() + "/f" + std::to_string(n) +
                               ".lua";
      unlink(file.c_str());
      if (n < names && rng.Chance(0.6)) {
        content[d][n] = rng.Int(1, 100000);
        std::ofstream f(file);
        f << "-- comment\nV" << n << " = " << content[d][n]
          << "\nreturn { from = " << content[d][n] << " }\n";
      }
    }
  }
  rng.Shuffle(&paths);
  std::vector<int> order;
  for (const auto& p : paths) order.push_back(p.back() - '0');
  auto resolver = [&] {
    return absl::make_unique<common::ConfigurationFileResolver>(paths);
  };
  for (int n = 0; n < names; ++n) {
    const std::string file = "f" + std::to_string(n) + ".lua";
    int expected = -1, dir = -1;
    for (int d : order) {
      if (content[d].count(n)) {
        expected = content[d][n];
        dir = d;
        break;
      }
    }
    if (expected < 0) {
      VH_EXPECT(vh::RunForked([&] {
                  Dict::NonReferenceCounted("include \"" + file +
                                                "\"\nreturn {}",
                                            resolver());
                }) == vh::Outcome::kRefused,
                "missing file accepted", file);
      continue;
    }
    VH_EXPECT(resolver()->GetFullPathOrDie(file) ==
                  base + "/d" + std::to_string(dir) + "/" + file,
              "file found in the wrong directory",
              resolver()->GetFullPathOrDie(file));
    {
      Dict dict("local t = include \"" + file + "\"\nreturn { v = V" +
                    std::to_string(n) + ", t = t, text = read(\"" + file +
                    "\"), c = choose(V" + std::to_string(n) +
                    " > 50000, 1, 2) }",
                resolver());
      VH_EXPECT(dict.GetInt("v") == expected, "included value", expected);
      VH_EXPECT(dict.GetInt("c") == (expected > 50000 ? 1 : 2), "choose",
                expected);
      const auto text = dict.GetString("text");
      VH_EXPECT(text == "-- comment\nV" + std::to_string(n) + " = " +
                            std::to_string(expected) + "\nreturn { from = " +
                            std::to_string(expected) + " }\n",
                "text read from file", text);
      VH_EXPECT(dict.GetDictionary("t")->GetInt("from") == expected,
                "value returned by include", expected);
    }
    VH_EXPECT(vh::RunForked([&] {
                Dict::NonReferenceCounted("include \"" + file +
                                              "\"\ninclude \"" + file +
                                              "\"\nreturn {}",
                                          resolver());
              }) == vh::Outcome::kRefused,
              "file included twice", file);
    vh::Distinct(vh::Digest().Add(expected).Add(dir).Add(dirs).Get());
  }
}

namespace {

// Reads the printed form of a dictionary.
struct Parser {
  const std::string& s;
  size_t p = 0;
  void Skip() {
    while (p < s.size() && (isspace(s[p]) || s[p] == ',')) ++p;
  }
  Node Value() {
    Skip();
    Node n;
    if (s[p] == '{') {
      ++p;
      while (true) {
        Skip();
        if (s[p] == '}') {
          ++p;
          return n;
        }
        size_t q = p;
        while (isalnum(s[q]) || s[q] == '_') ++q;
        if (q > p && isalpha(s[p]) && s.compare(q, 3, " = ") == 0) {
          const std::string key = s.substr(p, q - p);
          p = q + 3;
          n.fields[key] = Value();
        } else {
          n.items.push_back(Value());
        }
      }
    }
    if (s[p] == '"') {
      n.kind = Node::kString;
      for (++p; s[p] != '"'; ++p) n.s += s[p];
      ++p;
      return n;
    }
    size_t q = p;
    while (s[q] != ',' && !isspace(s[q]) && s[q] != '}') ++q;
    const std::string word = s.substr(p, q - p);
    p = q;
    if (word == "true" || word == "false") {
      n.kind = Node::kBool;
      n.b = word == "true";
    } else {
      n.kind = Node::kDouble;
      n.d = word == "math.huge" ? 1e9 : atof(word.c_str());
    }
    return n;
  }
};

// Gives every number and flag a value of its own.
void Mutate(Node* n, const std::string& name, vh::Rng& rng) {
  switch (n->kind) {
    case Node::kBool:
      if (name.find("use_trajectory_builder") == std::string::npos) {
        n->b = rng.Chance(0.5);
      }
      break;
    case Node::kDouble:
      if (name.find("probability") != std::string::npos) {
        n->d = n->d > 0.5 ? rng.Real(0.5001, 0.95) : rng.Real(0.05, 0.4999);
      } else if (n->d == std::floor(n->d) && n->d >= 0.) {
        // May be an integer option.
        n->d += rng.Int(1, 40);
      } else {
        n->d *= rng.Real(1.01, 1.9);
      }
      break;
    case Node::kTable:
      for (auto& f : n->fields) Mutate(&f.second, f.first, rng);
      break;
    default:
      break;
  }
}

int g_fields = 0;

void CompareOptions(const google::protobuf::Message& msg, const Node& tree,
                    const std::string& where) {
  const auto* d = msg.GetDescriptor();
  const auto* r = msg.GetReflection();
  using FD = google::protobuf::FieldDescriptor;
  for (int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i);
    auto lookup = [&](std::string name) -> const Node* {
      auto it = tree.fields.find(name);
      if (it != tree.fields.end()) return &it->second;
      const size_t at = name.find("_options");
      if (at != std::string::npos) {
        name.erase(at, 8);
        it = tree.fields.find(name);
        if (it != tree.fields.end()) return &it->second;
      }
      return nullptr;
    };
    const int count = f->is_repeated() ? r->FieldSize(msg, f) : 1;
    for (int k = 0; k < count; ++k) {
      const Node* v =
          f->is_repeated()
              ? lookup(std::string(f->name()) + "_" + std::to_string(k))
              : lookup(std::string(f->name()));
      if (v == nullptr) continue;
      const std::string path = where + "." + std::string(f->name());
      if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
        CompareOptions(f->is_repeated() ? r->GetRepeatedMessage(msg, f, k)
                                        : r->GetMessage(msg, f),
                       *v, path);
        continue;
      }
      ++g_fields;
      double got = 0.;
      const bool rep = f->is_repeated();
      switch (f->cpp_type()) {
        case FD::CPPTYPE_BOOL:
          VH_EXPECT(v->kind == Node::kBool && r->GetBool(msg, f) == v->b,
                    "option differs from its configured value",
                    path << " should be " << v->b);
          continue;
        case FD::CPPTYPE_ENUM:
          VH_EXPECT(v->kind == Node::kString &&
                        std::string(r->GetEnum(msg, f)->name()) == v->s,
                    "option differs from its configured value",
                    path << " should be " << v->s);
          continue;
        case FD::CPPTYPE_STRING:
          VH_EXPECT(v->kind == Node::kString && r->GetString(msg, f) == v->s,
                    "option differs from its configured value",
                    path << " should be " << v->s);
          continue;
        case FD::CPPTYPE_DOUBLE:
          got = rep ? r->GetRepeatedDouble(msg, f, k) : r->GetDouble(msg, f);
          break;
        case FD::CPPTYPE_FLOAT:
          got = rep ? r->GetRepeatedFloat(msg, f, k) : r->GetFloat(msg, f);
          break;
        case FD::CPPTYPE_INT32: got = r->GetInt32(msg, f); break;
        case FD::CPPTYPE_INT64: got = r->GetInt64(msg, f); break;
        case FD::CPPTYPE_UINT32: got = r->GetUInt32(msg, f); break;
        case FD::CPPTYPE_UINT64: got = r->GetUInt64(msg, f); break;
        default: continue;
      }
      VH_EXPECT(v->kind == Node::kDouble &&
                    std::abs(got - v->d) <= 1e-6 * std::abs(v->d),
                "option differs from its configured value",
                path << " is " << got << " but " << v->d << " configured");
    }
  }
}

}  // namespace

// Every option of the mapping engine takes the value configured for it.
VH_SCENARIO(options, 60, 1000) {
  auto load = [&](const std::string& file, const std::string& name) {
    auto dict = Dict::NonReferenceCounted(
        "include \"" + file + "\"\nreturn " + name, NoFiles());
    const std::string text = dict->ToString();
    Parser parser{text};
    return parser.Value();
  };
  Node map = load("map_builder.lua", "MAP_BUILDER");
  Node traj = load("trajectory_builder.lua", "TRAJECTORY_BUILDER");
  auto num = [](double d) {
    Node n;
    n.kind = Node::kDouble;
    n.d = d;
    return n;
  };
  if (rng.Chance(0.5)) {
    Node t;
    t.fields["fresh_submaps_count"] = num(1);
    t.fields["min_covered_area"] = num(2.5);
    t.fields["min_added_submaps_count"] = num(5);
    map.fields["pose_graph"].fields["overlapping_submaps_trimmer_2d"] = t;
  }
  if (rng.Chance(0.5)) {
    Node t;
    t.fields["max_submaps_to_keep"] = num(3);
    traj.fields["pure_localization_trimmer"] = t;
  }
  if (rng.Chance(0.5)) {
    Node t;
    t.fields["max_time_seconds"] = num(1.5);
    t.fields["max_distance_meters"] = num(0.7);
    t.fields["max_angle_radians"] = num(0.3);
    traj.fields["pose_graph_odometry_motion_filter"] = t;
  }
  const bool flat = rng.Chance(0.5);
  map.fields["use_trajectory_builder_2d"].b = flat;
  map.fields["use_trajectory_builder_3d"].b = !flat;
  Mutate(&map, "", rng);
  Mutate(&traj, "", rng);
  {
    Dict dict("return " + Render(map, rng), NoFiles());
    const auto options = mapping::CreateMapBuilderOptions(&dict);
    CompareOptions(options, map, "map_builder");
    VH_EXPECT(options.pose_graph_options()
                      .has_overlapping_submaps_trimmer_2d() ==
                  (map.fields["pose_graph"].fields.count(
                       "overlapping_submaps_trimmer_2d") > 0),
              "optional section", "overlapping_submaps_trimmer_2d");
  }
  {
    Dict dict("return " + Render(traj, rng), NoFiles());
    const auto options = mapping::CreateTrajectoryBuilderOptions(&dict);
    CompareOptions(options, traj, "trajectory_builder");
    VH_EXPECT(options.has_pure_localization_trimmer() ==
                  (traj.fields.count("pure_localization_trimmer") > 0),
              "optional section", "pure_localization_trimmer");
    VH_EXPECT(options.has_pose_graph_odometry_motion_filter() ==
                  (traj.fields.count("pose_graph_odometry_motion_filter") > 0),
              "optional section", "pose_graph_odometry_motion_filter");
    vh::Distinct(vh::Digest().AddS(options.SerializeAsString()).Get());
  }
  vh::Count("options_compared", g_fields);
  g_fields = 0;
}

int main(int argc, char** argv) { return vh::Main(argc, argv); }
