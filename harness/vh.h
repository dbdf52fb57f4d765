// Small framework shared by the monitors: seeded cases, recording of what was
// observed, violations, and the result file read by check.py.
#ifndef VERIF_VH_H_
#define VERIF_VH_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include "vmutex.h"

namespace vh {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed) | 1) {}
  uint64_t U64() { return Mix(s_ += 0x632be59bd9b4e019ull); }
  // Uniform integer in [lo, hi].
  int64_t Int(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(
                    U64() % (static_cast<uint64_t>(hi - lo) + 1));
  }
  double Unit() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  bool Chance(double p) { return Unit() < p; }
  double Normal() {
    const double u = std::max(Unit(), 1e-300), v = Unit();
    return std::sqrt(-2. * std::log(u)) * std::cos(2. * M_PI * v);
  }
  template <typename T>
  void Shuffle(std::vector<T>* v) {
    for (size_t i = v->size(); i > 1; --i) {
      std::swap((*v)[i - 1], (*v)[Int(0, i - 1)]);
    }
  }

 private:
  uint64_t s_;
};

// Incremental FNV-like digest.
class Digest {
 public:
  template <typename Int>
  Digest& Add(Int x) {
    static_assert(std::is_integral<Int>::value ||
                      std::is_floating_point<Int>::value ||
                      std::is_enum<Int>::value,
                  "");
    if (std::is_floating_point<Int>::value) return AddD(static_cast<double>(x));
    h_ = Mix(h_ ^ static_cast<uint64_t>(x));
    return *this;
  }
  Digest& AddD(double d) {
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return Add(u);
  }
  Digest& AddS(const std::string& s) {
    for (unsigned char c : s) Add(c);
    return Add(s.size());
  }
  uint64_t Get() const { return h_; }

 private:
  uint64_t h_ = 1469598103934665603ull;
};

struct CaseAbort {};

struct State {
  std::mutex mutex;
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.;
  int shard = 0, shards = 1;
  std::string out, only_scenario, scratch;
  int64_t only_case = -1;
  std::string scenario;
  int64_t case_index = 0;
  int progress_fd = -1;
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  struct Violation {
    std::string key, detail, scenario;
    int64_t case_index;
  };
  std::vector<Violation> violations;
};

inline State& S() {
  static State* s = new State;
  return *s;
}

inline void Count(const std::string& name, uint64_t n = 1) {
  std::lock_guard<std::mutex> lock(S().mutex);
  S().counters[name] += n;
}
inline void Max(const std::string& name, uint64_t n) {
  std::lock_guard<std::mutex> lock(S().mutex);
  auto& c = S().counters["max_" + name];
  c = std::max(c, n);
}
// Marks the current case as non-trivial with this digest of what was seen.
inline void Distinct(uint64_t digest) {
  std::lock_guard<std::mutex> lock(S().mutex);
  S().distinct.insert(digest);
}
inline void Sample(const std::string& s) {
  std::lock_guard<std::mutex> lock(S().mutex);
  if (S().samples.size() < 3) S().samples.push_back(s.substr(0, 600));
}
inline bool WantSample() {
  std::lock_guard<std::mutex> lock(S().mutex);
  return S().samples.size() < 3;
}
inline bool Thorough() { return S().thorough; }

inline void Report(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> lock(S().mutex);
  for (const auto& v : S().violations) {
    if (v.key == key) return;
  }
  S().violations.push_back(
      {key, detail.substr(0, 4000), S().scenario, S().case_index});
  fprintf(stderr, "MONITOR %s (scenario %s case %" PRId64 "): %s\n",
          key.c_str(), S().scenario.c_str(), S().case_index, detail.c_str());
}

#define VH_STR(expr)                                   \
  ([&]() {                                             \
    std::ostringstream vh_os;                          \
    vh_os.precision(12);                               \
    vh_os << expr;                                     \
    return vh_os.str();                                \
  }())
// Reports a violation and ends the case.
#define VH_EXPECT(cond, key, expr)                                     \
  do {                                                                 \
    if (!(cond)) {                                                     \
      ::vh::Report(key, VH_STR("[" #cond "] " << expr));               \
      throw ::vh::CaseAbort();                                         \
    }                                                                  \
  } while (0)
// Reports a violation; usable on any thread.
#define VH_NOTE(cond, key, expr)                                       \
  do {                                                                 \
    if (!(cond)) ::vh::Report(key, VH_STR("[" #cond "] " << expr));    \
  } while (0)

inline void WriteResult();
// For violations after which the process cannot go on (a stall).
[[noreturn]] inline void Die(const std::string& key,
                             const std::string& detail) {
  Report(key, detail);
  WriteResult();
  fflush(nullptr);
  _exit(1);
}
// Waits until 'done' holds.  The limit is far beyond anything a working run
// needs; exceeding it means no progress is being made.
template <typename F>
void WaitOrDie(F done, const std::string& key, const std::string& detail,
               int seconds = 150) {
  for (int64_t i = 0;; ++i) {
    if (done()) return;
    usleep(i < 100 ? 50 : 1000);
    if (i > 1000ll * seconds) Die(key, detail);
  }
}

// Runs 'f' in a forked child and tells how it ended.  A failed CHECK or an
// exception is a refusal; a sanitizer report or signal other than SIGABRT is
// a crash.  Only for single-threaded scenarios.
enum class Outcome { kReturned, kRefused, kCrashed };
template <typename F>
Outcome RunForked(F f, int timeout_seconds = 60, std::string* text = nullptr) {
  fflush(nullptr);
  FILE* const log = text == nullptr ? nullptr : tmpfile();
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(log == nullptr ? null : fileno(log), 2);
    signal(SIGABRT, SIG_DFL);
    alarm(timeout_seconds);
    try {
      f();
    } catch (...) {
      _exit(41);
    }
    _exit(40);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {
  }
  if (log != nullptr) {
    rewind(log);
    char buffer[4096];
    size_t n;
    while ((n = fread(buffer, 1, sizeof(buffer), log)) > 0) {
      text->append(buffer, n);
    }
    fclose(log);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 40) return Outcome::kReturned;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 41) return Outcome::kRefused;
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT) {
    return Outcome::kRefused;
  }
  return Outcome::kCrashed;
}

// Runs a program, silenced, and returns its exit status (negative: signal).
// What it prints on its standard error goes to the file 'log', if given.
inline int RunProgram(const std::vector<std::string>& args,
                      const std::string& log = "") {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    setenv("GLOG_minloglevel", "0", 1);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    if (!log.empty()) {
      dup2(open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
    } else if (getenv("VERIF_SHOW") == nullptr) {
      dup2(null, 2);
    }
    alarm(120);
    std::vector<char*> argv;
    for (const auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    execv(argv[0], argv.data());
    _exit(127);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {
  }
  return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
}

struct Scenario {
  std::string name;
  int64_t quick, thorough;
  std::function<void(Rng&)> body;
};
inline std::vector<Scenario>& Scenarios() {
  static auto* s = new std::vector<Scenario>;
  return *s;
}
struct Registrar {
  Registrar(const char* name, int64_t quick, int64_t thorough,
            std::function<void(Rng&)> body) {
    Scenarios().push_back({name, quick, thorough, body});
  }
};
#define VH_SCENARIO(name, quick, thorough)                               \
  static void Scenario_##name(::vh::Rng& rng);                           \
  static ::vh::Registrar registrar_##name(#name, quick, thorough,        \
                                          Scenario_##name);              \
  static void Scenario_##name(::vh::Rng& rng)

inline std::string JsonEscape(const std::string& s) {
  std::string out;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", c);
      out += buf;
    } else {
      out += c;
    }
  }
  return out;
}

inline void WriteResult() {
  State& s = S();
  std::lock_guard<std::mutex> lock(s.mutex);
  s.counters["lock_operations"] += vmutex::g_lock_ops;
  s.counters["lock_contentions"] += vmutex::g_contended;
  s.counters["lock_waits"] += vmutex::g_waits;
  s.counters["injected_delays"] += vmutex::g_delays;
  std::ostringstream os;
  os << "{\"evaluations\":" << s.evaluations << ",\"counters\":{";
  bool first = true;
  for (const auto& c : s.counters) {
    os << (first ? "" : ",") << "\"" << c.first << "\":" << c.second;
    first = false;
  }
  os << "},\"distinct\":[";
  first = true;
  size_t n = 0;
  for (uint64_t d : s.distinct) {
    if (++n > 200000) break;
    os << (first ? "" : ",") << "\"" << std::hex << d << std::dec << "\"";
    first = false;
  }
  os << "],\"samples\":[";
  first = true;
  for (const auto& x : s.samples) {
    os << (first ? "" : ",") << "\"" << JsonEscape(x) << "\"";
    first = false;
  }
  os << "],\"violations\":[";
  first = true;
  for (const auto& v : s.violations) {
    os << (first ? "" : ",") << "{\"key\":\"" << JsonEscape(v.key)
       << "\",\"detail\":\"" << JsonEscape(v.detail) << "\",\"scenario\":\""
       << v.scenario << "\",\"case\":" << v.case_index << "}";
    first = false;
  }
  os << "]}\n";
  if (!s.out.empty()) {
    FILE* f = fopen(s.out.c_str(), "w");
    if (f != nullptr) {
      fputs(os.str().c_str(), f);
      fclose(f);
    }
  }
}

inline void MarkProgress() {
  State& s = S();
  if (s.progress_fd < 0) return;
  char buf[160];
  int n = snprintf(buf, sizeof(buf), "%-80s %20" PRId64 "\n",
                   s.scenario.c_str(), s.case_index);
  if (pwrite(s.progress_fd, buf, n, 0) < 0) return;
}

inline int Main(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    if (a == "--tier") s.thorough = v == "thorough";
    if (a == "--scale") s.scale = atof(v.c_str());
    if (a == "--shard") s.shard = atoi(v.c_str());
    if (a == "--shards") s.shards = atoi(v.c_str());
    if (a == "--out") s.out = v;
    if (a == "--scratch") s.scratch = v;
    if (a == "--scenario") s.only_scenario = v;
    if (a == "--case") s.only_case = strtoll(v.c_str(), nullptr, 10);
  }
  if (!s.out.empty()) {
    s.progress_fd = open((s.out + ".progress").c_str(),
                         O_CREAT | O_TRUNC | O_WRONLY, 0644);
  }
  for (const auto& sc : Scenarios()) {
    if (!s.only_scenario.empty()) {
      // Comma-separated list.
      if (("," + s.only_scenario + ",").find("," + sc.name + ",") ==
          std::string::npos) {
        continue;
      }
    }
    const int64_t total = std::max<int64_t>(
        1, std::llround((s.thorough ? sc.thorough : sc.quick) * s.scale));
    for (int64_t i = 0; i < total; ++i) {
      if (s.only_case >= 0 ? i != s.only_case : i % s.shards != s.shard) {
        continue;
      }
      {
        std::lock_guard<std::mutex> lock(s.mutex);
        s.scenario = sc.name;
        s.case_index = i;
        ++s.evaluations;
        ++s.counters["cases_" + sc.name];
      }
      MarkProgress();
      uint64_t h = Mix(s.seed * 1000003ull + i);
      for (char c : sc.name) h = Mix(h ^ static_cast<unsigned char>(c));
      Rng rng(h);
      try {
        sc.body(rng);
      } catch (const CaseAbort&) {
      } catch (const std::exception& e) {
        Report("exception", std::string("uncaught exception: ") + e.what());
      }
      if (S().violations.size() > 12) break;
    }
  }
  WriteResult();
  fflush(nullptr);
  const bool bad = !S().violations.empty();
  // Skip static destruction: leftovers of aborted cases are not under test.
  _exit(bad ? 1 : 0);
}

}  // namespace vh

#endif  // VERIF_VH_H_
