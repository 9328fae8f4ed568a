// Common part of the monitors: case loop, PRNG, violation log, counters.
//
//   harness --seed S --cases N --ms M [--case K] [--only GROUP]
//
// Every case has its own PRNG state derived from (seed, group, case index), so
// a case is replayed alone with --only GROUP --case K.
// stdout: "VIOL\t<group>\t<case>\t<key>\t<detail>" and a last "STATS\t<json>".
#ifndef VERIF_VH_H_
#define VERIF_VH_H_
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
    for (int i = 0; i < 4; ++i) next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Uniform integer in [lo, hi].
  int range(int lo, int hi) {
    return lo + static_cast<int>(next() % (static_cast<uint64_t>(hi - lo) + 1));
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * u(); }
  bool chance(double p) { return u() < p; }
  double gauss() {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[next() % v.size()];
  }
  template <class T>
  void shuffle(std::vector<T>* v) {
    for (int i = static_cast<int>(v->size()) - 1; i > 0; --i)
      std::swap((*v)[i], (*v)[range(0, i)]);
  }
};

struct State {
  uint64_t seed = 1;
  long cases = 100;
  long ms = 30000;
  long only_case = -1;
  std::string only;
  std::string group;
  long case_idx = -1;
  long violations = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> sample_per_group;
  std::map<std::string, int> viol_per_key;
  char crumb[60000];
};
inline State& S() {
  static State* s = new State();
  return *s;
}

inline std::string Clean(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\t' || c == '\r') c = ' ';
  if (s.size() > 6000) s = s.substr(0, 6000) + "...";
  return s;
}
inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (static_cast<unsigned char>(c) < 0x20) {
      o += ' ';
    } else {
      o += c;
    }
  }
  return o + "\"";
}

inline void Count(const std::string& k, uint64_t n = 1) { S().counters[k] += n; }

// Records the description of what runs now, for the crash report.
inline void Crumb(const std::string& s) {
  size_t n = std::min(s.size(), sizeof(S().crumb) - 1);
  memcpy(S().crumb, s.data(), n);
  S().crumb[n] = 0;
}

// One evaluation of a non-trivial case; `sig` is a hash of its shape/content.
inline void Nontrivial(uint64_t sig) {
  if (S().distinct.size() < 2000000) S().distinct.insert(sig);
}
inline uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
inline void Sample(const std::string& s) {
  int& n = S().sample_per_group[S().group];
  if (n < 2) {
    ++n;
    S().samples.push_back(S().group + ": " + Clean(s).substr(0, 700));
  }
}

inline void Violation(const std::string& key, const std::string& detail) {
  State& s = S();
  ++s.violations;
  if (++s.viol_per_key[key] > 3) return;
  printf("VIOL\t%s\t%ld\t%s\t%s\n", s.group.c_str(), s.case_idx, key.c_str(),
         Clean(detail).c_str());
  fflush(stdout);
}

#define VH_EXPECT(cond, key, detail_expr)                 \
  do {                                                    \
    ::vh::Count("checks");                                \
    if (!(cond)) {                                        \
      std::ostringstream vh_os;                           \
      vh_os.precision(17);                                \
      vh_os << #cond << " failed: " << detail_expr;       \
      ::vh::Violation(key, vh_os.str());                  \
    }                                                     \
  } while (0)

inline bool Near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

inline void OnDeath() {
  State& s = S();
  char buf[256];
  int n = snprintf(buf, sizeof(buf), "\nDEATH\t%s\t%ld\t", s.group.c_str(), s.case_idx);
  (void)!write(1, buf, n);
  for (char* p = s.crumb; *p; ++p)
    if (*p == '\n' || *p == '\t') *p = ' ';
  (void)!write(1, s.crumb, strlen(s.crumb));
  (void)!write(1, "\n", 1);
}
inline void OnSignal(int sig) {
  signal(sig, SIG_DFL);
  OnDeath();
  raise(sig);
}

// CPU seconds one case may take.  Cases take milliseconds; a case which reaches
// this does not terminate for practical purposes.
inline int& HangSeconds() {
  static int s = 60;
  return s;
}
inline void OnHang(int) {
  OnDeath();
  const char m[] = "HANG: the case used up its CPU time\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(97);
}
inline void ArmHang() {
  struct itimerval t = {};
  t.it_value.tv_sec = HangSeconds();
  setitimer(ITIMER_PROF, &t, nullptr);
}

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

struct Group {
  std::string name;
  double weight;  // Cases run = weight * N.
  std::function<void(Rng*)> fn;
};

inline uint64_t NowMs() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

inline void PrintStats() {
  State& s = S();
  std::string o = "{\"counters\":{";
  bool first = true;
  for (auto& kv : s.counters) {
    o += (first ? "" : ",") + JsonStr(kv.first) + ":" + std::to_string(kv.second);
    first = false;
  }
  o += "},\"distinct\":[";
  o += std::to_string(s.distinct.size());
  o += "],\"samples\":[";
  first = true;
  for (auto& x : s.samples) {
    o += (first ? "" : ",") + JsonStr(x);
    first = false;
  }
  o += "],\"violations\":" + std::to_string(s.violations) + "}";
  printf("STATS\t%s\n", o.c_str());
  fflush(stdout);
}

inline int Main(int argc, char** argv, const std::vector<Group>& groups) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") s.seed = strtoull(argv[i + 1], nullptr, 10);
    if (a == "--cases") s.cases = atol(argv[i + 1]);
    if (a == "--ms") s.ms = atol(argv[i + 1]);
    if (a == "--case") s.only_case = atol(argv[i + 1]);
    if (a == "--only") s.only = argv[i + 1];
  }
  s.crumb[0] = 0;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(OnDeath);
  signal(SIGABRT, OnSignal);
  signal(SIGPROF, OnHang);
  const uint64_t t0 = NowMs();
  // Interleave the groups so that a time cap does not starve the last ones.
  std::vector<long> next(groups.size(), 0), total(groups.size());
  bool more = true;
  for (size_t g = 0; g < groups.size(); ++g) {
    total[g] = std::max(1L, static_cast<long>(groups[g].weight * s.cases));
    if (!s.only.empty() && groups[g].name != s.only) total[g] = 0;
  }
  const int kRounds = 50;
  for (int round = 0; round < kRounds && more; ++round) {
    for (size_t g = 0; g < groups.size(); ++g) {
      const long upto = total[g] * (round + 1) / kRounds;
      for (; next[g] < upto; ++next[g]) {
        if (s.only_case >= 0 && next[g] != s.only_case) continue;
        if (NowMs() - t0 > static_cast<uint64_t>(s.ms)) {
          Count("time_cap_hit");
          more = false;
          break;
        }
        s.group = groups[g].name;
        s.case_idx = next[g];
        Rng r(s.seed * 1000003ull + Hash(groups[g].name) + 7919ull * next[g]);
        ArmHang();
        groups[g].fn(&r);
        Count("cases");
        Count("cases_" + groups[g].name);
      }
      if (!more) break;
    }
  }
  PrintStats();
  return s.violations ? 3 : 0;
}

}  // namespace vh
#endif
