// Workload driver and reporter shared by all harnesses.
#ifndef VERIF_HARNESS_COMMON_H
#define VERIF_HARNESS_COMMON_H

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t Comb(uint64_t a, uint64_t b) { return Mix(a * 31 + b + 0x1234567); }
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return Mix(h);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed)) {}
  uint64_t U64() {
    s_ += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // Uniform in [lo, hi].
  int64_t Int(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(U64() % (static_cast<uint64_t>(hi - lo) + 1));
  }
  double Dbl() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  double Dbl(double lo, double hi) { return lo + (hi - lo) * Dbl(); }
  // Log-uniform.
  double LogU(double lo, double hi) { return std::exp(Dbl(std::log(lo), std::log(hi))); }
  // Positive volumes, at times vanishing or huge.
  double Volume(double lo, double hi) {
    const int k = Int(0, 79);
    return k == 0 ? Pick({1e-45, 1e-40, 1e-30, 1e-12, 5e-8}) : k == 1 ? LogU(1e-9, lo) : k == 2 ? LogU(hi, 1e9) : LogU(lo, hi);
  }
  bool Chance(double p) { return Dbl() < p; }
  template <typename T>
  T Pick(const std::vector<T>& v) { return v[U64() % v.size()]; }
  template <typename T>
  T Pick(std::initializer_list<T> v) { return *(v.begin() + U64() % v.size()); }

 private:
  uint64_t s_;
};

inline std::string Fmt(const char* f, ...) {
  char buf[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  return buf;
}

inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += Fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

inline uint64_t Bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline bool SameF(float a, float b) { return Bits(a) == Bits(b); }
inline bool Near(double a, double b, double rel, double abs = 0) {
  return a == b || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}

struct Violation { std::string key, msg; uint64_t case_seed; };

inline std::string ToJson(const Violation& v) {
  return "{\"key\":" + JsonStr(v.key) + ",\"msg\":" + JsonStr(v.msg) + Fmt(",\"case\":\"%" PRIu64 "\"}", v.case_seed);
}

struct Shared { volatile uint64_t case_seed; volatile uint64_t n; volatile uint64_t hang; };

class Ctx {
 public:
  std::string prop;    // workload / property selected
  std::string label;   // verdict label reported (normally == prop)
  uint64_t seed = 1;
  bool thorough = false;
  bool verbose = false;
  std::string tmpdir = "/tmp";
  // current case
  uint64_t case_seed = 0;
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, int> by_key;
  FILE* early = nullptr;

  bool Want(const char* l) const { return label == l; }
  void Ev(const char* name, uint64_t n = 1) { events[name] += n; }
  void Max(const char* name, uint64_t n) { auto& e = events[name]; if (n > e) e = n; }
  void Distinct(uint64_t h) { if (distinct.size() < 4000000) distinct.insert(h); }
  bool WantSample() const { return samples.size() < 3; }
  void Sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
  // Reports a violation of property `l`; key is a stable identification of what failed.
  void Fail(const char* l, const std::string& key, const std::string& msg) {
    if (label != l) { events["verdicts_for_other_properties"]++; return; }
    int& k = by_key[key];
    if (++k <= 3 && violations.size() < 60) {
      violations.push_back({key, msg.substr(0, 3000), case_seed});
      if (early) {  // Kept even if this process hangs or dies later on.
        fprintf(early, "%s\n", ToJson(violations.back()).c_str());
        fflush(early);
      }
    }
    if (verbose) fprintf(stderr, "FAIL %s %s: %s\n", l, key.c_str(), msg.c_str());
  }
};

using CaseFn = std::function<void(Ctx&, Rng&)>;

inline Shared*& SharedMem() { static Shared* s = nullptr; return s; }

inline void OnAlarm(int) {
  if (SharedMem()) SharedMem()->hang = 1;
  static const char m[] = "HARNESS-HANG\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(97);
}

struct Options {
  uint64_t cases = 100;
  int shard = 0, nshards = 1;
  double budget = 60;
  int case_timeout = 30;
  std::string out, progress;
  bool one = false;
  uint64_t one_seed = 0;
};

inline double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Runs cases of the selected property. `table` maps property -> case function.
inline int Main(int argc, char** argv, const std::map<std::string, CaseFn>& table) {
  Ctx ctx;
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") ctx.prop = val();
    else if (a == "--label") ctx.label = val();
    else if (a == "--seed") ctx.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") o.shard = atoi(val().c_str());
    else if (a == "--nshards") o.nshards = atoi(val().c_str());
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "--case-timeout") o.case_timeout = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--progress") o.progress = val();
    else if (a == "--tmpdir") ctx.tmpdir = val();
    else if (a == "--thorough") ctx.thorough = true;
    else if (a == "--case") { o.one = true; o.one_seed = strtoull(val().c_str(), nullptr, 10); ctx.verbose = true; }
  }
  if (ctx.label.empty()) ctx.label = ctx.prop;
  auto it = table.find(ctx.prop);
  if (it == table.end()) { fprintf(stderr, "unknown property %s\n", ctx.prop.c_str()); return 2; }
  if (!o.progress.empty()) {
    int fd = open(o.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
      SharedMem() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
  }
  signal(SIGALRM, OnAlarm);
  signal(SIGPIPE, SIG_IGN);
  const double t0 = Now();
  bool truncated = false;
  double first_violation = -1;
  if (!o.out.empty()) ctx.early = fopen((o.out + ".early").c_str(), "w");
  const uint64_t per = o.one ? 1 : (o.cases + o.nshards - 1) / o.nshards;
  for (uint64_t i = 0; i < per; ++i) {
    ctx.case_seed = o.one ? o.one_seed
                          : Comb(Comb(ctx.seed, HashStr(ctx.prop)), (i * o.nshards + o.shard)) >> 1;
    if (SharedMem()) { SharedMem()->case_seed = ctx.case_seed; SharedMem()->n = i; }
    alarm(o.case_timeout);
    Rng rng(ctx.case_seed);
    it->second(ctx, rng);
    alarm(0);
    ++ctx.evaluations;
    if (ctx.violations.size() >= 40) break;
    if (!ctx.violations.empty()) {
      if (first_violation < 0) first_violation = Now();
      if (Now() - first_violation > 15) break;
    }
    if (!o.one && Now() - t0 > o.budget) { truncated = i + 1 < per; break; }
  }
  std::string j = "{";
  j += Fmt("\"evaluations\":%" PRIu64 ",\"truncated\":%s,\"wall\":%.3f,", ctx.evaluations, truncated ? "true" : "false", Now() - t0);
  j += "\"events\":{";
  bool first = true;
  for (auto& e : ctx.events) { j += (first ? "" : ",") + JsonStr(e.first) + Fmt(":%" PRIu64, e.second); first = false; }
  j += "},\"samples\":[";
  first = true;
  for (auto& s : ctx.samples) { j += (first ? "" : ",") + JsonStr(s); first = false; }
  j += "],\"violations\":[";
  first = true;
  for (auto& v : ctx.violations) {
    j += (first ? "" : ",") + ToJson(v);
    first = false;
  }
  j += "]}\n";
  if (!o.out.empty()) {
    FILE* f = fopen((o.out + ".hash").c_str(), "wb");
    if (f) { for (uint64_t h : ctx.distinct) fwrite(&h, 8, 1, f); fclose(f); }
    f = fopen(o.out.c_str(), "w");
    if (!f) return 2;
    fwrite(j.data(), 1, j.size(), f);
    fclose(f);
  } else {
    printf("%s", j.c_str());
  }
  return ctx.violations.empty() ? 0 : 1;
}

}  // namespace vf

#endif
