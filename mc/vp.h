// Core of every harness: sharded exhaustive enumeration of cases, outcome
// hashing, violation recording, hang watchdog.  Header-only, C++11.
#ifndef VP_H__
#define VP_H__
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>
#include <iostream>
#include <cmath>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vp {

struct Shared {           // mmap'd so that the driver can read it after a crash
  volatile long cur_case; // case being executed, -1 none
  volatile long done;
};

struct Ctx {
  int shard = 0, nshards = 1;
  long only = -1;
  bool thorough = false;
  bool verbose = false;
  bool shallow = false;   // second pass with address sanitiser
  std::string out;      // prefix of result files
  std::string scratch;  // private scratch directory
  long next_case = 0;
  long cur = -1;
  long cases = 0;       // executed by this shard
  uint64_t transitions = 0, traces = 0;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  std::set<std::string> keys;
  FILE* viol = nullptr;
  long nviol = 0;
  Shared* sh = nullptr;
  std::vector<std::pair<std::string, long long>> extra;
  double deadline = 0, soft = 0;
  bool capped = false;
  std::string note;
};
__attribute__((no_sanitize_thread)) inline Ctx& C() { static Ctx c; return c; }
inline bool thorough() { return C().thorough && !C().shallow; }
inline bool shallow() { return C().shallow; }

inline double now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// --- hang watchdog: no case may run longer than hang_seconds -------------
__attribute__((no_sanitize_thread)) inline int& hang_seconds() { static int s = 40; return s; }
__attribute__((no_sanitize_thread)) inline void on_tick(int) {
  static long last = -2; static int stuck = 0;
  long c = C().sh ? C().sh->cur_case + C().sh->done * 1000003L : 0;
  if (C().cur >= 0 && c == last) {
    if (++stuck * 2 >= hang_seconds()) {
      const char m[] = "VP-HANG\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r;
      _exit(78);
    }
  } else stuck = 0;
  last = c;
}
// long explorations inside one case call this to show progress
inline void progress() { if (C().sh) C().sh->done = C().sh->done + 1; }

inline void finish();
inline void init(int argc, char** argv) {
  Ctx& c = C();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--shard") c.shard = atoi(val().c_str());
    else if (a == "--nshards") c.nshards = atoi(val().c_str());
    else if (a == "--only") c.only = atol(val().c_str());
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--shallow") c.shallow = true;
    else if (a == "--verbose") c.verbose = true;
    else if (a == "--out") c.out = val();
    else if (a == "--scratch") c.scratch = val();
    else if (a == "--hang") hang_seconds() = atoi(val().c_str());
    else if (a == "--budget") c.deadline = now() + atof(val().c_str());
    else if (a == "--soft") c.soft = now() + atof(val().c_str());
  }
  if (!c.out.empty()) {
    c.viol = fopen((c.out + ".viol").c_str(), "w");
    int fd = open((c.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0)
      c.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (fd >= 0) close(fd);
  }
  if (!c.sh) { static Shared s; c.sh = &s; }
  c.sh->cur_case = -1; c.sh->done = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_REAL, &it, nullptr);
}

// time limits: past the first, explorations of schedules go on with fewer preemptions; past the second they end
inline bool late() { if (C().soft > 0 && now() > C().soft) { C().capped = true; return true; } return false; }
inline bool over() { if (C().deadline > 0 && now() > C().deadline) { C().capped = true; return true; } return false; }
// Next case of the enumeration: true if this process has to execute it.
inline bool take() {
  Ctx& c = C();
  long id = c.next_case++;
  if (c.only >= 0) { if (id != c.only) return false; }
  else if (id % c.nshards != c.shard) return false;
  if (c.deadline > 0 && now() > c.deadline) { c.capped = true; return false; }
  c.cur = id; c.sh->cur_case = id; ++c.cases;
  return true;
}
// For enumerations over big inner loops: skip whole blocks of ids cheaply.
inline void step(uint64_t n = 1) { C().transitions += n; }
inline void trace(uint64_t n = 1) { C().traces += n; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return mix(h, n);
}
inline uint64_t hash(const std::string& s) { return hash_bytes(s.data(), s.size()); }
inline void state(uint64_t h) { auto& s = C().states; if (s.size() < 4000000) s.insert(h); }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}
inline std::string fstr(double v) { return fmt("%.9g", v); }

inline void sample(const std::string& s) { if (C().samples.size() < 3) C().samples.push_back(s); }
inline void extra(const std::string& k, long long v) {
  for (auto& e : C().extra) if (e.first == k) { e.second += v; return; }
  C().extra.push_back({k, v});
}

struct Stop {};  // thrown to end the enumeration after too many violations

// Record a violation; key identifies what fails (stable across runs).
inline void fail(const std::string& key, const std::string& msg) {
  Ctx& c = C();
  ++c.nviol;
  std::string m = msg;
  for (auto& ch : m) if (ch == '\n') ch = '\t';
  if (c.verbose) printf("FAIL key=%s case=%ld %s\n", key.c_str(), c.cur, m.c_str());
  if (c.viol && (c.keys.insert(key).second)) {
    fprintf(c.viol, "%s\x1f%ld\x1f%s\n", key.c_str(), c.cur, m.c_str());
    fflush(c.viol);
  }
  if (c.keys.size() >= 40) throw Stop();
}
inline void describe(const std::string& s) { if (C().verbose) { printf("CASE %ld: %s\n", C().cur, s.c_str()); fflush(stdout);} }

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { o += fmt("\\u%04x", ch); }
    else o += ch;
  }
  return o + "\"";
}

inline void finish() {
  Ctx& c = C();
  c.cur = -1; c.sh->cur_case = -1;
  if (c.viol) fclose(c.viol);
  if (c.out.empty()) { printf("cases=%ld states=%zu viol=%ld\n", c.cases, c.states.size(), c.nviol); return; }
  FILE* f = fopen((c.out + ".states").c_str(), "wb");
  for (uint64_t h : c.states) fwrite(&h, 8, 1, f);
  fclose(f);
  f = fopen((c.out + ".json").c_str(), "w");
  fprintf(f, "{\"cases\":%ld,\"total_cases\":%ld,\"transitions\":%llu,\"traces\":%llu,\"capped\":%s,\"nviol\":%ld,\"samples\":[",
          c.cases, c.next_case, (unsigned long long)c.transitions, (unsigned long long)c.traces,
          c.capped ? "true" : "false", c.nviol);
  for (size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(c.samples[i]).c_str());
  fprintf(f, "],\"extra\":{");
  for (size_t i = 0; i < c.extra.size(); ++i)
    fprintf(f, "%s%s:%lld", i ? "," : "", jstr(c.extra[i].first).c_str(), c.extra[i].second);
  fprintf(f, "}}\n");
  fclose(f);
}

// silence stdout/stderr of the code under test (it prints a lot)
inline void quiet() {
  if (C().verbose) return;
  int n = open("/dev/null", O_WRONLY);
  fflush(stdout); fflush(stderr);
  dup2(n, 1);
  // stderr goes to a per-shard file so that sanitizer reports survive
  close(n);
}

inline std::string read_file(const std::string& p) {
  std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
inline void write_file(const std::string& p, const std::string& s) {
  FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); }
  if (fwrite(s.data(), 1, s.size(), f) != s.size()) abort();
  fclose(f);
}
inline std::string tmp(const std::string& name) { return C().scratch + "/" + name; }

// enumerate all sequences of length 0..depth over alphabet size k
inline void sequences(int k, int mind, int maxd, const std::function<void(const std::vector<int>&)>& fn) {
  std::vector<int> s;
  std::function<void(int)> rec = [&](int len) {
    if ((int)s.size() == len) { fn(s); return; }
    for (int i = 0; i < k; ++i) { s.push_back(i); rec(len); s.pop_back(); }
  };
  for (int d = mind; d <= maxd; ++d) rec(d);
}

#define VP_MAIN(run)                                   \
  int main(int argc, char** argv) {                    \
    vp::init(argc, argv);                              \
    vp::quiet();                                       \
    try { run(); } catch (vp::Stop&) {}                \
    vp::finish();                                      \
    fflush(stdout);                                    \
    _exit(0);                                          \
  }
}  // namespace vp
#endif
