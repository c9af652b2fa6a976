#include "vpsched.h"
#include "vp.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <new>
#include <unordered_set>
#include <unordered_map>

// ---------------------------------------------------------------------------
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t);
// switch stacks: save callee-saved registers, store sp, load the other sp
void vp_switch(void** save, void* load);
}
__asm__(
".text\n.globl vp_switch\n.type vp_switch,@function\nvp_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size vp_switch,.-vp_switch\n");
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace {
struct Eh { void* caught; unsigned uncaught; };
const int MAXT = 10;
const size_t STACK = 256 * 1024;

enum Pend { P_RUN, P_LOCK, P_COND, P_TIMED, P_JOIN, P_YIELD, P_DONE };

struct Thread {
  void* sp = nullptr; Eh eh;
  char* stack = nullptr;
  Pend pend = P_DONE;
  void* obj = nullptr;       // mutex, condition
  void* mtx = nullptr;       // mutex to re-acquire after a condition wait
  int join = -1;
  bool timed_out = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  std::function<void()> body;
  bool detached = false, joined = false;
  int holds = 0;
  uint32_t vc[MAXT];
};

struct Mutex { int owner = -1; uint32_t vc[MAXT] = {0}; };
struct Point { int chosen; int n; std::vector<int> cost; };  // cost: bit0-7 preempt, 8-15 spurious

struct Slot { uint32_t clk; uint8_t tid, mask, write, used; };
struct Cell { uintptr_t addr; uint32_t epoch; uint8_t n; uint8_t freed; Slot s[6]; };

struct G {
  bool active = false;      // an execution is running
  bool failed = false;
  std::string key, msg;
  Thread t[MAXT];
  int nt = 0, cur = 0;
  void* main = nullptr; Eh main_eh;
  std::unordered_map<void*, Mutex> mutexes;
  std::vector<int> prefix; size_t pos = 0;
  std::vector<Point> points;
  uint64_t steps = 0;
  int max_steps = 20000;
  int ignore = 0;
  // memory
  uint32_t epoch = 1;
  int rt = 0;                 // depth inside the run-time: no tracking
  bool abandon = false;
  const sched::Config* cfg = nullptr;
  int used_pre = 0, used_sp = 0;
} g;

// --- tracked heap -----------------------------------------------------------
struct Block { size_t size; bool ignored; };
template <typename T> struct MA {
  typedef T value_type; MA() {} template <typename U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  template <typename U> bool operator==(const MA<U>&) const { return true; }
  template <typename U> bool operator!=(const MA<U>&) const { return false; }
};
typedef std::unordered_map<void*, Block, std::hash<void*>, std::equal_to<void*>, MA<std::pair<void* const, Block>>> LiveMap;
LiveMap& live() { static LiveMap* m = new (__libc_malloc(sizeof(LiveMap))) LiveMap(); return *m; }
typedef std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, MA<void*>> PV;
PV& quarantine() { static PV* v = new (__libc_malloc(sizeof(PV))) PV(); return *v; }

long open_files = 0;

const size_t TBL = 1 << 16;
Cell* table() { static Cell* t = (Cell*)__libc_calloc(TBL, sizeof(Cell)); return t; }

Cell* cell(uintptr_t a8, bool create) {
  Cell* t = table();
  size_t h = (a8 >> 3) * 0x9e3779b97f4a7c15ull >> 48;
  for (size_t i = 0; i < TBL; ++i) {
    Cell& c = t[(h + i) & (TBL - 1)];
    if (c.epoch != g.epoch) {
      if (!create) return nullptr;
      c.addr = a8; c.epoch = g.epoch; c.n = 0; c.freed = 0; return &c;
    }
    if (c.addr == a8) return &c;
  }
  return nullptr;
}

void fail(const std::string& k, const std::string& m) {
  if (g.failed) return;
  ++g.rt;
  g.failed = true; g.key = k; g.msg = m;
  --g.rt;
}

bool on_stack(uintptr_t a) {
  for (int i = 0; i < g.nt; ++i) {
    uintptr_t s = (uintptr_t)g.t[i].stack;
    if (a >= s && a < s + STACK) return true;
  }
  return false;
}

void access8(uintptr_t a8, uint8_t mask, bool write) {
  Cell* c = cell(a8, true);
  if (!c) return;
  int me = g.cur; Thread& T = g.t[me];
  if (c->freed & mask) { fail("use-after-free", vp::fmt("thread %d %s freed memory", me, write ? "writes" : "reads")); return; }
  int same = -1;
  for (int i = 0; i < c->n; ++i) {
    Slot& s = c->s[i];
    if (s.tid == me) { if (s.write == write && (s.mask & ~mask) == 0) same = i; continue; }
    if (!(s.mask & mask)) continue;
    if (!write && !s.write) continue;
    if (s.clk > T.vc[s.tid]) {
      fail("data-race", vp::fmt("thread %d %s and thread %d %s the same memory without synchronisation", me,
                                write ? "writes" : "reads", s.tid, s.write ? "wrote" : "read"));
      return;
    }
  }
  if (same >= 0) { c->s[same].clk = T.vc[me]; c->s[same].mask = mask; return; }
  Slot n; n.clk = T.vc[me]; n.tid = me; n.mask = mask; n.write = write; n.used = 1;
  if (c->n < 6) c->s[c->n++] = n;
  else { memmove(&c->s[0], &c->s[1], 5 * sizeof(Slot)); c->s[5] = n; }
}

inline void access(const void* p, size_t n, bool write) {
  if (!g.active || g.rt || g.failed) return;
  uintptr_t a = (uintptr_t)p;
  if (on_stack(a)) return;
  ++g.rt;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t a8 = a & ~7ull; size_t off = a - a8, len = std::min<size_t>(8 - off, e - a);
    access8(a8, (uint8_t)(((1u << len) - 1) << off), write);
    a += len;
  }
  --g.rt;
}

void mark_freed(void* p, size_t n) {
  uintptr_t a = (uintptr_t)p, e = a + n;
  // freeing is a write to the whole block
  while (a < e && !g.failed) {
    uintptr_t a8 = a & ~7ull; size_t off = a - a8, len = std::min<size_t>(8 - off, e - a);
    uint8_t m = (uint8_t)(((1u << len) - 1) << off);
    Cell* c = cell(a8, false);
    if (c && c->n) access8(a8, m, true);
    if (e - (uintptr_t)p <= 4096) { c = cell(a8, true); if (c) c->freed |= m; }
    a += len;
  }
}

void* talloc(size_t n) {
  void* p = __libc_malloc(n ? n : 1);
  if (!p) abort();
  if (g.active && !g.rt) { ++g.rt; live()[p] = Block{n, g.ignore > 0}; --g.rt; }
  return p;
}
void tfree(void* p) {
  if (!p) return;
  if (g.active && !g.rt) {
    ++g.rt;
    auto it = live().find(p);
    if (it == live().end()) {
      if (quarantine().count(p)) { fail("double-free", vp::fmt("thread %d frees a block twice", g.cur)); --g.rt; return; }
      --g.rt; __libc_free(p); return;  // allocated before the execution
    }
    size_t n = it->second.size;
    live().erase(it);
    mark_freed(p, n);
    quarantine().insert(p);
    --g.rt;
    return;
  }
  if (g.active) live().erase(p);
  __libc_free(p);
}

// --- scheduling -------------------------------------------------------------
void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

Mutex& mutex(void* m) { ++g.rt; Mutex& x = g.mutexes[m]; --g.rt; return x; }

bool enabled(int i) {
  Thread& T = g.t[i];
  switch (T.pend) {
    case P_RUN: return true;
    case P_LOCK: return mutex(T.obj).owner < 0;
    case P_JOIN: return g.t[T.join].pend == P_DONE;
    default: return false;
  }
}

// Called on the scheduler's behalf by the running thread (or at start/end):
// choose who runs next. Returns -1 if nobody can run.
int choose() {
  int alt[4 * MAXT], cost[4 * MAXT]; int na = 0;  // alt: tid, or 100+tid = spurious wakeup
  ++g.rt;
  bool cur_en = g.cur >= 0 && enabled(g.cur);
  if (cur_en) { alt[na] = g.cur; cost[na++] = 0; }
  for (int i = 0; i < g.nt; ++i) {
    if (i == g.cur || !enabled(i)) continue;
    alt[na] = i; cost[na++] = cur_en ? 1 : 0;
  }
  if (!na) {
    // yielding / timed waiters run only when nobody else can
    for (int i = 0; i < g.nt; ++i)
      if (g.t[i].pend == P_YIELD || (g.t[i].pend == P_TIMED && mutex(g.t[i].mtx).owner < 0)) { alt[na] = i; cost[na++] = 0; }
  }
  // spurious wakeups of threads waiting on a condition
  if (g.used_sp < g.cfg->spurious)
    for (int i = 0; i < g.nt; ++i)
      if (g.t[i].pend == P_COND && na) { alt[na] = 100 + i; cost[na++] = 256; }
  if (!na) { --g.rt; return -1; }
  int c = 0;
  if (na > 1 && g.pos < g.prefix.size()) {
    c = g.prefix[g.pos];
    if (c >= na) { fprintf(stderr, "VP: schedule diverged while replaying a prefix\n"); abort(); }
  }
  if (na > 1) {
    ++g.pos;
    g.points.push_back(Point{c, na, std::vector<int>(cost, cost + na)});
  } else c = 0;
  int a = alt[c];
  g.used_pre += cost[c] & 255; g.used_sp += cost[c] >> 8;
  --g.rt;
  if (a >= 100) {  // spurious wakeup: waiter now competes for the mutex
    Thread& W = g.t[a - 100];
    W.pend = P_LOCK; W.obj = W.mtx;
    return choose();
  }
  return a;
}

void jump(void** save, Eh* save_eh, void* load, Eh* load_eh) {
  Eh* e = (Eh*)__cxxabiv1::__cxa_get_globals();
  *save_eh = *e; *e = *load_eh;
  vp_switch(save, load);
}
void swap_to_main() { Thread& T = g.t[g.cur]; jump(&T.sp, &T.eh, g.main, &g.main_eh); }
void swap_threads(int a, int b) { jump(&g.t[a].sp, &g.t[a].eh, g.t[b].sp, &g.t[b].eh); }

// the running thread gives up control with its pend set
void reschedule() {
  if (g.abandon) return;
  ++g.steps;
  if (g.steps > (uint64_t)g.max_steps) { fail("livelock", "the execution does not end within the step bound"); }
  if (g.failed) { swap_to_main(); return; }
  int me = g.cur;
  int n = choose();
  if (n < 0) { swap_to_main(); return; }
  if (n == me) return;
  g.cur = n;
  swap_threads(me, n);
}

void tick(int i) { ++g.t[i].vc[i]; }

void resumed() {  // after being chosen, finish the pending operation
  Thread& T = g.t[g.cur];
  if (T.pend == P_LOCK) {
    Mutex& m = mutex(T.obj);
    m.owner = g.cur; vc_join(T.vc, m.vc); ++T.holds;
  } else if (T.pend == P_JOIN) {
    vc_join(T.vc, g.t[T.join].vc);
  }
  T.pend = P_RUN;
}

void entry(int id) {
  // started by the scheduler
  Thread& T = g.t[id];
  try {
    if (T.fn) T.fn(T.arg); else T.body();
  } catch (std::exception& e) {
    fail("exception", std::string("uncaught exception in a thread: ") + e.what());
  } catch (...) {
    fail("exception", "uncaught exception in a thread");
  }
  T.pend = P_DONE; tick(id);
  ++g.steps;
  if (g.failed) swap_to_main();
  g.cur = id;
  int n = choose();
  if (n < 0) swap_to_main();
  g.cur = n;
  swap_threads(id, n);
  abort();
}
void entry_tramp() { entry(g.cur); }

int new_thread(void* (*fn)(void*), void* arg, const std::function<void()>& body) {
  if (g.nt >= MAXT) { fail("threads", "too many threads"); return -1; }
  ++g.rt;
  int id = g.nt++;
  Thread& T = g.t[id];
  if (!T.stack) T.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  T.pend = P_RUN; T.obj = T.mtx = nullptr; T.join = -1; T.fn = fn; T.arg = arg; T.body = body; T.detached = T.joined = false; T.holds = 0; T.timed_out = false;
  memset(T.vc, 0, sizeof T.vc);
  if (g.cur >= 0 && id != 0) vc_join(T.vc, g.t[g.cur].vc);
  T.vc[id] = 1;
  void** sp = (void**)(T.stack + STACK - 64);
  *--sp = nullptr;                 // return address of the entry: never used
  *--sp = (void*)entry_tramp;
  for (int k = 0; k < 6; ++k) *--sp = nullptr;
  T.sp = sp; T.eh.caught = nullptr; T.eh.uncaught = 0;
  --g.rt;
  return id;
}

void do_lock(void* m) {
  Thread& T = g.t[g.cur];
  if (mutex(m).owner == g.cur) { fail("relock", "a thread locks a mutex it already holds"); swap_to_main(); return; }
  T.pend = P_LOCK; T.obj = m;
  reschedule();
  if (!g.abandon) resumed();
}
void do_unlock(void* m) {
  Mutex& M = mutex(m);
  Thread& T = g.t[g.cur];
  if (M.owner != g.cur) { fail("bad-unlock", "a thread unlocks a mutex it does not hold"); swap_to_main(); return; }
  vc_join(M.vc, T.vc); tick(g.cur);
  M.owner = -1; --T.holds;
}
int do_wait(void* c, void* m, bool timed) {
  Thread& T = g.t[g.cur];
  Mutex& M = mutex(m);
  if (M.owner != g.cur) { fail("bad-wait", "a thread waits on a condition without holding the mutex"); swap_to_main(); return 0; }
  vc_join(M.vc, T.vc); tick(g.cur); M.owner = -1; --T.holds;
  T.pend = timed ? P_TIMED : P_COND; T.obj = c; T.mtx = m; T.timed_out = false;
  reschedule();
  if (g.abandon) return 0;
  bool to = T.pend == P_TIMED;
  if (to) { T.pend = P_LOCK; T.obj = m; }
  resumed();
  return to ? ETIMEDOUT : 0;
}
void do_signal(void* c, bool all) {
  Thread& T = g.t[g.cur];
  if (T.holds == 0) { T.pend = P_RUN; reschedule(); if (g.abandon) return; }
  int w[MAXT], nw = 0;
  ++g.rt;
  for (int i = 0; i < g.nt; ++i) if ((g.t[i].pend == P_COND || g.t[i].pend == P_TIMED) && g.t[i].obj == c) w[nw++] = i;
  if (nw) {
    if (all) { for (int q = 0; q < nw; ++q) { int i = w[q]; g.t[i].pend = P_LOCK; g.t[i].obj = g.t[i].mtx; } }
    else {
      int k = 0;
      if (nw > 1) {
        if (g.pos < g.prefix.size()) k = g.prefix[g.pos];
        if (k >= nw) { fprintf(stderr, "VP: schedule diverged while replaying a prefix\n"); abort(); }
        ++g.pos; g.points.push_back(Point{k, nw, std::vector<int>(nw, 0)});
      }
      g.t[w[k]].pend = P_LOCK; g.t[w[k]].obj = g.t[w[k]].mtx;
    }
  }
  --g.rt;
}
inline bool in() { return g.active && !g.rt; }
}  // namespace

// ---------------------------------------------------------------------------
namespace sched {

uint64_t clock() { return g.steps; }
int self() { return g.cur; }
Quiet::Quiet() { ++g.rt; }
Quiet::~Quiet() { --g.rt; }
void ignore_begin() { ++g.ignore; }
void ignore_end() { --g.ignore; }
void violation(const std::string& k, const std::string& m) { fail(k, m); if (g.active) swap_to_main(); }
bool blocked_now(int tid) { return g.t[tid].pend != P_DONE; }
int spawn(const std::function<void()>& fn) { int id = new_thread(nullptr, nullptr, fn); tick(g.cur); return id; }
void join(int tid) { Thread& T = g.t[g.cur]; T.pend = P_JOIN; T.join = tid; reschedule(); resumed(); }
void yield_point() { if (in()) { g.t[g.cur].pend = P_RUN; reschedule(); } }

Result explore(const Config& cfg0, const std::function<void()>& body, const std::function<std::string()>& after,
               const std::function<bool()>& stuck) {
  Result R; Config cfg = cfg0;
  if (vp::late()) { if (cfg.preemptions > 1 || cfg.preemptions < 0) cfg.preemptions = 1; if (cfg.spurious > 1) cfg.spurious = 1; R.capped = true; }
  g.cfg = &cfg;
  std::vector<int> prefix;
  auto run = [&](const std::vector<int>& pre) {
    g.prefix = pre; g.pos = 0; g.points.clear(); g.steps = 0; g.max_steps = cfg.max_steps; g.failed = false; g.key.clear(); g.msg.clear();
    g.mutexes.clear(); g.nt = 0; g.cur = -1; g.ignore = 0; g.used_pre = g.used_sp = 0; open_files = 0;
    ++g.epoch;
    live().clear();
    g.rt = 0;
    new_thread(nullptr, nullptr, body);
    g.cur = 0;
    g.active = true;
    jump(&g.main, &g.main_eh, g.t[0].sp, &g.t[0].eh);
    g.active = false;
    bool alldone = true;
    for (int i = 0; i < g.nt; ++i) if (g.t[i].pend != P_DONE) alldone = false;
    if (!g.failed && !alldone) {
      if (stuck && stuck()) {}
      else {
        std::string s;
        for (int i = 0; i < g.nt; ++i) {
          static const char* nm[] = {"runnable", "waiting for a mutex", "waiting on a condition", "in a timed wait", "joining", "yielding", "done"};
          s += vp::fmt("thread %d %s; ", i, nm[g.t[i].pend]);
        }
        fail("deadlock", "no thread can run: " + s);
      }
    }
    if (!g.failed && alldone && cfg.leaks) {
      size_t n = 0, bytes = 0;
      for (auto& b : live()) if (!b.second.ignored) { ++n; bytes += b.second.size; }
      if (n) fail("leak", vp::fmt("%zu blocks (%zu bytes) never freed", n, bytes));
      for (int i = 1; i < g.nt; ++i) if (g.t[i].fn && !g.t[i].joined && !g.t[i].detached) fail("leak-thread", "a thread was never joined");
      if (open_files > 0) fail("leak-file", vp::fmt("%ld files left open", open_files));
    }
    if (!g.failed && alldone) { std::string e = after(); if (!e.empty()) { size_t p = e.find('|'); fail(p == std::string::npos ? "wrong" : e.substr(0, p), e); } }
    for (void* p : quarantine()) __libc_free(p);
    quarantine().clear();
    if (!alldone) { for (auto& b : live()) __libc_free(b.first); }  // abandoned threads: drop what they own
    for (int i = 0; i < g.nt; ++i) { g.t[i].body = nullptr; }
    live().clear();
  };
  bool first = true;
  for (;;) {
    run(prefix);
    if (first && g.failed && g.key == "leak") run(prefix);  // globals created on first use are not leaks
    first = false;
    ++R.schedules; R.steps += g.steps; if (g.points.size() > R.max_depth) R.max_depth = g.points.size();
    if ((R.schedules & 255) == 0) { vp::progress(); if (!g.failed && vp::over()) { R.capped = true; return R; } }
    if (g.failed) {
      // replay the same schedule: it has to fail in the same way
      std::vector<int> ch; for (auto& p : g.points) ch.push_back(p.chosen);
      std::string k = g.key, m = g.msg;
      run(ch);
      if (g.failed && g.key == k) { R.failed = true; R.key = k; R.msg = m; R.choices = ch; }
      else { R.failed = true; R.key = "nondeterminism"; R.msg = "schedule failed with " + k + " (" + m + ") but its replay gave " + (g.failed ? g.key : std::string("success")); R.choices = ch; }
      return R;
    }
    if (cfg.max_schedules > 0 && (long)R.schedules >= cfg.max_schedules) { R.capped = true; return R; }
    // next schedule: deepest point with an alternative within the bounds
    std::vector<Point>& P = g.points;
    int i = (int)P.size() - 1;
    // accumulated cost before each point
    std::vector<int> pre(P.size() + 1, 0), sp(P.size() + 1, 0);
    for (size_t j = 0; j < P.size(); ++j) { pre[j + 1] = pre[j] + (P[j].cost[P[j].chosen] & 255); sp[j + 1] = sp[j] + (P[j].cost[P[j].chosen] >> 8); }
    bool found = false;
    for (; i >= 0 && !found; --i) {
      for (int c = P[i].chosen + 1; c < P[i].n; ++c) {
        int np = pre[i] + (P[i].cost[c] & 255), ns = sp[i] + (P[i].cost[c] >> 8);
        if (cfg.preemptions >= 0 && np > cfg.preemptions) continue;
        if (ns > cfg.spurious) continue;
        prefix.clear(); for (int j = 0; j < i; ++j) prefix.push_back(P[j].chosen); prefix.push_back(c);
        found = true; break;
      }
    }
    if (!found) return R;
  }
}
}  // namespace sched

// ---------------------------------------------------------------------------
// interposed allocation
extern "C" {
void* malloc(size_t n) { return talloc(n); }
void free(void* p) { tfree(p); }
void* calloc(size_t a, size_t b) { void* p = talloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (!g.active || g.rt) return __libc_realloc(p, n);
  void* q = talloc(n);
  if (p) { size_t o = malloc_usable_size(p); auto it = live().find(p); if (it != live().end()) o = it->second.size; memcpy(q, p, o < n ? o : n); tfree(p); }
  return q;
}
FILE* fopen(const char* p, const char* m) {
  ++g.rt; static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); --g.rt;
  ++g.rt; FILE* f = real(p, m); --g.rt; if (f && g.active) ++open_files; return f;
}
int fclose(FILE* f) {
  ++g.rt; static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose"); --g.rt;
  if (g.active) --open_files;
  ++g.rt; int r = real(f); --g.rt;
  return r;
}

// --- pthread ---------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { if (g.active) { ++g.rt; g.mutexes.erase(m); --g.rt; } memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (in()) do_lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (in()) do_unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in()) return 0;
  g.t[g.cur].pend = P_RUN; reschedule();
  Mutex& M = mutex(m);
  if (M.owner >= 0) return EBUSY;
  M.owner = g.cur; vc_join(g.t[g.cur].vc, M.vc); ++g.t[g.cur].holds; return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (in()) do_wait(c, m, false); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return in() ? do_wait(c, m, true) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return in() ? do_wait(c, m, true) : 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (in()) do_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (in()) do_signal(c, true); return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!in()) abort();
  int id = new_thread(fn, arg, nullptr);
  if (id < 0) { swap_to_main(); return EAGAIN; }
  *t = (pthread_t)(id + 1);
  tick(g.cur);
  g.t[g.cur].pend = P_RUN; reschedule();
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!in()) return 0;
  int id = (int)t - 1;
  if (id < 0 || id >= g.nt) { fail("bad-join", "join of something that is not a thread"); swap_to_main(); return ESRCH; }
  if (r) *r = nullptr;
  g.t[g.cur].pend = P_JOIN; g.t[g.cur].join = id; reschedule(); resumed();
  g.t[id].joined = true;
  return 0;
}
int pthread_detach(pthread_t t) { int id = (int)t - 1; if (in() && id >= 0 && id < g.nt) g.t[id].detached = true; return 0; }
int sched_yield() { if (in()) { g.t[g.cur].pend = P_YIELD; reschedule(); g.t[g.cur].pend = P_RUN; } return 0; }
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }

// --- run-time of -fsanitize=thread instrumentation --------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { access(p, n, false); }                        \
  void __tsan_write##n(void* p) { access(p, n, true); }                        \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); }              \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); }              \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }               \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
// atomics: sequentially consistent steps that synchronise through the address
static void at(void* p) {
  if (!in()) return;
  g.t[g.cur].pend = P_RUN; reschedule();
  Mutex& M = mutex((char*)p + 1);  // clock of the atomic object
  vc_join(g.t[g.cur].vc, M.vc); vc_join(M.vc, g.t[g.cur].vc); tick(g.cur);
}
#define AT(bits, T)                                                                                         \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { at((void*)a); return *a; }                        \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { at((void*)a); *a = v; }                        \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = v; return o; }    \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = o | v; return o; }  \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { at((void*)a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                     \
    at((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                                   \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {                   \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
