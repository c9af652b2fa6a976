// C03: the blocking queue is a bounded FIFO.  Every small program of two or
// three threads over the queue's operations is run under every interleaving
// (bounded preemptions and spurious wakeups); every history has to be
// explainable by a sequential bounded FIFO, and every final blocked state by
// operations that are really disabled.
#include "vp.h"
#include "vpsched.h"
#include <sol/util/block_queue.h>

typedef int* T;
enum Kind { E1, E2, E3, EN, EM, D1, D2, D3, F2, F3, NK };
static const char* KN[] = {"enq", "enq[2]", "enq[3]", "enq(end)", "enq[v,end]", "deq", "deq<=2", "deq<=3", "deq=2", "deq=3"};

struct Op {
  Kind k; int num;            // number of elements of list operations
  std::vector<long> in;       // enqueued values
  std::vector<long> out;      // removed values (complete operations)
  int inv = -1, res = -1;     // event times
  bool enq() const { return k <= EM; }
  bool force() const { return k == F2 || k == F3; }
};
static std::vector<std::vector<Op>> H;   // history per thread
static int g_time;
static int g_cap;

static std::string show() {
  std::string s = vp::fmt("capacity %d;", g_cap);
  for (size_t t = 0; t < H.size(); ++t) {
    s += vp::fmt(" T%zu:", t);
    for (auto& o : H[t]) {
      s += vp::fmt(" %s@%d-%d", KN[o.k], o.inv, o.res);
      if (o.enq()) { s += "("; for (long v : o.in) s += vp::fmt("%ld ", v); s += ")"; }
      else { s += "->["; for (long v : o.out) s += vp::fmt("%ld ", v); s += "]"; }
    }
  }
  return s;
}

// --- oracle: does a sequential bounded FIFO explain the history? ----------
struct Lin {
  size_t nt; std::vector<int> at, sub, lastnull;  // per thread: operation, sub-operations done
  std::vector<long> q;
  std::set<std::vector<long>> seen;
  // number of sub-operations of a complete operation
  static int subs(const Op& o) {
    if (o.enq()) return (int)o.in.size();
    bool shorter = o.k != D1 && (int)o.out.size() < o.num;
    return (int)o.out.size() + (shorter ? 1 : 0);   // last one observes "empty"
  }
  bool ready(size_t t) {  // real-time order: nothing that ended before this one began is still to do
    const Op& o = H[t][at[t]];
    for (size_t u = 0; u < nt; ++u) {
      if (u == t || at[u] >= (int)H[u].size()) continue;
      const Op& p = H[u][at[u]];
      if (p.inv < 0) continue;
      if (p.res >= 0 && p.res < o.inv) return false;
    }
    return true;
  }
  bool go() {
    std::vector<long> st; for (size_t i = 0; i < nt; ++i) { st.push_back(at[i]); st.push_back(sub[i] * 2 + lastnull[i]); }
    st.push_back(-7); st.insert(st.end(), q.begin(), q.end());
    if (!seen.insert(st).second) return false;
    vp::step();
    // done?
    bool done = true;
    for (size_t t = 0; t < nt; ++t) {
      if (at[t] >= (int)H[t].size()) continue;
      const Op& o = H[t][at[t]];
      if (o.inv < 0) continue;                   // never begun
      if (o.res >= 0) { done = false; break; }
      // pending: it must be disabled now
      if (o.enq()) { if ((int)q.size() < g_cap) done = false; }
      else if (!q.empty() || lastnull[t]) done = false;
    }
    if (done) return true;
    for (size_t t = 0; t < nt; ++t) {
      if (at[t] >= (int)H[t].size()) continue;
      const Op& o = H[t][at[t]];
      if (o.inv < 0 || !ready(t)) continue;
      int s = sub[t];
      std::vector<long> oq = q; int oa = at[t], ol = lastnull[t];
      bool ok = false;
      if (o.enq()) {
        if (s < (int)o.in.size() && (int)q.size() < g_cap) { q.push_back(o.in[s]); ok = true; }
      } else if (o.res >= 0) {
        if (s < (int)o.out.size()) { if (!q.empty() && q[0] == o.out[s]) { q.erase(q.begin()); ok = true; } }
        else ok = q.empty();                     // came back short
      } else {
        // a pending forced removal may already hold some elements
        if (o.force() && s < o.num - 1 && !q.empty()) { lastnull[t] = q[0] == 0; q.erase(q.begin()); ok = true; }
      }
      if (!ok) continue;
      ++sub[t];
      if (o.res >= 0 && sub[t] == subs(o)) { ++at[t]; sub[t] = 0; }
      if (go()) return true;
      q = oq; at[t] = oa; sub[t] = s; lastnull[t] = ol;
    }
    return false;
  }
  bool run() { nt = H.size(); at.assign(nt, 0); sub.assign(nt, 0); lastnull.assign(nt, 0); return go(); }
};

static std::string local_checks() {
  for (auto& t : H) for (auto& o : t) {
    if (o.res < 0) continue;
    if (!o.enq() && o.k != D1) {
      if ((int)o.out.size() > o.num) return "count|more elements removed than asked for";
      if (o.out.empty()) return "count|a list removal returned nothing";
      if (o.force() && (int)o.out.size() < o.num && o.out.back() != 0)
        return "force|a forced removal returned too few elements without an end marker";
    }
  }
  return "";
}

static void run_op(sol::BlockQueue<T>* q, Op* o) {
  { sched::Quiet z; o->inv = g_time++; }
  T buf[16]; for (int i = 0; i < 16; ++i) buf[i] = (T)-1;
  if (o->enq()) {
    if (o->in.size() == 1) { T v; { sched::Quiet z; v = (T)o->in[0]; } q->Enqueue(v); }
    else { int n; { sched::Quiet z; n = (int)o->in.size(); for (int i = 0; i < n; ++i) buf[i] = (T)o->in[i]; } q->Enqueue(buf, n); }
    sched::Quiet z; o->res = g_time++;
  } else if (o->k == D1) {
    T v = q->Dequeue();
    sched::Quiet z; o->out.push_back((long)v); o->res = g_time++;
  } else {
    int n = q->Dequeue(buf, o->num, o->force());
    sched::Quiet z; for (int i = 0; i < n && i < 16; ++i) o->out.push_back((long)buf[i]);
    o->res = g_time++;
  }
}

// operation codes from 16 on: code % 16 = a list operation, code / 16 = its number of elements
static std::string opname(int k) { return k < 16 ? KN[k] : vp::fmt("%s x%d", KN[k % 16], k / 16); }
static void program(int cap, const std::vector<std::vector<int>>& prog, int preempt = -1, int spurious = -1) {
  size_t nops = 0; for (auto& t : prog) nops += t.size();
  if (vp::shallow() && (cap > 2 || nops > 3) && preempt != 0) return;   // pass with the other threading layer
  if (!vp::take()) return;
  std::string name = vp::fmt("capacity %d", cap);
  for (auto& t : prog) { name += " |"; for (int k : t) name += " " + opname(k); }
  vp::describe(name); vp::sample(name);
  sched::Config cfg;
  cfg.preemptions = (vp::thorough() ? 3 : 2) - (prog.size() == 3 && nops > 3 ? 1 : 0); cfg.spurious = 1; cfg.max_steps = 2000;
  if (preempt >= 0) { cfg.preemptions = preempt; cfg.spurious = spurious; cfg.max_steps = 200000; }
  sol::BlockQueue<T>* q = nullptr;
  auto setup = [&]() {
    H.clear(); g_time = 0; g_cap = cap; long v = 1;
    for (auto& t : prog) {
      std::vector<Op> ops;
      for (int code : t) {
        int k = code % 16, big = code / 16;
        Op o; o.k = (Kind)k; o.num = 1;
        if (big) {
          o.num = big; if (o.enq()) { for (int i = 0; i < big; ++i) o.in.push_back(v++); if (k == EM) o.in.back() = 0; }
          o.out.reserve(16); ops.push_back(o); continue;
        }
        if (k == E1) o.in = {v++};
        if (k == E2) { o.in.push_back(v++); o.in.push_back(v++); }
        if (k == E3) { o.in.push_back(v++); o.in.push_back(v++); o.in.push_back(v++); }
        if (k == EN) o.in = {0};
        if (k == EM) { o.in.push_back(v++); o.in.push_back(0); }
        if (k == D2 || k == F2) o.num = 2;
        if (k == D3 || k == F3) o.num = 3;
        o.out.reserve(4);
        ops.push_back(o);
      }
      H.push_back(ops);
    }
    H.push_back({}); H.back().reserve(64);   // the main thread drains at the end
  };
  auto body = [&]() {
    { sched::Quiet z; setup(); }
    sol::BlockQueue<T>* lq = new sol::BlockQueue<T>(cap);
    { sched::Quiet z; q = lq; }
    std::vector<int> ids;
    size_t n = prog.size();
    for (size_t t = 0; t < n; ++t) {
      int id = sched::spawn([lq, t]() {
        size_t m; { sched::Quiet z; m = H[t].size(); }
        for (size_t i = 0; i < m; ++i) { Op* o; { sched::Quiet z; o = &H[t][i]; } run_op(lq, o); }
      });
      sched::Quiet z; ids.push_back(id);
    }
    for (size_t t = 0; t < n; ++t) { int id; { sched::Quiet z; id = ids[t]; } sched::join(id); }
    int left = lq->size();
    bool cap_ok = lq->capacity() == cap && (lq->empty() == (left == 0)) && left <= cap;
    if (!cap_ok) sched::violation("size", "size, capacity or emptiness is wrong at rest");
    for (int i = 0; i < left; ++i) {
      Op* o; { sched::Quiet z; Op d; d.k = D1; d.num = 1; H.back().push_back(d); o = &H.back().back(); }
      run_op(lq, o);
    }
    { // the queue has to be empty now: remember it as a removal that came back short
      sched::Quiet z; if (!lq->empty()) sched::violation("size", "not empty after removing as many elements as it held");
    }
    delete lq;
    { sched::Quiet z; std::vector<int>().swap(ids); }
  };
  std::unordered_set<uint64_t> good;          // histories of this program already explained
  auto judge = [&](bool end) -> std::string {
    uint64_t h = end;
    for (auto& t : H) for (auto& o : t) { h = vp::mix(h, o.inv * 1000 + o.res); for (long v : o.out) h = vp::mix(h, v); h = vp::mix(h, 77); }
    if (good.count(h)) return "";
    std::string e = local_checks();
    if (!e.empty()) return e + " :: " + show();
    Lin l;
    bool ok = l.run();
    if (ok && end) {
      // everything enqueued was removed: total counts
      size_t in = 0, out = 0; for (auto& t : H) for (auto& o : t) { in += o.in.size(); out += o.out.size(); }
      if (in != out) return "lost|" + show();
    }
    if (ok) good.insert(h);
    vp::state(vp::mix(h, vp::hash(name))); vp::trace();
    return ok ? "" : (end ? "not-fifo|no order of the operations explains the history: " : "blocked|the final blocked state cannot be explained: ") + show();
  };
  std::string why;
  sched::Result r = sched::explore(cfg, body, [&]() { return judge(true); },
                                   [&]() { why = judge(false); return why.empty(); });
  vp::step(r.steps); vp::extra("schedules", r.schedules);
  if (r.failed) {
    std::string ch; for (int c : r.choices) ch += vp::fmt("%d,", c);
    vp::fail("C03:" + r.key, name + " :: " + r.msg + " " + why + " [schedule " + ch + "]");
  }
}

static void run() {
  std::vector<int> al;
  for (int k = 0; k < NK; ++k) al.push_back(k);
  std::vector<std::vector<int>> one, upto2;
  for (int a : al) { one.push_back({a}); upto2.push_back({a}); }
  for (int a : al) for (int b : al) upto2.push_back({a, b});
  for (int cap = 1; cap <= 3; ++cap) {
    for (size_t i = 0; i < upto2.size(); ++i) for (size_t j = i; j < upto2.size(); ++j) program(cap, {upto2[i], upto2[j]});
    for (size_t i = 0; i < one.size(); ++i) for (size_t j = i; j < one.size(); ++j) for (size_t k = j; k < one.size(); ++k)
      program(cap, {one[i], one[j], one[k]});
    for (auto& p : upto2) { if (p.size() != 2) continue;
      // two-operation thread with two one-operation threads: at least one side on each end of the queue
      for (size_t i = 0; i < one.size(); ++i) for (size_t j = i; j < one.size(); ++j) {
        bool e = p[0] <= EM || p[1] <= EM || one[i][0] <= EM || one[j][0] <= EM, d = p[0] > EM || p[1] > EM || one[i][0] > EM || one[j][0] > EM;
        if (!e || !d) continue;
        if (!vp::thorough() && cap == 3) continue;
        program(cap, {p, one[i], one[j]});
      }
    }
  }
  // four threads of one operation
  std::vector<int> few = {E1, E2, EN, D1, D2, F2};
  for (int cap = 1; cap <= 2; ++cap) for (int a = 0; a < 6; ++a) for (int b = a; b < 6; ++b) for (int c = b; c < 6; ++c) for (int d = c; d < 6; ++d)
    program(cap, {{few[a]}, {few[b]}, {few[c]}, {few[d]}}, vp::thorough() ? 2 : 1, 0);
  // one thread, larger queues and lists, all sequences
  std::vector<int> big = {E1, E2 + 16 * 5, E2 + 16 * 12, EN, EM + 16 * 4, D1, D2 + 16 * 4, D2 + 16 * 12, F2 + 16 * 3, F2 + 16 * 9};
  for (int cap : {4, 5, 8, 16, 100}) vp::sequences((int)big.size(), 1, vp::thorough() ? 5 : 4, [&](const std::vector<int>& s) {
    if (big[s[0]] % 16 > EM) return;
    std::vector<int> p; for (int i : s) p.push_back(big[i]);
    program(cap, {p}, 0, 0);
  });
  // a producer and a consumer, long, the threads switch only where they must wait or once more
  std::vector<std::vector<int>> prod = {std::vector<int>(20, E1), std::vector<int>(7, E2), std::vector<int>(4, E2 + 16 * 7), {E1, E2 + 16 * 12, E1, E2 + 16 * 3, EN, E2 + 16 * 5}},
                                cons = {std::vector<int>(20, D1), std::vector<int>(12, D2), std::vector<int>(6, D2 + 16 * 5), std::vector<int>(3, F2 + 16 * 6), {D1, F2 + 16 * 10, D1, D2 + 16 * 12, F2, D1, D3}};
  for (int cap : {1, 2, 3, 4, 5, 7, 8, 16}) for (auto& p : prod) for (auto& c : cons) { program(cap, {p, c}, 0, 0); if (!vp::shallow()) program(cap, {p, c}, 1, 0); }
}
VP_MAIN(run)
