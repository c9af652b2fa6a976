// C14: the top-K heap always holds the K best values.
#include "rec.h"
#include <sol/util/heap.h>
using sol::index_t; using sol::real_t;

static const float VAL[] = {0.f, 1.f, 2.f, 3.f};

struct Op { int kind; int a, b; int val, val2; };   // kind, element(s), value
template <class H> struct Sys {
  bool min_heap;            // keeps the largest values
  H h; std::vector<real_t> v; index_t K;
  const std::vector<int>* init; const std::vector<Op>* ops; size_t at = 0;
  uint32_t members() { uint32_t m = 0; for (index_t i = 0; i < v.size(); ++i) if (h.isTopK(i)) m |= 1u << i; return m; }
  void bad(const std::string& key, const std::string& msg) {
    std::string log = vp::fmt("%s, K=%u values", min_heap ? "largest" : "smallest", K); for (int i : *init) log += vp::fmt(" %g", VAL[i]);
    for (size_t k = 0; k <= at && k < ops->size(); ++k) { const Op& o = (*ops)[k];
      log += o.kind == 0 ? vp::fmt("; v[%d]=%g rebuild", o.a, VAL[o.val]) : o.kind == 1 ? vp::fmt("; grow by %g", VAL[o.val]) : o.kind == 2 ? vp::fmt("; improve %d,%d", o.a, o.b) : vp::fmt("; Init with members from %d", o.a); }
    vp::fail("C14:" + key, log + " :: " + msg);
  }
  bool better(float a, float b) const { return min_heap ? a > b : a < b; }
  std::string list(uint32_t m) { std::string t; for (index_t i = 0; i < v.size(); ++i) if (m >> i & 1) t += vp::fmt("%u(%g) ", i, v[i]); return t; }
  void consistent() {       // membership and positions agree
    uint32_t m = members(), pos = 0; index_t cnt = 0;
    for (index_t i = 0; i < v.size(); ++i) if (m >> i & 1) {
      ++cnt; index_t p = h.get_pos(i);
      if (p >= K || (pos >> p & 1)) bad("positions", vp::fmt("element %u at position %u", i, p));
      else if (h.value_by_pos(p) != v[i]) bad("positions", vp::fmt("position %u holds another element than %u", p, i));
      pos |= 1u << p;
    }
    if (cnt != K) bad("size", vp::fmt("%u members: ", cnt) + list(m));
  }
  void topk(const char* when) {
    consistent();
    uint32_t m = members();
    for (index_t i = 0; i < v.size(); ++i) if (m >> i & 1) for (index_t j = 0; j < v.size(); ++j) if (!(m >> j & 1) && better(v[j], v[i])) { bad("not-best", std::string(when) + ": members " + list(m) + vp::fmt("although element %u has %g", j, v[j])); return; }
    vp::step(); uint64_t s = vp::hash_bytes(v.data(), v.size() * 4, K * 2 + min_heap); for (index_t i = 0; i < v.size(); ++i) s = vp::mix(s, h.isTopK(i) ? h.get_pos(i) : 99); vp::state(s);
  }
  void update(index_t i) {
    uint32_t was = members(); index_t r = h.UpdateHeap(i); uint32_t now = members();
    consistent();
    if (was >> i & 1) { if (r != sol::invalid_index || now != was) bad("displaced", vp::fmt("updating member %u reports %u", i, r)); return; }
    uint32_t want = was | 1u << i;
    if (r == sol::invalid_index || r >= v.size() || !(want >> r & 1)) { bad("displaced", vp::fmt("updating %u reports %u", i, r)); return; }
    want &= ~(1u << r);
    if (now != want) bad("displaced", vp::fmt("updating %u reports %u as displaced but members went from ", i, r) + list(was) + "to " + list(now));
  }
  void rebuild() { h.BuildHeap(); consistent(); for (index_t i = 0; i < v.size(); ++i) update(i); topk("after rebuilding"); }
};
template <class H> static void play(bool min_heap, const std::vector<int>& init, index_t K, const std::vector<Op>& ops) {
  Sys<H> s; s.min_heap = min_heap; s.K = K; s.init = &init; s.ops = &ops;
  s.v.reserve(40);
  for (int i : init) s.v.push_back(VAL[i]);
  s.at = 0; std::vector<Op> none; s.ops = &none;
  s.h.Init((index_t)s.v.size(), K, s.v.data()); s.topk("after Init");
  s.ops = &ops;
  for (s.at = 0; s.at < ops.size(); ++s.at) {
    const Op& o = ops[s.at];
    index_t n = (index_t)s.v.size();
    if (o.kind == 0) { if ((index_t)o.a >= n) return; s.v[o.a] = VAL[o.val]; s.rebuild(); }
    else if (o.kind == 1) {   // grow; the array moves
      std::vector<real_t> nv; nv.reserve(n + 1); nv = s.v; nv.push_back(VAL[o.val]); s.v.swap(nv); for (auto& x : nv) x = -99.f;
      s.h.set_N((index_t)s.v.size(), s.v.data()); s.consistent(); s.update((index_t)s.v.size() - 1); s.topk("after growing");
    } else if (o.kind == 2) { // improve one or two elements in place, as the learners do
      index_t ids[2]; int k = 0;
      for (int e : {o.a, o.b}) { if (e < 0) continue; if ((index_t)e >= n) return; s.v[e] += min_heap ? 1.5f : -1.5f; index_t p = s.h.get_pos(e); if (p < K) s.h.AdjustHeap(p, K - 1); ids[k++] = e; }
      for (int i = 0; i < k; ++i) s.update(ids[i]);
      s.topk("after improving");
    } else if (o.kind == 3) { // chosen members, then rebuilt
      std::vector<index_t> idx; uint32_t want = 0; for (index_t i = 0; i < K; ++i) { idx.push_back((i + o.a) % n); want |= 1u << idx.back(); }
      s.h.Init(n, K, idx.data(), s.v.data()); s.consistent();
      if (s.members() != want) s.bad("init-members", "other members than given");
      s.rebuild();
    }
  }
  vp::trace();
}
// large heaps: exact membership after every step of a fixed history
template <class H> static void large(bool min_heap, int n, index_t K, int pat) {
  std::vector<real_t> v; v.reserve(2 * n + 8);
  auto val = [&](int i) -> real_t { return pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 7919) % 1009 : pat == 3 ? 1.f : pat == 4 ? (i % 2 ? i : -i) : (i * 31) % 17; };
  for (int i = 0; i < n; ++i) v.push_back(val(i));
  H h; std::string who = vp::fmt("%s %u of %d values, pattern %d", min_heap ? "largest" : "smallest", K, n, pat); vp::describe(who); bool ok = true;
  auto verify = [&](const std::string& when) {
    if (!ok) return; vp::step(); index_t cnt = 0; std::vector<char> used(K, 0); real_t worst = 0, best = 0; bool hw = false, hb = false;
    for (index_t i = 0; i < v.size(); ++i) {
      if (h.isTopK(i)) { ++cnt; index_t p = h.get_pos(i); if (p >= K || used[p] || h.value_by_pos(p) != v[i]) { ok = false; vp::fail("C14:positions", who + " " + when + vp::fmt(": element %u at position %u", i, p)); return; } used[p] = 1; if (!hw || (min_heap ? v[i] < worst : v[i] > worst)) worst = v[i], hw = true; }
      else if (!hb || (min_heap ? v[i] > best : v[i] < best)) best = v[i], hb = true;
    }
    if (cnt != K) { ok = false; vp::fail("C14:size", who + " " + when + vp::fmt(": %u members", cnt)); return; }
    if (hw && hb && (min_heap ? best > worst : best < worst)) { ok = false; vp::fail("C14:not-best", who + " " + when + vp::fmt(": a value of %g is left out although %g is a member", best, worst)); }
  };
  auto rebuild = [&](const std::string& when) { h.BuildHeap(); for (index_t i = 0; i < v.size(); ++i) h.UpdateHeap(i); verify(when); };
  h.Init((index_t)v.size(), K, v.data()); verify("after Init");
  for (int at : {0, 1, n / 3, n / 2, n - 2, n - 1}) for (real_t x : {1e6f, -1e6f, 5.5f}) { if (at < 0 || at >= n) continue; v[at] = x; rebuild(vp::fmt("after setting %d to %g", at, x)); }
  for (int e = 0; e < n; e += std::max(1, n / 9)) {  // improved in place
    v[e] += min_heap ? 700.5f : -700.5f; index_t p = h.get_pos(e); if (p < K) h.AdjustHeap(p, K - 1); h.UpdateHeap(e); verify(vp::fmt("after improving %d", e));
  }
  for (int k = 0; k < 8; ++k) { index_t o = (index_t)v.size(); int m = k < 4 ? 1 : n / 7 + 1; for (int j = 0; j < m && v.size() < v.capacity(); ++j) v.push_back(val((k * 13 + j * 5) % n) + (min_heap ? 3 : -3)); h.set_N((index_t)v.size(), v.data()); for (; o < v.size(); ++o) h.UpdateHeap(o); verify("after growing"); }
  vp::state(vp::hash_bytes(v.data(), v.size() * 4, K)); vp::trace();
}
static void run() {
  bool T = vp::thorough();
  int depth = T ? 4 : 3;
  for (int n = 1; n <= (T ? 6 : 5); ++n) for (int K = 1; K <= n; ++K) {
    std::vector<Op> ops;
    for (int i = 0; i < n + 1; ++i) { for (int v = 0; v < 4; ++v) ops.push_back({0, i, -1, v, 0}); }
    for (int v = 0; v < 4; ++v) ops.push_back({1, 0, 0, v, 0});
    for (int i = 0; i < n; ++i) { ops.push_back({2, i, -1, 0, 0}); for (int j = i + 1; j < n; ++j) ops.push_back({2, i, j, 0, 0}); }
    ops.push_back({3, 0, 0, 0, 0}); ops.push_back({3, n - 1, 0, 0, 0});
    int d = n <= 2 ? depth + 1 : n == 3 ? depth : n == 4 ? depth - 1 : depth - 2;
    if (d < 1) d = 1;
    vp::sequences(n <= 3 ? 4 : 3, n, n, [&](const std::vector<int>& init) {
      if (!vp::take()) return;
      vp::describe(vp::fmt("N=%d K=%d", n, K)); vp::sample(vp::fmt("%d values starting %g, K=%d, all operation sequences up to length %d", n, VAL[init[0]], K, d));
      vp::sequences((int)ops.size(), d, d, [&](const std::vector<int>& q) {
        std::vector<Op> o; for (int i : q) o.push_back(ops[i]);
        play<sol::MinHeap>(true, init, K, o); play<sol::MaxHeap>(false, init, K, o);
      });
    });
  }
  for (int n : {24, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025}) {
    if (!vp::take()) continue;
    vp::sample(vp::fmt("%d values in 6 patterns, 20 numbers of members, 18 changes, improvements and growth", n));
    for (int K : {1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 256, 500, 1000}) if (K <= n) for (int pat = 0; pat < 6; ++pat) { large<sol::MinHeap>(true, n, K, pat); large<sol::MaxHeap>(false, n, K, pat); }
  }
  // larger heaps: every single change, every pattern of initial order
  for (int n : {7, 8, 12, 15, 16, 17, 31}) for (int K : {1, 2, 3, 5, 7, 8, 15, 16}) if (K <= n) for (int pat = 0; pat < 12; ++pat) {
    if (!vp::take()) continue;
    std::vector<int> init; for (int i = 0; i < n; ++i) init.push_back(pat == 0 ? i * 3 / n : pat == 1 ? (n - 1 - i) * 3 / n : (i * (pat * 2 + 1) + pat) % 7 % 4);
    for (int i = 0; i < n; ++i) for (int v = 0; v < 4; ++v) for (int j = 0; j < n; ++j) {
      play<sol::MinHeap>(true, init, K, {{0, i, -1, v, 0}, {2, j, -1, 0, 0}}); play<sol::MaxHeap>(false, init, K, {{2, i, j == i ? -1 : j, 0, 0}, {0, j, -1, v, 0}});
    }
  }
}
VP_MAIN(run)
