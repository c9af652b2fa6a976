// C07: the data tools preserve and describe the data exactly.
#include "datafile.h"
#include <sol/tools.h>
#include <sol/c_api.h>
#include <random>
#include <sys/wait.h>
typedef std::string S;

// the seed of the tools' shuffling is enumerated instead of drawn
static unsigned g_seed = 0; static long g_seed_used = 0;
unsigned int std::random_device::_M_getval() { ++g_seed_used; return g_seed; }

static std::vector<Rec> alphabet() {
  std::vector<Rec> a(6);
  a[0].label = 1; a[0].f = {{1, 1.f}, {3, -2.5f}};
  a[1].label = -1; a[1].f = {{2, 0.333333343f}};
  a[2].label = 0;
  a[3].label = 7; a[3].f = {{1, 1e-7f}, {2, 123456.789f}, {5, 1e10f}};
  a[4].label = 2; a[4].f = {{4, 0.f}, {6, 0.75f}};
  a[5].label = 1; a[5].f = {{1, 1.f}, {2, 1.f}};
  return a;
}
static const char* F[3] = {"svm", "csv", "bin"};

static bool match(const std::vector<Rec>& got, const std::vector<Rec>& want, bool text) {
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < got.size(); ++i) if (!near_same(got[i], want[i], text ? 5.2e-6 : 0)) return false;
  return true;
}
static uint64_t hash_all(const std::vector<Rec>& v, uint64_t h) { for (auto& r : v) h = hash_rec(r, h); return h; }
static bool is_perm(std::vector<Rec> got, const std::vector<Rec>& want, bool text) {
  if (got.size() != want.size()) return false;
  for (auto& w : want) {
    size_t k = got.size();
    for (size_t i = 0; i < got.size(); ++i) if (near_same(got[i], w, text ? 5.2e-6 : 0)) { k = i; break; }
    if (k == got.size()) return false;
    got.erase(got.begin() + k);
  }
  return true;
}
static int tool(const S& cmd) { // one of the command-line tools
  int r = system((S(getenv("VP_BIN")) + "/" + cmd + " >/dev/null 2>&1").c_str());
  return WIFEXITED(r) ? WEXITSTATUS(r) : 1000 + r;
}

struct Case {
  std::vector<Rec> data; S name;
  std::vector<Rec> seen(const S& src, const S& dst) const { return src == "csv" || dst == "csv" ? no_zeros(data) : data; }
};

static void do_convert(const Case& c, const S& s, const S& d, int how) {
  S in = vp::tmp("in." + s), out = vp::tmp("out." + d);
  put_data(in, s, c.data);
  if (d == "csv" && max_index(c.data) == 0) return;   // nothing to make a table of
  for (int b = 0; b < 4; ++b) {
    float th = b == 1 ? -3.f : b == 2 ? 0.f : 0.75f;
    std::vector<Rec> want = s == "csv" ? no_zeros(c.data) : c.data;
    if (b) for (auto& r : want) for (auto& f : r.f) f.second = f.second > th ? 1.f : -1.f;
    if (d == "csv") want = no_zeros(want);
    unlink(out.c_str());
    int ret = how == 0 ? (b ? sol::convert(in, s, out, d, true, th) : sol::convert(in, s, out, d))
            : how == 1 ? sol_convert_data(in.c_str(), s.c_str(), out.c_str(), d.c_str(), b != 0, th)
            : tool("converter -i " + in + " -s " + s + " -o " + out + " -d " + d + (b ? vp::fmt(" --binary_thresh=%g", th) : ""));
    std::vector<Rec> got; int st = 0; bool ok = get_data(out, d, got, &st);
    vp::step(); vp::trace(); vp::state(hash_all(got, vp::hash(d)));
    if (ret != 0 || !ok || !match(got, want, d != "bin"))
      vp::fail("C07:convert", vp::fmt("convert %s->%s binarize=%d/%g via %d returned %d, read status %d: ", s.c_str(), d.c_str(), b != 0, th, how, ret, st) + show(got) + " instead of " + show(want));
    if (how == 2 && b == 2) break;
  }
}
static void do_analyze(const Case& c, const S& s, int how) {
  S in = vp::tmp("in." + s), out = vp::tmp("out.txt"); put_data(in, s, c.data); unlink(out.c_str());
  int ret = how == 0 ? sol::analyze(in, s, out) : how == 1 ? sol_analyze_data(in.c_str(), s.c_str(), out.c_str()) : tool("analyze -i " + in + " -s " + s + " -o " + out);
  std::vector<Rec> d = s == "csv" ? no_zeros(c.data) : c.data;
  std::map<S, long> want; std::set<uint32_t> feats; std::map<int, long> cls; long fn = 0;
  for (auto& r : d) { fn += r.f.size(); for (auto& f : r.f) feats.insert(f.first); ++cls[r.label]; }
  want["data number"] = d.size(); want["feat number"] = fn; want["dimension"] = feats.empty() ? 0 : *feats.rbegin();
  want["nonzero feat"] = feats.size(); want["class num"] = cls.size();
  for (auto& p : cls) want[vp::fmt("data number of class %d", p.first)] = p.second;
  std::map<S, S> got; S t = vp::read_file(out); std::istringstream is(t); S l;
  while (getline(is, l)) { size_t p = l.find(':'); if (p == S::npos) continue; S k = l.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); S v = l.substr(p + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); got[k] = v; }
  vp::step(); vp::trace(); vp::state(vp::hash(t));
  S bad; if (ret != 0) bad = vp::fmt("returned %d ", ret);
  for (auto& w : want) if (got[w.first] != vp::fmt("%ld", w.second)) bad += w.first + "=" + got[w.first] + vp::fmt(" (true: %ld) ", w.second);
  for (auto& p : got) if (p.first.find("class ") != S::npos && !want.count(p.first)) bad += "extra " + p.first;
  if (!bad.empty()) vp::fail("C07:analyze", "analyze " + s + " " + show(d) + ": " + bad);
}
static void do_shuffle(const Case& c, const S& s, const S& d, unsigned seed, int how, std::vector<Rec>* order = nullptr) {
  S in = vp::tmp("in." + s), out = vp::tmp("out." + d); put_data(in, s, c.data); unlink(out.c_str());
  g_seed = seed;
  int ret = how == 0 ? sol::shuffle(in, s, out, d) : how == 1 ? sol_shuffle_data(in.c_str(), s.c_str(), out.c_str(), d == s ? nullptr : d.c_str())
          : tool("shuffle -i " + in + " -s " + s + " -o " + out + " -d " + d);
  std::vector<Rec> got; int st = 0; bool ok = get_data(out, d, got, &st);
  vp::step(); vp::trace(); vp::state(hash_all(got, vp::hash(d) + 1));
  std::vector<Rec> want = c.seen(s, d);
  if (ret != 0 || !ok || !is_perm(got, want, d != "bin"))
    vp::fail("C07:shuffle", vp::fmt("shuffle %s->%s seed %u via %d returned %d, read status %d: ", s.c_str(), d.c_str(), seed, how, ret, st) + show(got) + " is no permutation of " + show(want));
  if (order) *order = got;
}
static void do_split(const Case& c, const S& s, const S& d, int folds, bool shuf, unsigned seed, int how) {
  S in = vp::tmp("in." + s), pre = vp::tmp("fold"); put_data(in, s, c.data);
  for (int i = 0; i <= folds + 1; ++i) unlink((pre + vp::fmt("%d.", i) + d).c_str());
  g_seed = seed;
  int ret = how == 0 ? sol::split(in, s, folds, pre, d, shuf) : how == 1 ? sol_split_data(in.c_str(), s.c_str(), folds, pre.c_str(), d.c_str(), shuf)
          : tool("split -i " + in + " -s " + s + vp::fmt(" -n %d -o ", folds) + pre + " -d " + d + (shuf ? " -r" : ""));
  std::vector<Rec> all; bool ok = true; S why; size_t n = c.data.size(), lim = (n + folds - 1) / folds;
  for (int i = 0; i < folds; ++i) {
    std::vector<Rec> got; int st = 0;
    if (!get_data(pre + vp::fmt("%d.", i) + d, d, got, &st)) { ok = false; why += vp::fmt("fold %d has status %d; ", i, st); }
    if (got.size() > lim) { ok = false; why += vp::fmt("fold %d has %zu records; ", i, got.size()); }
    all.insert(all.end(), got.begin(), got.end());
  }
  vp::step(); vp::trace(); vp::state(hash_all(all, vp::hash(d) + folds));
  std::vector<Rec> want = c.seen(s, d);
  if (ret != 0 || !ok || !(shuf ? is_perm(all, want, d != "bin") : match(all, want, d != "bin")))
    vp::fail("C07:split", vp::fmt("split %s->%s folds=%d shuffle=%d seed %u via %d returned %d: ", s.c_str(), d.c_str(), folds, shuf, seed, how, ret) + why + show(all) + " from " + show(want));
}
static void do_concat(const std::vector<Case>& cs, const S& s, const S& d) {
  S list, out = vp::tmp("out." + d); std::vector<Rec> all;
  for (size_t i = 0; i < cs.size(); ++i) { S in = vp::tmp(vp::fmt("in%zu.", i) + s); put_data(in, s, cs[i].data); list += (i ? ";" : "") + in; all.insert(all.end(), cs[i].data.begin(), cs[i].data.end()); }
  if (d == "csv" && max_index(all) == 0) return;
  unlink(out.c_str());
  int ret = tool("concat -i '" + list + "' -s " + s + " -o " + out + " -d " + d);
  std::vector<Rec> want = s == "csv" || d == "csv" ? no_zeros(all) : all, got; int st = 0; bool ok = get_data(out, d, got, &st);
  vp::step(); vp::trace(); vp::state(hash_all(got, vp::hash(d) + 77));
  if (ret != 0 || !ok || !match(got, want, d != "bin")) vp::fail("C07:concat", vp::fmt("concat %s->%s returned %d, read status %d: ", s.c_str(), d.c_str(), ret, st) + show(got) + " instead of " + show(want));
}

static void all_tools(const Case& c, int how, bool deep) {
  vp::describe(c.name); vp::sample(c.name);
  for (auto s : F) {
    do_analyze(c, s, how);
    for (auto d : F) {
      do_convert(c, s, d, how);
      for (unsigned seed = 0; seed < (deep ? 4u : 1u); ++seed) do_shuffle(c, s, d, seed, how);
      if (c.data.empty()) continue;
      for (int folds = 1; folds <= (deep ? 5 : 3); ++folds) { do_split(c, s, d, folds, false, 0, how); if (deep || folds == 2) do_split(c, s, d, folds, true, folds, how); }
    }
  }
}

static void run() {
  bool T = vp::thorough();
  std::vector<Rec> al = alphabet();
  // every data set of up to 3 (4) records through every tool and format pair
  vp::sequences((int)al.size(), 0, T ? 4 : 3, [&](const std::vector<int>& q) {
    if (!vp::take()) return;
    Case c; for (int i : q) c.data.push_back(al[i]); c.name = "data " + show(c.data);
    all_tools(c, 0, q.size() >= 2);
  });
  // C interface and executables on a subset
  vp::sequences((int)al.size(), 1, 2, [&](const std::vector<int>& q) {
    if (q.size() == 2 && q[0] % 2 == q[1] % 2) return;
    if (!vp::take()) return;
    Case c; for (int i : q) c.data.push_back(al[i]); c.name = "C interface, data " + show(c.data);
    all_tools(c, 1, false);
  });
  for (int k = 0; k < (T ? 6 : 3); ++k) {
    if (!vp::take()) continue;
    Case c; c.data = {al[k], al[(k + 3) % 6], al[(k + 4) % 6]}; c.name = "executables, data " + show(c.data);
    all_tools(c, 2, false);
  }
  // concatenation of 1..3 files
  for (int k = 0; k < (T ? 64 : 27); ++k) for (int fs = 0; fs < 3; ++fs) {
    if (!vp::take()) continue;
    std::vector<Case> cs; int b = T ? 4 : 3, x = k;
    for (int i = 0; i < 3; ++i) { Case c; int n = x % b; x /= b; for (int j = 0; j < n; ++j) c.data.push_back(al[(i * 2 + j * 3) % 6]); cs.push_back(c); }
    vp::describe(vp::fmt("concat pattern %d", k));
    do_concat(cs, F[fs], F[k % 3]);
  }
  // sizes around the batch size, and many folds
  for (int n : {254, 255, 256, 257, 511, 512, 513, 700}) for (int si = 0; si < 3; ++si) for (int di = 0; di < 3; ++di) {
    if (!vp::take()) continue;
    Case c; for (int i = 0; i < n; ++i) { Rec r = al[(i * 5 + i / 7) % 6]; r.label = i; c.data.push_back(r); } c.name = vp::fmt("%d records", n);
    vp::describe(c.name);
    do_convert(c, F[si], F[di], 0); do_analyze(c, F[si], 0); do_shuffle(c, F[si], F[di], 3, 0);
    for (int folds : {2, 3, 7, 10, 64}) { do_split(c, F[si], F[di], folds, false, 0, 0); }
    do_split(c, F[si], F[di], 7, true, 5, 0);
  }
  for (int n = 1; n <= 40; ++n) { if (!vp::take()) continue;
    Case c; for (int i = 0; i < n; ++i) { Rec r = al[0]; r.label = i; c.data.push_back(r); }
    for (int folds = 1; folds <= 45; ++folds) do_split(c, "svm", "svm", folds, false, 0, 0); }
  // large indices (no table output)
  if (vp::take()) {
    Case c; Rec r; r.label = 3; r.f = {{1, 2.f}, {2147483647u, 3.f}, {2147483648u, 4.f}, {4294967294u, 5.f}}; c.data = {r, al[0]}; c.name = "large indices";
    vp::describe(c.name);
    for (auto s : {"svm", "bin"}) for (auto d : {"svm", "bin"}) { do_convert(c, s, d, 0); do_shuffle(c, s, d, 1, 0); do_split(c, s, d, 2, false, 0, 0); }
  }
  // shuffling really mixes: several orders appear over the seeds
  for (int si = 0; si < 3; ++si) { if (!vp::take()) continue;
    std::set<uint64_t> orders; Case c; for (int i = 0; i < 6; ++i) { Rec r = al[0]; r.label = i; c.data.push_back(r); }
    for (unsigned seed = 0; seed < 40; ++seed) { std::vector<Rec> o; do_shuffle(c, F[si], F[si], seed, 0, &o); orders.insert(hash_all(o, 1)); }
    vp::extra("shuffle_orders", orders.size());
    if (orders.size() < 2) vp::fail("C07:never-shuffles", "40 seeds all give the same order"); }
}
VP_MAIN(run)
