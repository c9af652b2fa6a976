// C20: labels, selection and normalisation before training and prediction.
#include "rec.h"
#include "datafile.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
#include <sstream>
using sol::model::Model;
typedef std::set<uint32_t> Sel;   // empty: no selection
static const char* NORMS[] = {"None", "L1", "L2"};
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs", "alma2"};
static Rec prepared(const Rec& r, int C, int norm, const Sel& sel) {
  Rec o = r; if (C == 2) o.label = r.label == 1 ? 1 : -1;
  double n = 0;
  for (auto& f : o.f) if (!sel.empty() && !sel.count(f.first)) f.second = 0;
  for (auto& f : o.f) n += norm == 1 ? std::fabs((double)f.second) : (double)f.second * f.second;
  if (norm == 2) n = std::sqrt(n);
  if (norm && n > 0) for (auto& f : o.f) f.second = (float)(f.second / n);
  return o;
}
static std::string sel_text(const Sel& s) { std::string t; for (auto i : s) t += vp::fmt("%u\n", i); return t; }
static bool set(Model* m, const std::string& n, const std::string& v, int how) {
  if (how == 0) { try { m->SetParameter(n, v); return true; } catch (std::exception&) { return false; } }
  if (how == 1) return sol_SetModelParameter(m, n.c_str(), v.c_str()) == 0;
  return m->LoadPreSelFeatures(v) == 0;
}
static void quiet_cb(void*, long long, long long, long long, double) {}
static Model* make(const char* a, int C) { Model* m = Model::Create(a, C); dynamic_cast<sol::model::OnlineModel*>(m)->set_iterate_callback(quiet_cb, nullptr); return m; }
static bool check_rec(Model* m, const Rec& r, int C, int norm, const Sel& sel, const std::string& who, sol::pario::DataPoint& dp) {
  to_dp(r, dp); m->PreProcess(dp); Rec got = from_dp(dp), want = prepared(r, C, norm, sel); vp::step();
  vp::state(hash_rec(got, C * 16 + norm));
  if (got.label != want.label) { vp::fail("C20:label", who + vp::fmt(", %d classes: label %d becomes %d instead of %d", C, r.label, got.label, want.label)); return false; }
  if (!near_same(got, want, 3e-7)) { vp::fail(norm ? std::string("C20:norm:") + NORMS[norm] : "C20:filter", who + ": {" + show(r) + "} becomes {" + show(got) + "} instead of {" + show(want) + "}"); return false; }
  return true;
}
// every record over the alphabet
static void each_record(bool deep, const std::function<void(const Rec&)>& fn) {
  static const uint32_t idx[] = {1, 2, 4, 7}; static const float val[] = {1.f, -2.f, 0.5f, 0.f, 3.f, -0.1f, 1e-4f, 700.f};
  size_t nv = deep ? 8 : 5;
  for (int mask = 0; mask < 16; ++mask) {
    int n = __builtin_popcount(mask); size_t total = 1; for (int i = 0; i < n; ++i) total *= nv;
    for (size_t k = 0; k < total; ++k) {
      Rec r; size_t q = k; for (int i = 0; i < 4; ++i) if (mask >> i & 1) { r.f.push_back({idx[i], val[q % nv]}); q /= nv; }
      r.label = (int)(k % 8) - 3; fn(r);
    }
  }
}
static void records() {
  static const uint32_t cand[] = {1, 2, 4, 7, 9};
  for (int mask = 0; mask < 32; ++mask) for (int norm = 0; norm < 3; ++norm) for (int C : {2, 3, 4}) {
    if (C != 2 && mask % 5 != 0 && !vp::thorough()) continue;
    if (!vp::take()) continue;
    Sel s; for (int i = 0; i < 5; ++i) if (mask >> i & 1) s.insert(cand[i]);
    std::string who = std::string("norm ") + NORMS[norm] + ", selection {" ; for (auto i : s) who += vp::fmt(" %u", i); who += " }";
    vp::describe(who); vp::sample(who + ": all records over 4 indices and their values");
    std::unique_ptr<Model> m(make("ogd", C)); std::string f = vp::tmp("sel"); vp::write_file(f, sel_text(s));
    if (!set(m.get(), "norm", NORMS[norm], mask % 2)) { vp::fail("C20:setting", who + ": the norm is refused"); continue; }
    if (mask && !set(m.get(), "filter", f, mask % 3)) { vp::fail("C20:setting", who + ": the selection is refused"); continue; }
    sol::pario::DataPoint dp; bool ok = true;
    each_record(vp::thorough(), [&](const Rec& r) { vp::progress(); if (ok && (!vp::shallow() || r.f.size() < 4)) { ok = check_rec(m.get(), r, C, norm, s, who, dp); vp::trace(); } });
    for (int l = -40; l <= 40 && ok; ++l) { Rec r; r.label = l; r.f.push_back({2, 1.f}); ok = check_rec(m.get(), r, C, norm, s, who, dp); }
    for (int l : {2147483647, -2147483647, 1000000}) { Rec r; r.label = l; r.f.push_back({2, 1.f}); if (ok) ok = check_rec(m.get(), r, C, norm, s, who, dp); }
    // features far beyond the list, long records
    for (uint32_t i : {10u, 11u, 63u, 64u, 65u, 1000u, 123456u, 16777215u}) { Rec r; r.label = 1; r.f = {{1, 1.f}, {9, -2.f}, {i, 4.f}}; if (ok) ok = check_rec(m.get(), r, C, norm, s, who, dp); }
    // very small and very large records
    for (float z : {1e-17f, 1e-15f, 1e-12f, 1e-8f, 1e-6f, 1e6f, 1e8f, 1e12f, 1e15f, 1e17f}) for (int k = 0; k < 81; ++k) {
      static const float v[] = {1.f, -2.f, 0.f}; Rec r; r.label = k % 3 - 1; int q = k; for (uint32_t i : {1u, 2u, 4u, 9u}) { if (v[q % 3] != 0 || i == 4) r.f.push_back({i, v[q % 3] * z}); q /= 3; }
      if (ok) { ok = check_rec(m.get(), r, C, norm, s, who, dp); vp::trace(); }
    }
    Rec r; r.label = 1; for (uint32_t i = 1; i <= 300; ++i) { r.f.push_back({i, i % 7 ? (float)(i % 5) - 2.f : 0.f}); if (ok) ok = check_rec(m.get(), r, C, norm, s, who, dp); }
  }
}
// every selection file of a few lines
static void files() {
  struct L { const char* t; int kind; uint32_t i; };   // 0 comment, 1 feature, 2 wrong
  static const L ls[] = {{"1", 1, 1}, {"4", 1, 4}, {"# 7", 0, 0}, {"  # 2", 0, 0}, {"\t#x", 0, 0}, {"abc", 2, 0}, {"0", 2, 0}, {"-3", 2, 0}, {"99999999999", 2, 0}, {"#", 0, 0}, {"9", 1, 9}, {"00002", 1, 2}};
  std::string f = vp::tmp("list"), g = vp::tmp("old"); vp::write_file(g, "2\n7\n");
  Rec probe; probe.label = 1; for (uint32_t i = 1; i <= 12; ++i) probe.f.push_back({i, (float)i});
  int K = sizeof(ls) / sizeof(*ls);
  for (int first = -1; first < K; ++first) for (int old = 0; old < 2; ++old) {
    if (!vp::take()) continue;
    vp::describe(vp::fmt("selection files starting with \"%s\", %s", first < 0 ? "" : ls[first].t, old ? "after another list" : "no list before"));
    vp::sample(vp::fmt("all selection files starting with \"%s\"", first < 0 ? "" : ls[first].t));
    sol::pario::DataPoint dp;
    auto one = [&](const std::vector<int>& q) {
      std::string t; Sel s; bool wrong = false; if (first >= 0) { t += ls[first].t; }
      auto see = [&](int k) { if (ls[k].kind == 1) s.insert(ls[k].i); if (ls[k].kind == 2) wrong = true; };
      if (first >= 0) see(first);
      for (int k : q) { t += "\n"; t += ls[k].t; see(k); }
      bool ok = !wrong && !s.empty();
      for (int nl = 0; nl < (first >= 0 ? 2 : 1); ++nl) {
        vp::write_file(f, nl ? t + "\n" : t); vp::progress();
        std::unique_ptr<Model> m(make("ogd", 2));
        if (old && !set(m.get(), "filter", g, 0)) { vp::fail("C20:setting", "a selection is refused"); return; }
        int how = (int)(q.size() + nl) % 3;
        bool got = set(m.get(), "filter", f, how); vp::trace();
        if (got != ok) { vp::fail(ok ? "C20:list-refused" : "C20:list-accepted", "a selection file \"" + vp::fmt("%s", t.c_str()) + (ok ? "\" is refused" : "\" is accepted")); return; }
        Sel now = ok ? s : old ? Sel{2, 7} : Sel{};
        if (!check_rec(m.get(), probe, 2, 0, now, "after the selection file \"" + t + "\"" + (ok ? "" : " (refused)"), dp)) return;
      }
    };
    if (first < 0) { one({}); 
      std::string d = vp::tmp("dir"); mkdir(d.c_str(), 0755);
      for (std::string p : {d, vp::tmp("nosuch"), d + "/x/y", std::string()}) for (int how = 0; how < 3; ++how) {
        std::unique_ptr<Model> m(make("ogd", 2)); if (old) set(m.get(), "filter", g, 0);
        if (set(m.get(), "filter", p, how)) vp::fail("C20:list-accepted", "an unreadable selection file is accepted");
        check_rec(m.get(), probe, 2, 0, old ? Sel{2, 7} : Sel{}, "after an unreadable selection file", dp); vp::trace();
      }
    } else {
      int D = vp::thorough() ? 4 : vp::shallow() ? 2 : 3;
      vp::sequences(K, 0, D, [&](const std::vector<int>& q) { one(q); });
    }
  }
}
// the same preparation in training, testing and prediction
struct Out { std::vector<std::vector<float>> s; std::vector<int> l, p; };
static void got_cb(void* u, double label, double predict, int n, float* s) { Out* o = (Out*)u; o->l.push_back((int)label); o->p.push_back((int)predict); o->s.push_back(std::vector<float>(s, s + n)); }
static bool close(const std::vector<float>& a, const std::vector<float>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!near_eq(a[i], b[i], 2e-4, 2e-4)) return false;
  return true;
}
static std::vector<Rec> base(int C, int kind) {
  std::vector<Rec> d; static const float x[6][5] = {{1, 0.5f, 0, 2, 0}, {-1, 0, 3, 0, 1}, {0, 0, 0, 0, 0}, {0.25f, -2, 1, 0, 4}, {2, 1, 0, -1, 0.5f}, {0, 3, -1, 0.75f, -2}};
  for (int i = 0; i < 6; ++i) {
    Rec r; int k = (i + kind) % 6; for (uint32_t j = 0; j < 5; ++j) if (x[k][j] != 0) r.f.push_back({j + 1 + (j > 2), x[k][j] * (kind + 1)});
    r.label = C == 2 ? (i % 3 == 0 ? 1 : i % 3 == 1 ? -1 : 2 - 2 * kind) : (i * (kind + 1)) % C; d.push_back(r);
  }
  return d;
}
static void phases() {
  static const Sel sels[] = {{}, {1, 4}, {2}, {1, 2, 4, 5, 6}, {77}, {3}};
  for (const char* a : ALGOS) for (int C : {2, 3}) for (int norm = 0; norm < 3; ++norm) for (int si = 0; si < 6; ++si) for (int kind = 0; kind < 2; ++kind) {
    if (!strcmp(a, "alma2") && norm != 2) continue;
    if (!vp::take()) continue;
    std::string who = std::string(a) + vp::fmt(" %d classes, norm %s, selection %d, data %d", C, NORMS[norm], si, kind);
    vp::describe(who); vp::sample(who + ": train, test and predict against data prepared beforehand"); vp::progress(); vp::trace();
    auto raw = base(C, kind); std::vector<Rec> pre; for (auto& r : raw) pre.push_back(prepared(r, C, norm, sels[si]));
    std::string fr = vp::tmp("raw.bin"), fp = vp::tmp("pre.bin"), fs = vp::tmp("s"); put_data(fr, "bin", raw); put_data(fp, "bin", pre); vp::write_file(fs, "# a list\n" + sel_text(sels[si]));
    std::unique_ptr<Model> m(make(a, C)), n(make(a, C));
    bool ok = set(m.get(), "norm", NORMS[norm], 0) && set(m.get(), "bias_eta", "0.5", 0) && set(n.get(), "bias_eta", "0.5", 0);
    if (si) ok = ok && set(m.get(), "filter", fs, 0);
    for (auto* x : {m.get(), n.get()}) { if (!strcmp(a, "sofs") || !strcmp(a, "pet") || strstr(a, "ofs")) ok = ok && set(x, "B", "2", 0); if (strstr(a, "-l1") || !strcmp(a, "stg")) ok = ok && set(x, "lambda", "0.01", 0); if (!strcmp(a, "fofs")) ok = ok && set(x, "lambda", "0.1", 0); }
    if (!ok) { vp::fail("C20:setting", who + ": a setting is refused"); continue; }
    auto train = [&](Model* x, const std::string& f) { sol::pario::DataIter it(2, 2); it.AddReader(f, "bin", 2); vp::step(12); return kind ? sol_Train(x, &it) : x->Train(it); };
    float e1 = train(m.get(), fr), e2 = train(n.get(), fp);
    if (e1 != e2) { vp::fail("C20:train", who + vp::fmt(": training error %g, on prepared data %g", e1, e2)); continue; }
    auto test = [&](Model* x, const std::string& f, std::string& o) { sol::pario::DataIter it(4, 2); it.AddReader(f, "bin", 1); std::ostringstream s; float e = x->Test(it, &s); o = s.str(); vp::step(6); return e; };
    std::string o1, o2; e1 = test(m.get(), fr, o1); e2 = test(n.get(), fp, o2);
    auto pred = [&](Model* x, const std::string& f, Out& o) { sol::pario::DataIter it(4, 2); it.AddReader(f, "bin", 1); vp::step(6); return sol_Predict(x, &it, got_cb, &o); };
    Out q1, q2; int n1 = pred(m.get(), fr, q1), n2 = pred(n.get(), fp, q2);
    if (n1 != n2 || q1.l != q2.l) { vp::fail("C20:predict-label", who + ": prediction sees other labels than in prepared data"); continue; }
    bool same = true; for (int i = 0; i < n1; ++i) if (!close(q1.s[i], q2.s[i])) { vp::fail("C20:predict", who + vp::fmt(": record %d scores %.7g, prepared beforehand %.7g", i, q1.s[i][0], q2.s[i][0])); same = false; break; }
    if (!same) continue;
    // close scores may still tie differently, so labels are compared only away from ties
    if (e1 != e2) { bool tie = false; for (auto& v : q1.s) { std::vector<float> w = v; if (w.size() == 1) w.push_back(0); std::sort(w.begin(), w.end()); if (w[w.size() - 1] - w[w.size() - 2] < 1e-3) tie = true; } if (!tie) { vp::fail("C20:test", who + vp::fmt(": test error %g, on prepared data %g", e1, e2)); continue; } }
    // the lines of the test agree with the predictions
    std::istringstream is(o1); std::string line; std::getline(is, line); int i = 0;
    while (std::getline(is, line) && i < n1) { std::istringstream ls(line); int l, p; ls >> l >> p; bool bad = l != q1.l[i] || p != q1.p[i]; for (float s : q1.s[i]) { float v; ls >> v; if (!near_eq(v, s, 1e-5, 1e-9)) bad = true; } if (bad) { vp::fail("C20:test", who + ": testing and prediction treat record " + vp::fmt("%d", i) + " differently: " + line); break; } ++i; }
    // a restored model normalises alike
    std::string fm = vp::tmp("m"); if (m->Save(fm) != 0) { vp::fail("C20:save", who + ": cannot be saved"); continue; }
    std::unique_ptr<Model> r(Model::Load(fm)); if (!r) { vp::fail("C20:save", who + ": cannot be restored"); continue; }
    if (si) set(r.get(), "filter", fs, 1);
    Out q3; pred(r.get(), fr, q3); for (int k = 0; k < n1; ++k) if (k >= (int)q3.s.size() || q3.l[k] != q1.l[k] || !close(q3.s[k], q1.s[k])) { vp::fail("C20:restored", who + vp::fmt(": record %d is scored differently by the restored model", k)); break; }
    uint64_t h = vp::hash(who); for (auto& v : q1.s) for (float x : v) h = vp::mix(h, (uint64_t)(int64_t)std::llround(x * 1e3)); vp::state(h);
    // the executables
    if (!vp::shallow() && (vp::thorough() || ((si + norm + kind) % 3 == 0 && C == 2))) {
      std::string bin = getenv("VP_BIN"), tm = vp::tmp("tm"), to = vp::tmp("to"), par = std::string("norm=") + NORMS[norm] + ";bias_eta=0.5"; if (si) par += ";filter=" + fs;
      if (!strcmp(a, "sofs") || !strcmp(a, "pet") || strstr(a, "ofs")) par += ";B=2";
      if (strstr(a, "-l1") || !strcmp(a, "stg")) par += ";lambda=0.01"; if (!strcmp(a, "fofs")) par += ";lambda=0.1";
      unlink(tm.c_str()); unlink(to.c_str());
      std::string c1 = bin + "/sol_train -f bin -p 2 -b 2 -a " + a + vp::fmt(" -c %d", C) + " --params '" + par + "' " + fr + " " + tm, c2 = bin + "/sol_test -f bin " + (si ? "--filter " + fs + " " : "") + tm + " " + fr + " " + to;
      vp::step(2);
      if (system((c1 + " >/dev/null 2>&1").c_str()) != 0 || system((c2 + " >/dev/null 2>&1").c_str()) != 0) { vp::fail("C20:tool", who + ": sol_train or sol_test fails"); continue; }
      std::istringstream ts(vp::read_file(to)); std::getline(ts, line); int k = 0;
      while (std::getline(ts, line)) { std::istringstream ls(line); int l, p; ls >> l >> p; bool bad = k >= n1 || l != q1.l[k]; if (!bad) for (float s : q1.s[k]) { float v = 0; ls >> v; if (!near_eq(v, s, 2e-4, 2e-4)) bad = true; } if (bad) { vp::fail("C20:tool", who + vp::fmt(": the executables score record %d as ", k) + line); break; } ++k; }
      if (k != n1) vp::fail("C20:tool", who + vp::fmt(": the executables report %d records", k));
    }
  }
}
static void run() { records(); files(); phases(); }
VP_MAIN(run)
