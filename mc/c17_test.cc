// C17: testing and predicting report the model truthfully and never change it.
#include "rec.h"
#include "datafile.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
using sol::model::Model;
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static void quiet_cb(void*, long long, long long, long long, double) {}
typedef std::vector<std::vector<float>> W;     // one row per score, column 0 the bias
static std::string show_w(const W& w) { std::string s; for (auto& r : w) { s += "["; for (float x : r) s += vp::fmt(" %g", x); s += " ]"; } return s; }
// a model with these weights, through a model file
static Model* model_of(const W& w, const char* algo = "ogd") {
  int C = w.size() == 1 ? 2 : (int)w.size(); std::string f = vp::tmp("w.model");
  std::unique_ptr<Model> m(Model::Create(algo, C)); m->SetParameter("dim", vp::fmt("%zu", w[0].size()));
  if (m->Save(f) != 0) return nullptr;
  std::string t = vp::read_file(f), mark = "model parameters:\n"; size_t p = t.find(mark); if (p == std::string::npos) return nullptr;
  t = t.substr(0, p) + mark;
  for (size_t c = 0; c < w.size(); ++c) { t += vp::fmt("weight[%zu]:\n[", c); for (float x : w[c]) t += vp::fmt(" %g", x); t += " ]\n"; }
  vp::write_file(f, t);
  Model* r = Model::Load(f); if (r) dynamic_cast<sol::model::OnlineModel*>(r)->set_iterate_callback(quiet_cb, nullptr);
  return r;
}
static std::vector<double> score(const W& w, const Rec& r) {
  std::vector<double> s; for (auto& v : w) { double x = v[0]; for (auto& f : r.f) if (f.first < v.size()) x += (double)v[f.first] * f.second; s.push_back(x); } return s;
}
static int predicted(const std::vector<double>& s) { if (s.size() == 1) return s[0] >= 0 ? 1 : -1; int b = 0; for (size_t i = 1; i < s.size(); ++i) if (s[i] > s[b]) b = (int)i; return b; }
static int truth(const Rec& r, size_t n) { return n > 1 ? r.label : r.label == 1 ? 1 : -1; }
struct Line { int label, predict; std::vector<double> s; };
static void got_cb(void* u, double label, double predict, int n, float* s) { ((std::vector<Line>*)u)->push_back({(int)label, (int)predict, std::vector<double>(s, s + n)}); }
// parse an output file strictly; false if it is not of the documented form
static bool parse(const std::string& t, size_t n, std::vector<Line>& out) {
  size_t p = t.find('\n'); if (p == std::string::npos || t.substr(0, p) != "label\tpredict\tscores") return false;
  ++p;
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) return false;
    std::string l = t.substr(p, e - p); p = e + 1; std::vector<std::string> c; size_t q = 0, x;
    while ((x = l.find('\t', q)) != std::string::npos) { c.push_back(l.substr(q, x - q)); q = x + 1; } c.push_back(l.substr(q));
    if (c.size() != 2 + n) return false;
    Line o; char* end; o.label = (int)strtol(c[0].c_str(), &end, 10); if (*end || c[0].empty()) return false; o.predict = (int)strtol(c[1].c_str(), &end, 10); if (*end || c[1].empty()) return false;
    for (size_t k = 0; k < n; ++k) { o.s.push_back(strtod(c[2 + k].c_str(), &end)); if (*end || c[2 + k].empty()) return false; }
    out.push_back(o);
  }
  return true;
}
struct Job {
  std::string key, who; W w; double rel;                      // rel 0: exact scores
  bool l2 = false;                                            // alma2 normalises every record
  Job(const std::string& k, const std::string& n, const W& ww, double r) : key(k), who(n), w(ww), rel(r) {}
  Rec seen(const Rec& r) const { Rec o = r; double n = 0; for (auto& f : r.f) n += (double)f.second * f.second; if (l2 && n > 0) for (auto& f : o.f) f.second = (float)(f.second / std::sqrt(n)); return o; }
  bool bad(const std::string& k, const std::string& m) { vp::fail("C17:" + key + k, who + ": " + m); return false; }
  bool lines(const std::vector<Line>& got, const std::vector<Rec>& d, const std::string& how, bool text) {
    if (got.size() != d.size()) return bad("records", how + vp::fmt(" reports %zu of %zu records", got.size(), d.size()));
    for (size_t i = 0; i < d.size(); ++i) {
      auto s = score(w, seen(d[i])); int y = truth(d[i], s.size());
      if (got[i].label != y) return bad("label", how + ": {" + show(d[i]) + vp::fmt("} is given label %d", got[i].label));
      if (got[i].s.size() != s.size()) return bad("scores", how + vp::fmt(" gives %zu scores", got[i].s.size()));
      double big = 0; for (auto& v : w) for (float x : v) big = std::max(big, std::fabs((double)x)); double mx = 1; for (auto& f : d[i].f) mx += std::fabs((double)f.second);
      for (size_t c = 0; c < s.size(); ++c) if (std::fabs(got[i].s[c] - s[c]) > (text ? 6e-6 * std::fabs(s[c]) : 0) + rel * big * mx) return bad("scores", how + ": {" + show(d[i]) + vp::fmt("} score %zu is %.9g instead of %.9g, weights ", c, got[i].s[c], s[c]) + show_w(w));
      // the label follows from the reported scores (text output carries too few digits to tell near ties apart)
      int p = text ? got[i].predict : predicted(got[i].s);
      if (!text && got[i].predict != p) return bad("predict", how + ": {" + show(d[i]) + vp::fmt("} is predicted as %d, the scores say %d", got[i].predict, p));
      if (rel == 0 && got[i].predict != predicted(s)) return bad("predict", how + ": {" + show(d[i]) + vp::fmt("} is predicted as %d instead of %d", got[i].predict, predicted(s)));
    }
    return true;
  }
  static float rate(const std::vector<Line>& l) { size_t e = 0; for (auto& x : l) e += x.label != x.predict; return float(double(e) / l.size()); }
  bool err(float got, const std::vector<Line>& l, const std::string& how) { if (std::fabs((double)got - rate(l)) > 1e-7) return bad("error", how + vp::fmt(" returns %.9g, the lines say %.9g", got, rate(l))); return true; }
};
// all the ways of testing one model on one data set
static bool all_ways(Job& j, Model* m, const std::vector<Rec>& d, const std::vector<std::pair<std::string, std::string>>& src, int batch, int buf, bool files) {
  size_t n = m->clf_num(); std::vector<Line> a, b, c; vp::progress(); vp::trace();
  std::string f0 = vp::tmp("b0"), f1 = vp::tmp("b1"); 
  auto feed = [&](sol::pario::DataIter& it) { for (auto& s : src) if (it.AddReader(s.first, s.second, 1) != 0) throw vp::Stop(); vp::step(d.size()); };
  std::ostringstream os; float e0, e1, e2;
  { sol::pario::DataIter it(batch, buf); feed(it); e0 = m->Test(it, &os); }
  { sol::pario::DataIter it(batch, buf); feed(it); e1 = m->Test(it, nullptr); }
  if (!parse(os.str(), n, a)) return j.bad("output", "the output of the test is not one line per record: " + os.str().substr(0, 200));
  if (!j.lines(a, d, "testing", true) || !j.err(e0, a, "testing") || !j.err(e1, a, "testing without output")) return false;
  { sol::pario::DataIter it(batch, buf); feed(it); int k = sol_Predict(m, &it, got_cb, &b); if (k != (int)d.size()) return j.bad("records", vp::fmt("sol_Predict returns %d for %zu records", k, d.size())); }
  if (!j.lines(b, d, "sol_Predict", false)) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].predict != b[i].predict) return j.bad("predict", "testing and sol_Predict differ on {" + show(d[i]) + "}");
  if (files) {
    { sol::pario::DataIter it(batch, buf); feed(it); e2 = sol_Test(m, &it, f0.c_str()); }
    if (vp::read_file(f0) != os.str()) return j.bad("output", "sol_Test writes another file than the test");
    if (!j.err(e2, a, "sol_Test")) return false;
    { sol::pario::DataIter it(batch, buf); feed(it); e2 = sol_Test(m, &it, nullptr); } if (!j.err(e2, a, "sol_Test without output")) return false;
  }
  uint64_t h = 7; for (auto& x : b) { h = vp::mix(h, x.predict + 3); for (double s : x.s) h = vp::mix(h, (uint64_t)(int64_t)std::llround(s * 1e4)); } vp::state(h);
  return true;
}
static std::vector<Rec> alphabet(int C, size_t maxi, bool deep) {     // every record over these indices
  static const float val[] = {99.f, 1.f, -1.f, 0.5f, 0.f, -2.f}; std::vector<uint32_t> idx; for (uint32_t i = 1; i <= maxi; ++i) idx.push_back(i); idx.push_back((uint32_t)maxi + 3);
  size_t nv = deep ? 6 : 5, total = 1; for (size_t i = 0; i < idx.size(); ++i) total *= nv;
  std::vector<Rec> d;
  for (size_t k = 0; k < total; ++k) { Rec r; size_t q = k; for (auto i : idx) { if (q % nv) r.f.push_back({i, val[q % nv]}); q /= nv; } r.label = C == 2 ? (k % 3 == 0 ? 1 : k % 3 == 1 ? -1 : (int)(k % 5) - 2) : (int)((k * 7 + k / 5) % C); d.push_back(r); }
  return d;
}
// every small weight matrix against every small record
static void weights() {
  struct G { int C; int dim; std::vector<float> v; bool deep; };
  std::vector<G> gs = {{2, 1, {0, 1, -1, 0.5f, -0.25f}, false}, {2, 2, {0, 1, -1, 0.5f, -0.25f}, false}, {2, 3, {0, 1, -1, 0.5f}, false}, {2, 4, {0, 1, -1}, false}, {3, 1, {0, 1, -1}, false}, {3, 2, {0, 1, -0.5f}, false}, {4, 1, {0, 1, -1, 0.5f}, false}, {4, 2, {0, 1}, false}};
  if (vp::thorough()) { gs.push_back({3, 3, {0, 1, -1}, false}); gs.push_back({2, 4, {0, 1, -1, 0.5f}, true}); gs.push_back({2, 5, {0, 1, -2}, false}); gs.push_back({5, 2, {0, 1}, false}); }
  for (auto& g : gs) {
    int n = g.C == 2 ? 1 : g.C; size_t total = 1; for (int i = 0; i < n * g.dim; ++i) total *= g.v.size();
    size_t chunk = 27; auto d = alphabet(g.C, g.dim - 1, g.deep);
    for (size_t lo = 0; lo < total; lo += chunk) {
      if (!vp::take()) continue;
      if (vp::shallow() && lo / chunk % 4) continue;
      std::string f = vp::tmp("all.svm"); put_data(f, "svm", d);
      for (size_t k = lo; k < std::min(total, lo + chunk); ++k) {
        W w(n, std::vector<float>(g.dim)); size_t q = k; for (auto& r : w) for (auto& x : r) { x = g.v[q % g.v.size()]; q /= g.v.size(); }
        Job j{"", vp::fmt("%d classes, weights ", g.C) + show_w(w), w, 0}; vp::describe(j.who);
        std::unique_ptr<Model> m(model_of(w)); if (!m) { j.bad("load", "the model file is refused"); break; }
        vp::sample(j.who + vp::fmt(" on all %zu records", d.size()));
        if (!all_ways(j, m.get(), d, {{f, "svm"}}, 16, 2, k == lo)) break;
      }
    }
  }
}
// every small test set: the error is exact
static void sets() {
  std::vector<W> ms = {{{0, 1, -1}}, {{-0.5f, 1, 0.5f}}, {{0, 0, 0}}, {{0, 1, -1}, {0.5f, 0, 0}, {0, -1, 1}}, {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}};
  for (size_t mi = 0; mi < ms.size(); ++mi) for (int batch : {1, 2, 3, 256}) {
    if (!vp::take()) continue;
    int C = ms[mi].size() == 1 ? 2 : 3; std::unique_ptr<Model> m(model_of(ms[mi])); Job j{"", vp::fmt("batch %d, weights ", batch) + show_w(ms[mi]), ms[mi], 0};
    vp::describe(j.who); vp::sample(j.who + ": all test sets of up to 4 records"); if (!m) { j.bad("load", "the model file is refused"); continue; }
    std::vector<Rec> al; for (int y = 0; y < C; ++y) for (int k = 0; k < 2; ++k) { Rec r; r.label = C == 2 ? (y ? 1 : -1) : y; r.f.push_back({1, k ? 1.f : -1.f}); if (k) r.f.push_back({2, 0.5f}); else r.f.push_back({9, 3.f}); al.push_back(r); }
    Rec e; e.label = C == 2 ? 1 : 2; al.push_back(e);
    bool ok = true;
    vp::sequences((int)al.size(), 1, vp::thorough() ? 5 : vp::shallow() ? 2 : 3, [&](const std::vector<int>& q) {
      if (!ok) return; std::vector<Rec> d; for (int k : q) d.push_back(al[k]);
      static int nr = 0; const char* ty = ++nr % 3 == 0 ? "bin" : nr % 3 == 1 ? "svm" : "csv"; if (max_index(d) == 0) ty = "svm";
      std::string f = vp::tmp("s0"); put_data(f, ty, d); ok = all_ways(j, m.get(), d, {{f, ty}}, batch, 1 + nr % 3, true);
    });
  }
  // around the batch size, and the executable
  for (int C : {2, 3}) for (int n : {1, 2, 3, 7, 255, 256, 257, 511, 512, 513, 600, 1025}) {
    if (!vp::take()) continue;
    W w = C == 2 ? W{{-0.5f, 1, 0.5f, -1}} : W{{0, 1, -1, 0}, {0.5f, 0, 0, 1}, {0, -1, 1, 1}}; std::unique_ptr<Model> m(model_of(w)); Job j{"", vp::fmt("%d classes, %d records", C, n), w, 0}; vp::describe(j.who); vp::sample(j.who);
    if (!m) { j.bad("load", "the model file is refused"); continue; }
    auto al = alphabet(C, 3, false); std::vector<Rec> d; for (int i = 0; i < n; ++i) d.push_back(al[(i * 37) % al.size()]);
    for (const char* ty : {"svm", "bin", "csv"}) {
      std::string f = vp::tmp("big"), o = vp::tmp("out"), so = vp::tmp("stdout"), mf = vp::tmp("w.model"); if (!strcmp(ty, "csv")) { d = no_zeros(d); if (!max_index(d)) continue; } put_data(f, ty, d);
      if (!all_ways(j, m.get(), d, {{f, ty}}, 256, 2, true) || !all_ways(j, m.get(), d, {{f, ty}}, 100, 1, false)) break;
      if (vp::shallow()) continue;
      for (int with = 0; with < 2; ++with) {
        unlink(o.c_str()); vp::step(); vp::trace();
        int r = system((std::string(getenv("VP_BIN")) + "/sol_test -f " + ty + " " + mf + " " + f + (with ? " " + o : "") + " >" + so + " 2>/dev/null").c_str());
        if (r != 0) { j.bad("tool", "sol_test fails"); break; }
        std::vector<Line> l; size_t e = 0; for (auto& x : d) e += predicted(score(w, x)) != truth(x, w.size());
        if (with && (!parse(vp::read_file(o), w.size(), l) || !j.lines(l, d, "sol_test", true))) { j.bad("tool", "the output file of sol_test is wrong"); break; }
        std::string t = vp::read_file(so); size_t p = t.find("accuracy"); double acc = -1; if (p != std::string::npos) { p = t.find_first_of("0123456789", p); if (p != std::string::npos) acc = strtod(t.c_str() + p, nullptr); }
        if (std::fabs(acc - (1 - double(e) / n)) > 6e-5) { j.bad("tool", vp::fmt("sol_test reports an accuracy of %g instead of %.6f", acc, 1 - double(e) / n)); break; }
      }
    }
  }
}
// trained models: linear in the record, unchanged by testing
static std::vector<Rec> train_alphabet(int C) {
  std::vector<Rec> a; std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, -0.5f}}, {{2, 1.f}}, {{1, -1.f}, {3, 2.f}}, {}, {{1, 0.75f}, {2, 1.f}, {5, -1.f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.f = xs[i]; r.label = C == 2 ? (i % 2 ? -1 : 1) : (int)(i % C); a.push_back(r); }
  return a;
}
static void trained() {
  for (const char* a : ALGOS) for (int C : {2, 3}) for (int cfg = 0; cfg < 3; ++cfg) {
    if (!vp::take()) continue;
    auto al = train_alphabet(C); std::string base = std::string(a) + vp::fmt(" %d classes, settings %d", C, cfg); vp::describe(base); vp::sample(base + ": all training histories, tested in between");
    auto make = [&]() {
      std::unique_ptr<Model> m(Model::Create(a, C)); dynamic_cast<sol::model::OnlineModel*>(m.get())->set_iterate_callback(quiet_cb, nullptr);
      try { m->SetParameter("bias_eta", cfg ? "0.5" : "0"); if (!strcmp(a, "sofs") || !strcmp(a, "pet") || strstr(a, "ofs")) m->SetParameter("B", "2"); if (strstr(a, "-l1") || !strcmp(a, "stg")) m->SetParameter("lambda", "0.05"); if (!strcmp(a, "fofs")) m->SetParameter("lambda", "0.1"); if (cfg == 2) m->SetParameter("lazy_update", "true"); } catch (std::exception&) { vp::fail(std::string("C17:") + a + ":setting", base + ": a setting is refused"); }
      return m;
    };
    auto train = [&](Model* m, const std::vector<int>& q, size_t lo, size_t hi) {
      if (lo == hi) return; std::vector<Rec> d; for (size_t i = lo; i < hi; ++i) d.push_back(al[q[i]]); std::string f = vp::tmp("t.bin"); put_data(f, "bin", d); sol::pario::DataIter it(2, 2); it.AddReader(f, "bin", 1); m->Train(it); vp::step(hi - lo);
    };
    auto tests = alphabet(C, 2, false); { Rec r; r.label = 1; r.f = {{1, 1.f}, {3, 1.f}, {5, 2.f}, {100, 5.f}}; tests.push_back(r); r.f = {{70000, 1.f}}; tests.push_back(r); r.f = {{4, 3.f}}; tests.push_back(r); }
    if (tests.size() > 60) { std::vector<Rec> t2; for (size_t i = 0; i < tests.size(); ++i) if (i % 3 == 0 || i + 3 >= tests.size()) t2.push_back(tests[i]); tests = t2; }
    std::string tf = vp::tmp("tests.bin"); put_data(tf, "bin", tests);
    bool ok = true;
    vp::sequences((int)al.size(), 0, vp::thorough() ? 5 : vp::shallow() ? 1 : 3, [&](const std::vector<int>& q) {
      if (!ok) return; vp::progress();
      std::string who = base + ", history"; for (int k : q) who += vp::fmt(" %d", k);
      for (size_t cut = q.size() > 2 ? q.size() - 1 : 0; cut <= q.size() && ok; ++cut) {
        auto m = make(), n = make(); train(m.get(), q, 0, cut); train(n.get(), q, 0, cut);
        if (n->model_updated()) n->EndTrain();
        // the weights, by probing the twin; finished models are linear in the record
        int k = n->clf_num(); W w(k, std::vector<float>(8)); std::vector<float> s(k); sol::pario::DataPoint dp; bool fin = true;
        for (uint32_t i = 0; i < 8; ++i) { Rec r; r.label = 1; if (i) r.f.push_back({i, 1.f}); to_dp(r, dp); n->Predict(dp, s.data()); for (int c = 0; c < k; ++c) { w[c][i] = i ? s[c] - w[c][0] : s[c]; if (!std::isfinite(s[c])) fin = false; } }
        if (!fin) { vp::extra("not_finite_skipped", 1); continue; }
        Job j{std::string(a) + ":", who, w, 2e-6}; j.l2 = !strcmp(a, "alma2");
        std::string f1 = vp::tmp("m1"), f2 = vp::tmp("m2");
        ok = all_ways(j, m.get(), tests, {{tf, "bin"}}, 7, 2, false);
        if (!ok) break;
        for (uint32_t i = 0; i < 8; ++i) { Rec r; r.label = 1; if (i) r.f.push_back({i, 1.f}); to_dp(r, dp); std::vector<float> u(k); n->Predict(dp, s.data()); m->Predict(dp, u.data()); if (memcmp(u.data(), s.data(), k * sizeof(float))) { ok = j.bad("changed", vp::fmt("testing changed the weight of feature %u", i)); break; } 
          // nothing known about a feature never seen
          if (i) { Rec z = r; z.f.push_back({50, 7.f}); to_dp(z, dp); std::vector<float> v(k); m->Predict(dp, v.data()); if (memcmp(u.data(), v.data(), k * sizeof(float))) { ok = j.bad("unseen", "a feature never seen contributes to the scores"); break; } } }
        if (!ok) break;
        if (m->model_info() != n->model_info()) { ok = j.bad("changed", "testing changed the parameters"); break; }
        if (m->model_sparsity() != n->model_sparsity() && !std::isnan(n->model_sparsity())) { ok = j.bad("changed", vp::fmt("testing changed the sparsity from %g to %g", n->model_sparsity(), m->model_sparsity())); break; }
        train(m.get(), q, cut, q.size()); train(n.get(), q, cut, q.size());
        if (m->Save(f1) != 0 || n->Save(f2) != 0 || vp::read_file(f1) != vp::read_file(f2)) { ok = j.bad("changed", "a model tested in the middle of training ends up another"); break; }
      }
    });
  }
}
// wide models and many classes: exact scores with small whole weights
static void wide() {
  std::vector<size_t> dims = {2, 9, 33, 64, 65, 129, 256, 257, 1000, 4097}; if (vp::thorough()) for (size_t k : {500u, 1025u, 20000u, 70000u}) dims.push_back(k);
  for (size_t D : dims) for (int C : {2, 3, 5, 10, 17, 33}) {
    if (!vp::take()) continue;
    size_t n = C == 2 ? 1 : C; W w(n, std::vector<float>(D)); for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < D; ++i) w[c][i] = (float)((int)((i * 31 + c * 17 + i / 7) % 13) - 6);
    std::string who = vp::fmt("%d classes, %zu weights each", C, D); vp::describe(who); vp::sample(who);
    std::unique_ptr<Model> m(model_of(w)); if (!m) { vp::fail("C17:load", who + ": the model file is refused"); continue; }
    std::vector<Rec> d; uint32_t last = (uint32_t)D - 1;
    auto add = [&](std::vector<std::pair<uint32_t, float>> f) { Rec r; for (auto& x : f) if (r.f.empty() || x.first > r.f.back().first) r.f.push_back({x.first, x.second}); size_t k = d.size(); r.label = C == 2 ? (k % 2 ? 1 : -1) : (int)(k * 5 % C); d.push_back(r); };
    add({}); for (uint32_t i : {1u, 2u, last / 2 + 1, last, last + 1, last + 2, 100000u, 4000000000u}) for (float v : {1.f, -2.f}) { add({{i, v}}); add({{1, 1.f}, {i + 1, v}}); add({{1, 1.f}, {i, v}, {4100000000u, 1.f}}); }
    for (size_t stride : {1u, 2u, 3u, 64u, 255u}) { std::vector<std::pair<uint32_t, float>> f; for (size_t i = 1; i < D + stride && f.size() < 5000; i += stride) f.push_back({(uint32_t)i, (float)((int)(i % 5) - 2)}); add(f); f.push_back({last + 3000, 1.f}); add(f); }
    for (size_t c = 0; c < n; ++c) { std::vector<std::pair<uint32_t, float>> f; for (size_t i = 1; i < D && f.size() < 300; ++i) f.push_back({(uint32_t)i, w[c][i]}); add(f); }   // each class wins once
    Job j("wide-", who, w, 0);
    std::string p = vp::tmp("wide.bin"); std::vector<std::pair<std::string, std::string>> src = {{p, "bin"}}; put_data(p, "bin", d);
    all_ways(j, m.get(), d, src, 7, 2, D < 300);
  }
}
// a weight counts as long as it is not zero, however small
static void tiny() {
  static const float v[] = {0, 1e-30f, -2e-38f, 1e-7f, -1, 1e-12f}; int K = 6;
  for (int C : {2, 3}) for (int k0 = 0; k0 < K; ++k0) {
    if (!vp::take()) continue;
    std::string who = vp::fmt("%d classes, weights down to 2e-38 (%d)", C, k0); vp::describe(who); vp::sample(who); int n = C == 2 ? 1 : 3;
    vp::sequences(K, 3, 3, [&](const std::vector<int>& q) {
      vp::progress(); vp::trace(); vp::step(); W w(n); size_t zero = 0; for (int c = 0; c < n; ++c) { w[c] = {0.5f}; for (int k : {k0, q[0], q[1], q[2]}) { float x = v[(k + c * (k0 + 1)) % K]; w[c].push_back(x); zero += x == 0; } }
      std::unique_ptr<Model> m(model_of(w)); if (!m) { vp::fail("C17:load", who + ": the model file is refused, weights " + show_w(w)); return; }
      float s = m->model_sparsity(); vp::state(vp::mix(zero, n * 7)); if (std::fabs(s - double(zero) / (4 * n)) > 1e-6) vp::fail("C17:sparsity", who + vp::fmt(": sparsity %.7g instead of %.7g, weights ", s, double(zero) / (4 * n)) + show_w(w));
    });
  }
}
static void run() { weights(); sets(); wide(); tiny(); trained(); }
VP_MAIN(run)
