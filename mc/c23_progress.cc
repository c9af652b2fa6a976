// C23: progress reports and the returned training error are exact.
#include <random>
#include <algorithm>
#include "rec.h"
#include "datafile.h"
#include "refloss.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
using sol::model::Model; using sol::model::OnlineModel;
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
struct Row { long long data, iter, update; double err; };
static void row_cb(void* u, long long d, long long i, long long n, double e) { ((std::vector<Row>*)u)->push_back({d, i, n, e}); }
static std::string show_rows(const std::vector<Row>& r) { std::string s; for (auto& x : r) s += vp::fmt("(%lld %lld %lld %.4f)", x.data, x.iter, x.update, x.err); return s; }
struct Shown { char kind; int n; };         // 'e' powers, 's' multiples, 0 default
static std::string show_s(Shown s) { return s.kind ? vp::fmt("%s_show=%d", s.kind == 'e' ? "exp" : "step", s.n) : std::string("default display"); }
static bool due(Shown s, long long k) {
  if (s.kind == 's') return k % s.n == 0;
  long long b = s.kind ? s.n : 2, p = b; while (p < k) p *= b; return p == k;
}
// what each example does to the counters, from an example-wise twin and the loss definitions
struct Ex { bool wrong, update, query; };
unsigned std::random_device::_M_getval() { return 20161118u; }      // the same draws in every run
static bool same_err(double a, double b) { return std::fabs(a - b) <= 1e-6; }
struct Conf { std::string algo; int C; std::vector<std::pair<std::string, std::string>> p; std::string show() const { std::string s = algo + vp::fmt(" %d classes", C); for (auto& k : p) s += " " + k.first + "=" + k.second; return s; } };
static Model* make(const Conf& c) { Model* m = Model::Create(c.algo, c.C); for (auto& k : c.p) m->SetParameter(k.first, k.second); return m; }
static std::vector<Ex> examples(const Conf& c, const std::vector<Rec>& d) {
  std::unique_ptr<Model> m(make(c)); auto* om = dynamic_cast<OnlineModel*>(m.get()); om->BeginTrain(); std::vector<float> s(m->clf_num()); sol::pario::DataPoint dp; std::vector<Ex> out;
  std::string loss = c.C == 2 ? "hinge" : "maxscore-hinge"; bool lazy = false, shy = false; if (c.algo == "perceptron" || c.algo == "sop") loss = c.C == 2 ? "bool" : "maxscore-bool";
  for (auto& k : c.p) { if (k.first == "loss") loss = k.second; if (k.first == "lazy_update") lazy = k.second == "true"; if (k.first == "active_smoothness") shy = k.second == "1e-30"; }
  bool own = c.algo == "cw" || c.algo == "eccw" || c.algo == "alma2";      // margin of their own
  for (auto& r : d) {
    to_dp(r, dp); m->PreProcess(dp); size_t before = m->update_num(); om->Iterate(dp, s.data()); vp::step();
    int y = dp.label(); std::vector<double> sd(s.begin(), s.end()); int p = ref_label(sd); Ex e; e.wrong = p != y;
    LossVal l = ref_loss(loss, sd, y, p, 1); double near = 1; if (loss.find("hinge") != std::string::npos) near = std::fabs(l.loss);
    e.update = lazy ? e.wrong : own || (near < 1e-5 && near > 0) ? m->update_num() != before : l.loss > 0;
    double first = sd[0], second = 0; if (sd.size() > 1) { std::vector<double> o = sd; std::sort(o.rbegin(), o.rend()); first = o[0]; second = o[1]; }
    e.query = !shy || std::fabs(first - second) == 0; e.update = e.update && e.query;     // with next to no smoothness only examples on the boundary are queried
    out.push_back(e);
  }
  return out;
}
struct Job {
  Conf c; Shown s; std::string who;
  bool bad(const std::string& k, const std::string& m) { vp::fail("C23:" + c.algo + ":" + k, who + ": " + m); return false; }
  // train in several calls and compare every report
  bool go(const std::vector<Rec>& d, const std::vector<size_t>& cuts, const std::vector<Ex>& ex, int batch, int buf, int t0, bool capi) {
    std::unique_ptr<Model> m(make(c)); auto* om = dynamic_cast<OnlineModel*>(m.get()); std::vector<Row> got, want; vp::progress(); vp::trace();
    if (s.kind) m->SetParameter(s.kind == 'e' ? "exp_show" : "step_show", vp::fmt("%d", s.n));
    if (capi) sol_InspectOnlineIteration(m.get(), row_cb, &got); else om->set_iterate_callback(row_cb, &got);
    long long k = 0, e = 0, u = 0, n = 0; size_t lo = 0;
    for (size_t hi : cuts) {
      std::string f = vp::tmp("d.bin"); put_data(f, "bin", std::vector<Rec>(d.begin() + lo, d.begin() + hi));
      float r; { sol::pario::DataIter it(batch, buf); it.AddReader(f, "bin", 1); r = capi ? sol_Train(m.get(), &it) : m->Train(it); }
      for (size_t i = lo; i < hi; ++i) { ++k; e += ex[i].wrong; u += ex[i].update; n += ex[i].query; if (due(s, k)) want.push_back({k, t0 + n, u, double(e) / k}); }
      want.push_back({k, t0 + n, u, double(e) / k}); lo = hi;
      bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].data == want[i].data && got[i].iter == want[i].iter && got[i].update == want[i].update && same_err(got[i].err, want[i].err);
      std::string on = " on " + ::show(d).substr(0, 300) + " in calls ending at"; for (size_t x : cuts) on += vp::fmt(" %zu", x);
      if (!ok) return bad("report", "reports " + show_rows(got) + " instead of " + show_rows(want) + on);
      if (!same_err(r, double(e) / k)) return bad("error", vp::fmt("training returns %.7g instead of %.7g", r, double(e) / k) + on);
      if (om->cur_iter_num() != t0 + n || (long long)om->update_num() != u) return bad("counter", vp::fmt("the counters are %d and %lld instead of %lld and %lld", om->cur_iter_num(), (long long)om->update_num(), t0 + n, u) + on);
    }
    uint64_t h = vp::hash(who); for (auto& x : got) h = vp::mix(vp::mix(vp::mix(h, x.data), x.update), (uint64_t)std::llround(x.err * x.data)); vp::state(h);
    return true;
  }
};
static std::vector<Rec> alphabet(int C) {
  std::vector<Rec> a; std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, -0.5f}}, {{2, 1.f}, {3, 0.25f}}, {{1, -1.f}, {3, 2.f}}, {}, {{1, 0.5f}, {2, 1.f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.f = xs[i]; r.label = C == 2 ? (i % 2 ? -1 : 1) : (int)(i % C); a.push_back(r); }
  Rec r = a[0]; r.label = C == 2 ? -1 : 1; a.push_back(r);
  return a;
}
static void splits(size_t n, const std::function<void(const std::vector<size_t>&)>& fn) {    // all ways to cut n examples into non-empty calls
  for (size_t mask = 0; mask < (size_t(1) << (n - 1)); ++mask) { std::vector<size_t> c; for (size_t i = 1; i < n; ++i) if (mask >> (i - 1) & 1) c.push_back(i); c.push_back(n); fn(c); }
}
static void algorithms() {
  for (const char* a : ALGOS) for (int C : {2, 3}) {
    std::string A = a; bool bo = A == "perceptron" || A == "sop", hi = A == "alma2" || A == "cw" || A == "eccw" || A == "arow" || A == "sofs";
    std::vector<Conf> cs; Conf b{A, C, {{"bias_eta", "0.5"}}}; if (A == "sofs" || A == "pet" || A.find("ofs") != std::string::npos) b.p.push_back({"B", "2"}); if (A == "fofs") b.p.push_back({"lambda", "0.1"}); if (A == "stg" || A.find("-l1") != std::string::npos) b.p.push_back({"lambda", "0.02"});
    cs.push_back(b); { Conf c = b; c.p.push_back({"lazy_update", "true"}); cs.push_back(c); } { Conf c = b; c.p.push_back({"t", "5"}); cs.push_back(c); } for (const char* v : {"1e30", "1e-30"}) { Conf c = b; c.p.push_back({"active_smoothness", v}); cs.push_back(c); }
    if (!bo && !hi) { Conf c = b; c.p.push_back({"loss", C == 2 ? "logistic" : "uniform-hinge"}); cs.push_back(c); c = b; c.p.push_back({"loss", C == 2 ? "bool" : "maxscore-logistic"}); cs.push_back(c); }
    for (auto& c : cs) {
      if (!vp::take()) continue;
      int t0 = 0; for (auto& k : c.p) if (k.first == "t") t0 = atoi(k.second.c_str());
      vp::describe(c.show()); vp::sample(c.show() + ": all histories, all splits into calls");
      auto al = alphabet(C); bool ok = true; int nr = 0;
      Shown disp[] = {{'s', 1}, {0, 0}, {'s', 2}, {'e', 3}};
      vp::sequences((int)al.size(), 1, vp::thorough() ? 5 : vp::shallow() ? 2 : 3, [&](const std::vector<int>& q) {
        if (!ok) return; std::vector<Rec> d; for (int k : q) d.push_back(al[k]);
        auto ex = examples(c, d);
        splits(d.size(), [&](const std::vector<size_t>& cut) { if (!ok) return; Job j{c, disp[nr % 4], c.show() + ", " + show_s(disp[nr % 4])}; ok = j.go(d, cut, ex, 1 + nr % 3, 1 + nr % 2, t0, nr % 5 == 0); ++nr; });
      });
    }
  }
}
// long runs against every schedule
static void schedules() {
  static const Shown all[] = {{0, 0}, {'e', 2}, {'e', 3}, {'e', 4}, {'e', 5}, {'e', 6}, {'e', 7}, {'e', 8}, {'e', 9}, {'e', 10}, {'e', 11}, {'e', 12}, {'e', 13}, {'s', 1}, {'s', 2}, {'s', 3}, {'s', 5}, {'s', 7}, {'s', 10}, {'s', 64}, {'s', 1000}};
  for (const char* a : {"ogd", "perceptron", "pa1"}) for (int C : {2, 3}) for (auto s : all) {
    if (!vp::take()) continue;
    Conf c{a, C, {}}; Job j{c, s, c.show() + ", " + show_s(s)}; vp::describe(j.who); vp::sample(j.who + ": 1-1100 examples in up to 3 calls");
    auto al = alphabet(C); std::vector<Rec> d; for (int i = 0; i < 1100; ++i) { Rec r = al[(i * i + i / 7) % al.size()]; if (!r.f.empty()) r.f[0].second += (float)(i % 13) * 0.125f; d.push_back(r); }
    auto ex = examples(c, d); bool ok = true; int nr = 0;
    size_t top = vp::shallow() ? 12 : vp::thorough() ? 140 : 40;
    for (size_t n = 1; n <= top && ok; ++n) for (size_t x = 0; x < n && ok; ++x) {
      std::vector<size_t> cut; if (x) cut.push_back(x); if (x && n % 3 == 0 && x + 1 < n) cut.push_back(x + 1); cut.push_back(n); ok = j.go(d, cut, ex, 1 + nr % 5, 1 + nr % 3, 0, nr & 1); ++nr;
    }
    if (!vp::shallow()) for (std::vector<size_t> cut : std::vector<std::vector<size_t>>{{1100}, {255, 256, 257}, {512, 1024}, {1000}, {999, 1000, 1100}, {64, 729, 1024}}) if (ok) ok = j.go(d, cut, ex, 256, 2, 0, false);
  }
}
// passes and the table printed by the executable
static void tool() {
  if (vp::shallow()) return;
  for (int C : {2, 3}) for (int n : {1, 2, 3, 5, 16, 17, 40}) for (int pass : {1, 2, 3}) for (int k = 0; k < 3; ++k) {
    if (!vp::take()) continue;
    Conf c{k == 1 ? "perceptron" : "ogd", C, {}}; Shown s = k == 2 ? Shown{'s', 3} : Shown{0, 0}; std::string who = "sol_train, " + c.show() + vp::fmt(", %d records, %d passes, ", n, pass) + show_s(s); vp::describe(who); vp::sample(who); vp::progress(); vp::trace();
    auto al = alphabet(C); std::vector<Rec> d, all; for (int i = 0; i < n; ++i) d.push_back(al[(i * i + i / 3) % al.size()]); for (int i = 0; i < pass; ++i) all.insert(all.end(), d.begin(), d.end());
    auto ex = examples(c, all); std::string f = vp::tmp("d.svm"), o = vp::tmp("o"); put_data(f, "svm", d);
    int r = system((std::string(getenv("VP_BIN")) + "/sol_train -a " + c.algo + vp::fmt(" -c %d -p %d -b 4 ", C, pass) + (k == 2 ? "--params step_show=3 " : "") + f + " >" + o + " 2>/dev/null").c_str());
    if (r != 0) { vp::fail("C23:tool", who + " fails"); continue; }
    std::vector<Row> want, got; long long x = 0, e = 0, u = 0; for (auto& q : ex) { ++x; e += q.wrong; u += q.update; if (due(s, x)) want.push_back({x, x, u, double(e) / x}); } want.push_back({x, x, u, double(e) / x});
    std::istringstream is(vp::read_file(o)); std::string l; bool table = false; double acc = -1;
    while (std::getline(is, l)) {
      if (l.find("Data No.") == 0) { table = true; continue; }
      size_t p = l.find("accuracy:"); if (p != std::string::npos) { acc = atof(l.c_str() + p + 9); table = false; }
      Row w; std::istringstream ls(l); if (table && (ls >> w.data >> w.iter >> w.err >> w.update)) got.push_back(w);
    }
    bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].data == want[i].data && got[i].iter == want[i].iter && got[i].update == want[i].update && std::fabs(got[i].err - want[i].err) < 1e-5;
    if (!ok) { vp::fail("C23:tool", who + " prints " + show_rows(got) + " instead of " + show_rows(want)); continue; }
    if (std::fabs(acc - (1 - double(e) / x)) > 6e-5) vp::fail("C23:tool", who + vp::fmt(" reports an accuracy of %g instead of %g", acc, 1 - double(e) / x));
    vp::state(vp::hash(who));
  }
}
static void run() { algorithms(); schedules(); tool(); }
VP_MAIN(run)
