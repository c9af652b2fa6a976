// C19: parameters are accepted, validated and reported faithfully.
#include "rec.h"
#include "datafile.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
#include <sol/loss/loss.h>
using sol::model::Model;
typedef std::map<std::string, std::string> Rep;   // what is reported
struct Val { std::string v; int ok; std::string rep; };   // rep: as reported
struct Param { std::string name, key; std::vector<Val> vals; bool shown; };
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static const char* NONSENSE[] = {"abc", "", "x1", "-", ".", "e5"};
enum Range { NONNEG, POS, UNIT, ANY };
static Param real(const std::string& n, Range r) {
  Param p{n, n, {}, true};
  for (const char* v : {"0.5", "1", "0.1", "0.001", "0.7654321", "1e-6"}) p.vals.push_back({v, 1, v});
  if (r != UNIT) for (const char* v : {"2", "2.5", "1000", "12345.678"}) p.vals.push_back({v, 1, v});
  if (r == NONNEG) { p.vals.push_back({"0", 1, "0"}); for (const char* v : {"-1", "-0.001", "-1e9"}) p.vals.push_back({v, 0, ""}); }
  if (r == POS) for (const char* v : {"0", "-1", "-0.001", "-1e9", "0.0"}) p.vals.push_back({v, 0, ""});
  if (r == UNIT) for (const char* v : {"0", "-0.5", "1.5", "1.0001", "7"}) p.vals.push_back({v, 0, ""});
  for (const char* v : NONSENSE) p.vals.push_back({v, 0, ""});
  for (const char* v : {"1e999", "-1e999"}) p.vals.push_back({v, 0, ""});
  return p;
}
static Param whole(const std::string& n, int lo, std::vector<int> good) {
  Param p{n, n, {}, true};
  for (int g : good) p.vals.push_back({vp::fmt("%d", g), 1, vp::fmt("%d", g)});
  if (lo > -1000) for (int b : {lo - 1, lo - 7, -2147483647}) p.vals.push_back({vp::fmt("%d", b), 0, ""});
  for (const char* v : NONSENSE) p.vals.push_back({v, 0, ""});
  for (const char* v : {"99999999999", "-99999999999", "1e", "123456789012345678901234567890"}) { if (!strcmp(v, "1e")) continue; p.vals.push_back({v, 0, ""}); }
  return p;
}
static bool l1(const std::string& a) { return a == "stg" || a == "fobos-l1" || a == "rda-l1" || a == "erda-l1" || a == "ada-fobos-l1" || a == "ada-rda-l1"; }
static bool pick(const std::string& a) { return a == "sofs" || a == "pet" || a == "adafobos-ofs" || a == "adarda-ofs"; }
static std::vector<Param> table(const std::string& a, int C) {
  std::vector<Param> T;
  T.push_back(real("bias_eta", NONNEG)); T.push_back(whole("t", 0, {0, 1, 7, 100000})); T.push_back(whole("dim", 0, {2, 5, 5, 9, 40}));
  Param lz{"lazy_update", "lazy_update", {{"true", 1, "true"}, {"false", 1, "false"}}, true}; T.push_back(lz);
  T.push_back(real("active_smoothness", POS)); T.back().shown = false;
  if (C == 2) { T.push_back(real("cost_margin", POS)); T.back().shown = false; }
  else { Param p{"cost_margin", "cost_margin", {{"1", 0, ""}, {"0", 0, ""}, {"abc", 0, ""}}, false}; T.push_back(p); }
  Param nm{"norm", "norm", {}, true};
  for (const char* v : {"None", "L1", "L2", "0", "1", "2"}) { int k = v[0] == 'N' ? 0 : v[0] == 'L' ? v[1] - '0' : v[0] - '0'; nm.vals.push_back({v, a != "alma2" || k == 2, vp::fmt("%d", k)}); }
  for (const char* v : {"3", "-1", "L3", "", "1x", "abc", "77", "none!", "99999999999"}) nm.vals.push_back({v, 0, ""});
  T.push_back(nm);
  Param ls{"loss", "loss", {}, true};
  bool bo = a == "perceptron" || a == "sop", hi = a == "alma2" || a == "cw" || a == "eccw" || a == "arow" || a == "sofs";
  struct L { const char* n; int cls; char fam; };
  for (L l : {L{"bool", 2, 'b'}, L{"hinge", 2, 'h'}, L{"logistic", 2, 'l'}, L{"maxscore-bool", 3, 'b'}, L{"uniform-bool", 3, 'b'}, L{"maxscore-hinge", 3, 'h'}, L{"uniform-hinge", 3, 'h'}, L{"maxscore-logistic", 3, 'l'}, L{"uniform-logistic", 3, 'l'}}) {
    bool ok = (l.cls == 2) == (C == 2) && (!bo || l.fam == 'b') && (!hi || l.fam == 'h');
    ls.vals.push_back({l.n, ok, l.n});
  }
  for (const char* v : {"square", "nosuch", "", "hinge_loss", "ogd", "svm", "bool "}) ls.vals.push_back({v, 0, ""});
  { std::string u = C == 2 ? (bo ? "BOOL" : "Hinge") : (bo ? "MaxScore-Bool" : "MAXSCORE-HINGE"); std::string lo = u; for (auto& c : lo) c = (char)tolower(c); ls.vals.push_back({u, 1, lo}); }
  T.push_back(ls);
  Param md{"model", "model", {{a, 1, a}, {"nosuch", 0, ""}, {"", 0, ""}, {a + "x", 0, ""}}, true}; T.push_back(md);
  Param cn{"cls_num", "cls_num", {}, true}, fn{"clf_num", "clf_num", {}, true};
  for (int v : {-1, 0, 1, 2, 3, 4}) { cn.vals.push_back({vp::fmt("%d", v), v == C, vp::fmt("%d", v)}); fn.vals.push_back({vp::fmt("%d", v), v == (C == 2 ? 1 : C), vp::fmt("%d", v)}); }
  for (const char* v : {"abc", "", "99999999999"}) { cn.vals.push_back({v, 0, ""}); fn.vals.push_back({v, 0, ""}); }
  T.push_back(cn); T.push_back(fn);
  for (const char* n : {"exp_show", "step_show"}) { Param p = whole(n, -100000, {1, 2, 10}); p.key = ""; p.shown = false; T.push_back(p); }
  Param fl{"filter", "", {{vp::tmp("no/such/file"), 0, ""}, {"", 0, ""}, {vp::tmp("good"), 1, ""}, {vp::tmp("empty"), 0, ""}, {vp::tmp("wrong"), 0, ""}}, false}; T.push_back(fl);
  auto add = [&](std::initializer_list<const char*> as, Param p) { for (const char* x : as) if (a == x) { T.push_back(p); return; } };
  add({"ogd", "stg", "fobos-l1", "pet", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"}, real("eta", NONNEG));
  add({"ogd", "stg", "fobos-l1", "pet"}, real("power_t", NONNEG));
  add({"pa1", "pa2", "alma2"}, real("C", ANY)); add({"alma2"}, real("alpha", UNIT)); add({"alma2"}, whole("p", -100000, {2, 3, 10})); add({"alma2", "stg"}, whole("k", 1, {1, 2, 9}));
  add({"sop", "cw", "eccw"}, real("a", ANY)); add({"cw", "eccw"}, real("phi", ANY)); add({"arow", "sofs"}, real("r", ANY));
  add({"rda", "rda-l1", "erda-l1"}, real("sigma", POS)); add({"erda-l1"}, real("rou", NONNEG));
  add({"ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs"}, real("delta", POS));
  add({"fofs"}, real("lambda", NONNEG));
  if (l1(a)) { T.push_back(real("lambda", ANY)); T.push_back(real("sparse_thresh", ANY)); }
  if (pick(a) || a == "fofs") { Param p = whole("B", 0, {0, 1, 2, 5, 20}); if (a != "fofs") { p.key = "lambda"; p.shown = true; } T.push_back(p); }
  return T;
}
static const char* ALLNAMES[] = {"eta", "power_t", "C", "alpha", "p", "k", "a", "phi", "r", "sigma", "rou", "delta", "lambda", "sparse_thresh", "B", "nosuch", "", "Eta", "ETA", "bias-eta", "bias_eta ", "online", "regularizer", "model_", "loss_"};
static void collect(void* u, const char* n, const char* v) { (*(Rep*)u)[n] = v; }
static Rep report(Model* m) { Rep r; sol_GetModelParameters(m, collect, &r); return r; }
static bool val_eq(const std::string& a, const std::string& b) {
  if (a == b) return true;
  char *e, *f; float x = strtof(a.c_str(), &e), y = strtof(b.c_str(), &f);
  return !a.empty() && !b.empty() && !*e && !*f && std::fabs((double)x - y) <= 5e-6 * std::fabs((double)y);   // reports carry six digits
}
static std::vector<Rec> data(int C) {
  std::vector<Rec> d; std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, 0.5f}}, {{1, 0.5f}, {3, -1.25f}}, {{2, -0.75f}, {4, 2.f}}, {{1, 1.f}, {6, 1.f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.label = C == 2 ? (i % 2 ? -1 : 1) : (int)(i * 2 % C); r.f = xs[i]; d.push_back(r); }
  return d;
}
static void iterate(Model* m, const std::vector<Rec>& d, size_t a, size_t b) {
  auto* om = dynamic_cast<sol::model::OnlineModel*>(m); std::vector<float> s(m->clf_num()); sol::pario::DataPoint dp;
  for (size_t i = a; i < b; ++i) { to_dp(d[i], dp); m->PreProcess(dp); om->Iterate(dp, s.data()); }
}
static std::vector<float> probe(Model* m) {
  std::vector<float> out, s(m->clf_num()); sol::pario::DataPoint dp;
  for (uint32_t i = 0; i < 8; ++i) { Rec r; r.label = 1; if (i) r.f.push_back({i, 1.f}); to_dp(r, dp); m->Predict(dp, s.data()); out.insert(out.end(), s.begin(), s.end()); }
  return out;
}
static bool same_bits(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(float)); }
struct T {
  std::string algo; int C; std::string who;
  void bad(const std::string& k, const std::string& m) { vp::fail("C19:" + algo + ":" + k, who + ": " + m); }
  // sets through the C++ or C interface; 1 accepted, 0 refused
  int set(Model* m, const std::string& n, const std::string& v, bool capi) {
    vp::step();
    try {
      if (capi) return sol_SetModelParameter(m, n.c_str(), v.c_str()) == 0;
      m->SetParameter(n, v); return 1;
    } catch (std::exception&) { if (capi) { bad("exception", n + "=" + v + " through the C interface ended in an exception"); } return 0; }
  }
  // apply one setting and compare with the expected report
  bool apply(Model* m, const Param& p, const Val& v, Rep& want, bool capi, const std::string& hist) {
    std::vector<float> before = probe(m);
    int ok = set(m, p.name, v.v, capi);
    std::string what = hist + p.name + "=\"" + v.v + "\"";
    if (ok != v.ok) { bad(v.ok ? "refused" : "accepted", what + (v.ok ? " is refused" : " is accepted")); return false; }
    if (ok && !p.key.empty()) {
      std::string k = p.key, val = v.rep;
      if (k == "dim") { if (atoi(val.c_str()) > atoi(want["dim"].c_str())) want["dim"] = val; }
      else want[k] = val;
    }
    Rep got = report(m);
    for (auto& w : want) { if (!got.count(w.first)) { bad("report", what + ": " + w.first + " is not reported"); return false; } if (!val_eq(got[w.first], w.second)) { bad(ok ? "report" : "kept", what + ": " + w.first + " is reported as " + got[w.first] + ", not " + w.second); return false; } }
    for (auto& g : got) if (!want.count(g.first)) { bad("report", what + ": " + g.first + "=" + g.second + " appears in the report"); return false; }
    if (!ok && !same_bits(before, probe(m))) { bad("kept", what + " was refused but changed the predictions"); return false; }
    uint64_t h = vp::hash(who); for (auto& g : got) h = vp::mix(h, vp::hash(g.first + "=" + g.second)); vp::state(vp::mix(h, ok));
    return true;
  }
};
// the state a setting leaves behind is a working one: training, testing, saving go on
static void quiet_cb(void*, long long, long long, long long, double) {}
static void run() {
  vp::write_file(vp::tmp("good"), "# list\n1\n3\n"); vp::write_file(vp::tmp("empty"), "# nothing\n"); vp::write_file(vp::tmp("wrong"), "1\nabc\n");
  for (const char* a : ALGOS) for (int C : {2, 3}) {
    auto Tb = table(a, C); T t{a, C, std::string(a) + vp::fmt(" %d classes", C)}; auto d = data(C);
    auto make = [&]() { std::unique_ptr<Model> m(Model::Create(a, C)); if (!m) { t.bad("create", "cannot be created"); throw vp::Stop(); } dynamic_cast<sol::model::OnlineModel*>(m.get())->set_iterate_callback(quiet_cb, nullptr); return m; };
    for (size_t i = 0; i < Tb.size(); ++i) {
      if (!vp::take()) continue;
      vp::describe(t.who + " " + Tb[i].name); vp::sample(t.who + ": " + Tb[i].name + vp::fmt(" set to each of %zu values, then every parameter to every value", Tb[i].vals.size()));
      auto defaults = [&](Model* m) { Rep r = report(m); for (auto& p : Tb) if (p.shown && !r.count(p.key)) t.bad("report", p.key + " is not reported"); if (r["model"] != a || r["cls_num"] != vp::fmt("%d", C)) t.bad("report", "reports model " + r["model"] + " with " + r["cls_num"] + " classes"); return r; };
      for (auto& v : Tb[i].vals) for (int capi = 0; capi < 2; ++capi) {
        vp::progress();
        { auto m = make(); Rep want = defaults(m.get()); if (!t.apply(m.get(), Tb[i], v, want, capi, "new model, ")) continue; vp::trace();
          // a refused setting must leave no trace in training either
          if (!v.ok) {
            auto n = make(); m->BeginTrain(); n->BeginTrain(); iterate(m.get(), d, 0, 4); iterate(n.get(), d, 0, 4);
            if (!same_bits(probe(m.get()), probe(n.get()))) { t.bad("kept", Tb[i].name + "=\"" + v.v + "\" was refused but changes what is learned"); continue; }
          }
        }
        // in the middle of training
        { auto m = make(); m->BeginTrain(); iterate(m.get(), d, 0, 2); m->EndTrain(); Rep want = report(m.get());
          if (!t.apply(m.get(), Tb[i], v, want, capi, "after two examples, ")) continue; vp::trace();
          if (!v.ok) {
            auto n = make(); n->BeginTrain(); iterate(n.get(), d, 0, 2); n->EndTrain(); iterate(m.get(), d, 2, 4); iterate(n.get(), d, 2, 4); m->EndTrain(); n->EndTrain();
            if (!same_bits(probe(m.get()), probe(n.get()))) { t.bad("kept", "after two examples, " + Tb[i].name + "=\"" + v.v + "\" was refused but changes what is learned"); continue; }
          }
        }
        // a setting made once training has been prepared counts like one made before
        if (v.ok && Tb[i].name != "active_smoothness" && !vp::shallow()) {
          auto m = make(), n = make();
          t.set(m.get(), Tb[i].name, v.v, capi); try { m->BeginTrain(); } catch (std::exception&) {} n->BeginTrain(); t.set(n.get(), Tb[i].name, v.v, capi); 
          auto go = [&](Model* x) { std::string f = vp::tmp("e.svm"); static int cls2 = 0; if (cls2 != C) { put_data(f, "svm", d); cls2 = C; } sol::pario::DataIter it(2, 2); it.AddReader(f, "svm", 2); try { x->Train(it); x->EndTrain(); } catch (std::exception&) {} };
          go(m.get()); go(n.get());
          if (!same_bits(probe(m.get()), probe(n.get()))) { t.bad("effect", Tb[i].name + "=\"" + v.v + "\" set after training was prepared does not act as if set before"); continue; }
        }
        // goes on working: train by the iterator, change, train, test, save
        if (capi == 0 && !vp::shallow()) {
          std::string f = vp::tmp("d.svm"); static int cls = 0; if (cls != C) { put_data(f, "svm", d); cls = C; }
          auto m = make(); float e = 0; std::string text; (void)e;
          { sol::pario::DataIter it(2, 2); it.AddReader(f, "svm", 1); m->Train(it); }
          t.set(m.get(), Tb[i].name, v.v, false);
          { sol::pario::DataIter it(2, 2); it.AddReader(f, "svm", 2); m->Train(it); }
          { sol::pario::DataIter it(2, 2); it.AddReader(f, "svm", 1); e = m->Test(it, nullptr); }
          if (!(e >= 0 && e <= 1)) t.bad("test", Tb[i].name + "=\"" + v.v + "\" between two trainings: the test error is " + vp::fmt("%g", e));
          if (m->Save(vp::tmp("m")) != 0) t.bad("save", "cannot be saved after " + Tb[i].name + "=\"" + v.v + "\"");
        }
      }
      // pairs of settings; the first one is every value of this parameter
      size_t step = vp::thorough() ? 1 : vp::shallow() ? 7 : 2;
      for (auto& v : Tb[i].vals) {
        if (Tb[i].name == "dim" && atoi(v.v.c_str()) > 1000) continue;
        for (size_t j = 0; j < Tb.size(); ++j) for (size_t k = 0; k < Tb[j].vals.size(); k += (Tb[j].vals.size() > 8 ? step : 1)) {
          auto& w = Tb[j].vals[k]; vp::progress();
          auto m = make(); Rep want = report(m.get());
          if (!t.apply(m.get(), Tb[i], v, want, false, "")) break;
          if (!t.apply(m.get(), Tb[j], w, want, k & 1, Tb[i].name + "=\"" + v.v + "\", ")) break;
          vp::trace();
        }
      }
    }
    // names that do not belong to the algorithm
    if (vp::take()) {
      vp::describe(t.who + " unknown names");
      for (const char* n : ALLNAMES) {
        bool mine = false; for (auto& p : Tb) if (p.name == n || (pick(a) && !strcmp(n, "lambda"))) mine = true;
        if (mine) continue;
        for (const char* v : {"1", "0.5", "true", "abc", ""}) for (int capi = 0; capi < 2; ++capi) {
          vp::progress(); auto m = make(); Rep want = report(m.get()); Param p{n, n, {}, true}; t.apply(m.get(), p, Val{v, 0, ""}, want, capi, ""); vp::trace();
        }
      }
    }
  }
  // names in any letter case, unknown names, class counts
  if (vp::take()) {
    vp::describe("names");
    auto cased = [](std::string s, int k) { for (size_t i = 0; i < s.size(); ++i) if (k == 0 || (k == 1 && i == 0) || (k == 2 && i % 2)) s[i] = (char)toupper(s[i]); return s; };
    for (const char* a : ALGOS) for (int k = 0; k < 4; ++k) for (int C = -2; C <= 6; ++C) {
      vp::progress(); vp::step(); vp::trace();
      std::string n = cased(a, k);
      std::unique_ptr<Model> m(C % 2 ? Model::Create(n, C) : (Model*)sol_CreateModel(n.c_str(), C));
      if ((m != nullptr) != (C >= 2)) { vp::fail("C19:create", n + vp::fmt(" with %d classes ", C) + (m ? "is accepted" : "is refused")); continue; }
      if (!m) continue;
      if (m->class_num() != C || m->clf_num() != (C == 2 ? 1 : C) || m->name() != a) vp::fail("C19:create", n + vp::fmt(": a model %s with %d classes", m->name().c_str(), m->class_num()));
    }
    for (const char* n : {"", "nosuch", "ogd ", " ogd", "ogd_model", "hinge", "svm", "pa3", "og", "ogdd", "_model"}) for (int C : {2, 3}) {
      vp::step(); std::unique_ptr<Model> m(Model::Create(n, C)), k((Model*)sol_CreateModel(n, C));
      if (m || k) vp::fail("C19:create", std::string("the algorithm name \"") + n + "\" is accepted");
    }
    for (const char* l : {"bool", "hinge", "logistic", "square", "maxscore-bool", "uniform-bool", "maxscore-hinge", "uniform-hinge", "maxscore-logistic", "uniform-logistic"}) for (int k = 0; k < 4; ++k) {
      vp::step(); std::unique_ptr<sol::loss::Loss> x(sol::loss::Loss::Create(cased(l, k))); if (!x || x->name() != l) vp::fail("C19:loss", "loss " + cased(l, k) + " is not found");
    }
    for (const char* l : {"", "nosuch", "hinge ", "ogd", "svm"}) { vp::step(); std::unique_ptr<sol::loss::Loss> x(sol::loss::Loss::Create(l)); if (x) vp::fail("C19:loss", std::string("the loss name \"") + l + "\" is accepted"); }
    std::string f = vp::tmp("n.svm"); vp::write_file(f, "1 1:1\n");
    for (const char* l : {"svm", "csv", "bin", "numpy", "csr_matrix"}) for (int k = 0; k < 4; ++k) {
      vp::step(); std::unique_ptr<sol::pario::DataReader> x(sol::pario::DataReader::Create(cased(l, k))); if (!x) vp::fail("C19:format", "format " + cased(l, k) + " is not found");
      if (strlen(l) == 3) { std::unique_ptr<sol::pario::DataWriter> w(sol::pario::DataWriter::Create(cased(l, k))); if (!w) vp::fail("C19:format", "no writer for format " + cased(l, k)); }
      if (!strcmp(l, "svm")) { sol::pario::DataIter it(2, 2); if (it.AddReader(f, cased(l, k), 1) != 0) vp::fail("C19:format", "format " + cased(l, k) + " is refused by the iterator"); sol::pario::MiniBatch* mb = nullptr; int n = 0; while ((mb = it.Next(mb)) != nullptr) n += mb->size(); if (n != 1) vp::fail("C19:format", "format " + cased(l, k) + " is not read"); }
    }
    for (const char* l : {"", "nosuch", "svm ", "ogd"}) {
      vp::step(); std::unique_ptr<sol::pario::DataReader> x(sol::pario::DataReader::Create(l)); std::unique_ptr<sol::pario::DataWriter> w(sol::pario::DataWriter::Create(l));
      sol::pario::DataIter it(2, 2); if (x || w || it.AddReader(f, l, 1) == 0) vp::fail("C19:format", std::string("the format name \"") + l + "\" is accepted");
    }
  }
  // the executable
  if (!vp::shallow()) {
    std::string f = vp::tmp("x.svm"), m = vp::tmp("x.model"); put_data(f, "svm", data(2));
    auto tool = [&](const std::string& args, int want, const std::string& what) {
      vp::step(); vp::trace(); vp::progress(); unlink(m.c_str());
      int r = system((std::string(getenv("VP_BIN")) + "/sol_train " + args + " " + f + " " + m + " >/dev/null 2>&1").c_str());
      bool clean = WIFEXITED(r) && WEXITSTATUS(r) < 100; bool ok = clean && WEXITSTATUS(r) == 0;
      vp::state(vp::mix(vp::hash(args), r));
      if (!clean) vp::fail("C19:tool", "sol_train " + args + " crashes");
      else if (ok != (want != 0)) vp::fail("C19:tool", "sol_train " + args + (ok ? " succeeds" : " fails"));
      else if (!ok && access(m.c_str(), F_OK) == 0) vp::fail("C19:tool", "sol_train " + args + " fails but writes a model");
    };
    for (const char* a : ALGOS) {
      if (!vp::take()) continue;
      vp::describe(std::string("sol_train -a ") + a);
      tool(std::string("-a ") + a, 1, ""); tool(std::string("-a ") + a + " -c 1", 0, ""); tool(std::string("-a ") + a + "x", 0, "");
      for (auto& p : table(a, 2)) for (auto& v : p.vals) {
        if (v.v.find_first_of(" '") != std::string::npos || v.v.empty()) continue;
        bool ends = &v == &p.vals.front() || !v.ok; if (!ends) continue;
        if (!vp::thorough() && p.name != "eta" && p.name != "t" && p.name != "loss" && p.name != "norm" && p.name != "B" && p.name != "bias_eta" && p.name != "lambda" && p.name != "delta" && p.name != "k") continue;
        tool(std::string("-a ") + a + " --params '" + p.name + "=" + v.v + "'", v.ok, "");
      }
      tool(std::string("-a ") + a + " --params 'bias_eta=0.5;nosuch=1'", 0, ""); tool(std::string("-a ") + a + " --params 'bias_eta'", 0, ""); tool(std::string("-a ") + a + " --params 'bias_eta = 0.5 ; t = 3'", 1, "");
    }
  }
}
VP_MAIN(run)
