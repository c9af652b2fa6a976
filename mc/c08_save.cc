// C08: a saved model restores to the same classifier, and training goes on as without the save.
#include "reflearn.h"
#include "datafile.h"
#include <sol/c_api.h>
static std::vector<Cfg> configs() {
  std::vector<Cfg> cfgs;
  auto add = [&](const std::string& a, std::vector<Params> ps) {
    for (auto& p : ps) {
      bool bin = p.count("_b"), mul = p.count("_m"); p.erase("_b"); p.erase("_m");
      for (int c : {2, 3}) { if ((c == 2 && mul) || (c == 3 && bin)) continue; cfgs.push_back({a, c, p}); }
    }
  };
  std::string B = "_b", M = "_m";
  add("perceptron", {{}, {{"lazy_update", "true"}, {"bias_eta", "2"}}, {{M, ""}, {"loss", "uniform-bool"}, {"bias_eta", "1"}}, {{"t", "5"}, {"dim", "6"}, {"bias_eta", "1"}}, {{"active_smoothness", "1e9"}, {"bias_eta", "1"}}});
  add("ogd", {{}, {{"bias_eta", "0.5"}, {"eta", "0.3"}}, {{"power_t", "0"}, {"eta", "0.25"}, {"bias_eta", "1"}}, {{"power_t", "1.5"}, {"t", "2"}}, {{B, ""}, {"loss", "logistic"}, {"bias_eta", "0.5"}}, {{B, ""}, {"cost_margin", "2.5"}, {"bias_eta", "0.5"}, {"eta", "0.5"}}, {{M, ""}, {"loss", "uniform-logistic"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "maxscore-bool"}}});
  add("pa", {{{"bias_eta", "0.5"}}, {{"lazy_update", "true"}}});
  add("pa1", {{{"C", "0.2"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}}});
  add("pa2", {{{"C", "0.3"}, {"bias_eta", "0.5"}}});
  add("alma2", {{{"bias_eta", "0.5"}}, {{"C", "0.4"}, {"alpha", "0.3"}, {"bias_eta", "1"}}, {{"p", "4"}, {"bias_eta", "0.5"}, {"alpha", "0.5"}}, {{"k", "3"}, {"alpha", "0.6"}}});
  add("sop", {{{"bias_eta", "0.5"}}, {{"a", "0.25"}, {"t", "3"}}, {{M, ""}, {"loss", "uniform-bool"}, {"bias_eta", "1"}}});
  for (std::string a : {"cw", "eccw"}) add(a, {{{"bias_eta", "0.5"}}, {{"a", "4"}, {"phi", "0.3"}}, {{"dim", "6"}, {"a", "0.5"}, {"lazy_update", "true"}, {"bias_eta", "0.25"}}});
  add("arow", {{{"bias_eta", "0.5"}}, {{"r", "0.2"}, {"bias_eta", "1"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"bias_eta", "0.5"}}, {{B, ""}, {"cost_margin", "2.5"}, {"bias_eta", "0.5"}}});
  add("stg", {{{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}}, {{"lambda", "0.3"}, {"power_t", "0"}, {"eta", "0.4"}, {"k", "2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"t", "4"}, {"bias_eta", "1"}}});
  add("fobos-l1", {{{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"t", "4"}, {"dim", "7"}, {"bias_eta", "1"}}});
  add("rda", {{{"sigma", "3"}, {"bias_eta", "0.5"}}, {{"t", "3"}, {"bias_eta", "1"}}});
  add("rda-l1", {{{"lambda", "0.2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.05"}, {"sigma", "3"}}});
  add("erda-l1", {{{"lambda", "0.2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.05"}, {"sigma", "3"}, {"rou", "0.1"}}});
  add("ada-fobos", {{{"delta", "1"}, {"bias_eta", "0.5"}}, {{"delta", "0.1"}, {"eta", "0.4"}, {"bias_eta", "1"}}});
  add("ada-fobos-l1", {{{"lambda", "0.1"}, {"delta", "0.5"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"t", "4"}, {"bias_eta", "1"}}});
  add("ada-rda", {{{"delta", "1"}, {"bias_eta", "0.5"}}, {{"delta", "0.1"}, {"eta", "0.4"}, {"bias_eta", "1"}}});
  add("ada-rda-l1", {{{"lambda", "0.1"}, {"delta", "0.5"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"t", "4"}, {"bias_eta", "1"}}});
  for (std::string b : {"0", "2"}) {
    add("sofs", {{{"bias_eta", "0.5"}, {"r", "0.3"}, {"B", b}}});
    add("pet", {{{"bias_eta", "0.5"}, {"power_t", "0"}, {"eta", "0.6"}, {"B", b}}});
    add("fofs", {{{"eta", "0.5"}, {"lambda", "0.4"}, {"bias_eta", "0.5"}, {"B", b}}});
    add("adafobos-ofs", {{{"delta", "0.2"}, {"bias_eta", "0.5"}, {"eta", "0.4"}, {"B", b}}});
    add("adarda-ofs", {{{"delta", "0.2"}, {"bias_eta", "0.5"}, {"eta", "0.4"}, {"B", b}}});
  }
  return cfgs;
}
// all histories with save (and restore) points in them
static void histories(const std::vector<Cfg>& cfgs) {
  bool T = vp::thorough();
  for (auto& cfg : cfgs) for (int narrow = 0; narrow < 2; ++narrow) {
    auto A = cfg.classes == 2 ? binary_alphabet(!narrow) : multi_alphabet(cfg.classes, !narrow);
    int len = vp::shallow() ? 2 : narrow ? (T ? 6 : 5) : (T ? 4 : 3);
    for (int first = -1; first < (int)A.size(); ++first) {
      if (!vp::take()) continue;
      vp::describe(cfg.show()); vp::sample(cfg.show() + vp::fmt(", all histories of up to %d of %d examples, saves and restores starting with %s", len, (int)A.size(), first < 0 ? "a restore" : ::show(A[first]).c_str()));
      vp::sequences((int)A.size() + 2, 1, len - 1, [&](const std::vector<int>& s) {
        std::vector<int> q = {first < 0 ? -2 : first}; int saves = first < 0, last = 0;
        for (int i : s) { q.push_back(i < 2 ? i - 3 : i - 2); if (i < 2) { ++saves; if (last) saves = 9; } last = i < 2; }
        if (!saves || saves > 2 || q.back() == -3) return;
        vp::progress();
        Run r("C08", cfg, A, q); r.go(false);
      });
    }
  }
}
typedef std::vector<std::vector<float>> Scores;
static Scores scores(sol::model::Model* m, const std::vector<Rec>& P) {
  Scores out; sol::pario::DataPoint dp; std::vector<float> s(m->clf_num());
  for (auto& r : P) { to_dp(r, dp); m->Predict(dp, s.data()); out.push_back(s); }
  return out;
}
static std::vector<Rec> probes(uint32_t dim) {
  std::vector<Rec> P; Rec e; e.label = 1; P.push_back(e);
  for (uint32_t i = 1; i <= dim; ++i) { Rec r; r.label = 1; r.f.push_back({i, 1.f}); P.push_back(r); }
  return P;
}
static void quiet_cb(void*, long long, long long, long long, double) {}
// models trained by Train (finalisation still pending when saved), wide models, many classes, extreme values
static void trained(const std::vector<Cfg>& cfgs) {
  struct Data { const char* what; std::vector<Rec> d; uint32_t dim; };
  for (auto& cfg0 : cfgs) for (int kind = 0; kind < 6; ++kind) {
    Cfg cfg = cfg0; if (kind == 3 && cfg.classes > 2) cfg.classes = 12;
    if (vp::shallow() && kind > 1) continue;
    if (!vp::take()) continue;
    std::vector<Rec> d; uint32_t dim = 6; int C = cfg.classes;
    auto rec = [&](int y, std::vector<std::pair<uint32_t, float>> f) { Rec r; r.label = C == 2 ? (y % 2 ? 1 : -1) : y % C; r.f = f; d.push_back(r); };
    switch (kind) {
      case 0: rec(1, {{1, 1.f}, {2, 0.5f}}); rec(0, {{1, 0.5f}, {3, -1.f}}); rec(1, {{2, -0.75f}, {5, 2.f}}); rec(2, {{1, 1.f}}); rec(0, {{4, 1.5f}, {6, 0.25f}}); break;
      case 1: rec(1, {{3, 2.f}}); break;
      case 2: dim = 3000; for (int i = 0; i < 12; ++i) rec(i, {{(uint32_t)(1 + i), 0.3f * (i + 1)}, {(uint32_t)(20 + 200 * i), 1.f / (i + 3)}, {(uint32_t)(2500 + i * 40), -0.1f}}); break;
      case 3: for (int i = 0; i < 30; ++i) rec(i * 7 + i / 3, {{(uint32_t)(1 + i % 6), 1.f + 0.1f * i}, {(uint32_t)7, 0.37f * (i % 5)}}); dim = 7; break;
      case 4: rec(1, {{1, 1e-4f}, {2, 1234.567f}}); rec(0, {{1, 3e-5f}, {3, 0.1f}}); rec(1, {{2, 1.f / 3}, {4, 7e3f}}); rec(2, {{5, 1e-3f}}); break;
      case 5: break;   // never trained
    }
    vp::describe(cfg.show() + vp::fmt(" data kind %d", kind)); vp::sample(cfg.show() + vp::fmt(" trained on %d records, saved without finalising", (int)d.size()));
    std::string f = vp::tmp("t.svm"), m1 = vp::tmp("t1"), m2 = vp::tmp("t2"); put_data(f, "svm", d);
    for (int passes = 1; passes <= 2; ++passes) for (int api = 0; api < 2; ++api) {
      auto bad = [&](const char* key, const std::string& msg) { vp::fail(std::string("C08:") + cfg.algo + ":" + key, cfg.show() + vp::fmt(" trained on data set %d, %d passes: ", kind, passes) + msg); };
      auto make = [&]() {
        std::unique_ptr<sol::model::Model> m(sol::model::Model::Create(cfg.algo, cfg.classes));
        for (auto& k : cfg.p) m->SetParameter(k.first, k.second);
        dynamic_cast<sol::model::OnlineModel*>(m.get())->set_iterate_callback(quiet_cb, nullptr);
        if (kind < 5) { sol::pario::DataIter it(2, 2); it.AddReader(f, "svm", passes); m->Train(it); }
        return m;
      };
      vp::progress(); vp::step(); vp::trace();
      auto twin = make(); if (kind < 5) twin->EndTrain();
      auto P = probes(dim + 2);
      Scores want = scores(twin.get(), P);
      bool finite = true; for (auto& v : want) for (float x : v) if (!std::isfinite(x)) finite = false;
      if (!finite) { vp::extra("not_finite_skipped", 1); continue; }
      auto m = make();
      unlink(m1.c_str()); unlink(m2.c_str());
      int st = api ? sol_SaveModel(m.get(), m1.c_str()) : m->Save(m1);
      if (st != 0) { bad("save", "the model cannot be saved"); continue; }
      Scores after = scores(m.get(), P);
      if (after != want) { bad("save-changes", "the saved model's predictions differ from those of the finished model"); continue; }
      std::unique_ptr<sol::model::Model> r(api ? (sol::model::Model*)sol_RestoreModel(m1.c_str()) : sol::model::Model::Load(m1));
      if (!r) { bad("restore", "the saved model cannot be restored"); continue; }
      Scores got = scores(r.get(), P); uint64_t h = vp::hash(cfg.show());
      bool ok = true;
      for (size_t i = 0; i < P.size() && ok; ++i) for (size_t c = 0; c < got[i].size() && ok; ++c) {
        double lim = 6e-6 * (std::fabs(want[i][c] - (double)want[0][c]) + 2 * std::fabs((double)want[0][c])) + 1e-12;
        h = vp::mix(h, (uint64_t)(int64_t)std::llround(want[i][c] * 1e4));
        if (std::fabs((double)got[i][c] - want[i][c]) > lim) { bad("restored-weight", vp::fmt("class %zu scores {%s} as %.9g, restored %.9g", c, ::show(P[i]).c_str(), want[i][c], got[i][c])); ok = false; }
      }
      if (!ok) continue;
      vp::state(h);
      if (r->model_info() != m->model_info()) { bad("info", "the restored model reports " + r->model_info() + " instead of " + m->model_info()); continue; }
      float sa = r->model_sparsity(), sb = twin->model_sparsity();
      if (!(sa == sb || (std::isnan(sa) && std::isnan(sb)))) { bad("restored-sparsity", vp::fmt("sparsity is %.9g, restored %.9g", sb, sa)); continue; }
      if ((api ? sol_SaveModel(r.get(), m2.c_str()) : r->Save(m2)) != 0 || vp::read_file(m1) != vp::read_file(m2)) { bad("resave", "saving the restored model gives another file"); continue; }
      // training goes on as if there had been no save
      std::vector<Rec> more(d.rbegin(), d.rend()); if (more.empty()) { Rec x; x.label = 1; x.f = {{2, 1.f}, {4, -0.5f}}; more = {x, x}; more[1].label = C == 2 ? -1 : 0; }
      std::string g = vp::tmp("more.svm"); put_data(g, "svm", more); size_t u0 = twin->update_num(), u1 = m->update_num(); if (auto* ro = dynamic_cast<sol::model::OnlineModel*>(r.get())) ro->set_iterate_callback(quiet_cb, nullptr);
      for (auto* x : {twin.get(), m.get(), r.get()}) { sol::pario::DataIter it(2, 2); it.AddReader(g, "svm", 1); x->Train(it); vp::step(more.size()); if (x->model_updated()) x->EndTrain(); }
      if (scores(m.get(), P) != scores(twin.get(), P) || m->update_num() - u1 != twin->update_num() - u0) { bad("goes-on", "training after the save gives another model than without it"); continue; }
      if (m->model_info() != r->model_info()) { bad("goes-on", "after more training the restored model reports " + r->model_info() + " instead of " + m->model_info()); continue; }
    }
  }
}
// every parameter, with values that need all digits, survives
static void parameters() {
  struct P { const char* algo; const char* name; bool whole; };
  static const P ps[] = {{"ogd", "bias_eta", 0}, {"ogd", "t", 1}, {"ogd", "dim", 1}, {"ogd", "active_smoothness", 0}, {"ogd", "cost_margin", 0}, {"ogd", "eta", 0}, {"ogd", "power_t", 0}, {"pa1", "C", 0}, {"pa2", "C", 0}, {"alma2", "alpha", 0}, {"alma2", "C", 0}, {"alma2", "p", 1}, {"alma2", "k", 1}, {"sop", "a", 0}, {"cw", "a", 0}, {"cw", "phi", 0}, {"eccw", "a", 0}, {"eccw", "phi", 0}, {"arow", "r", 0}, {"sofs", "B", 1}, {"sofs", "r", 0}, {"stg", "k", 1}, {"stg", "lambda", 0}, {"stg", "sparse_thresh", 0}, {"fobos-l1", "lambda", 0}, {"fobos-l1", "sparse_thresh", 0}, {"pet", "B", 1}, {"rda", "sigma", 0}, {"rda-l1", "lambda", 0}, {"rda-l1", "sparse_thresh", 0}, {"erda-l1", "rou", 0}, {"erda-l1", "lambda", 0}, {"ada-fobos", "delta", 0}, {"ada-fobos", "eta", 0}, {"ada-fobos-l1", "lambda", 0}, {"ada-fobos-l1", "sparse_thresh", 0}, {"adafobos-ofs", "B", 1}, {"ada-rda", "delta", 0}, {"ada-rda", "eta", 0}, {"ada-rda-l1", "lambda", 0}, {"adarda-ofs", "B", 1}, {"fofs", "B", 1}, {"fofs", "eta", 0}, {"fofs", "lambda", 0}, {"ogd", "norm", 1}, {"ogd", "lazy_update", 1}};
  static const char* reals[] = {"0.1", "0.333333343", "0.99999994", "1.23456789e-30", "1e-7", "0.000123456789", "0.5", "0.7", "0.25", "1"};
  static const char* wholes[] = {"1", "2", "3", "17", "1000", "54321"};
  for (auto& p : ps) {
    if (!vp::take()) continue;
    std::vector<std::string> vals; if (p.whole) vals.assign(wholes, wholes + 6); else vals.assign(reals, reals + 10);
    if (!strcmp(p.name, "norm")) vals = {"0", "1", "2", "None", "L1", "L2"};
    if (!strcmp(p.name, "lazy_update")) vals = {"true", "false"};
    for (int C : {2, 3}) for (auto& v : vals) {
      if (!strcmp(p.name, "cost_margin") && C == 3) continue;
      std::unique_ptr<sol::model::Model> m(sol::model::Model::Create(p.algo, C));
      vp::progress(); vp::step(); vp::trace();
      try { m->SetParameter(p.name, v); } catch (std::exception& e) { vp::fail(std::string("C08:") + p.algo + ":parameter", std::string(p.name) + "=" + v + " refused: " + e.what()); continue; }
      std::string f = vp::tmp("p");
      if (m->Save(f) != 0) { vp::fail(std::string("C08:") + p.algo + ":save", std::string(p.name) + "=" + v + ": the model cannot be saved"); continue; }
      std::unique_ptr<sol::model::Model> r(sol::model::Model::Load(f));
      if (!r) { vp::fail(std::string("C08:") + p.algo + ":restore", std::string(p.name) + "=" + v + ": the saved model cannot be restored"); continue; }
      if (r->model_info() != m->model_info()) vp::fail(std::string("C08:") + p.algo + ":info", std::string(p.name) + "=" + v + ": the restored model reports " + r->model_info() + " instead of " + m->model_info());
      vp::state(vp::hash(m->model_info()));
    }
  }
}
static void run() { auto c = configs(); histories(c); trained(c); parameters(); for (int g : {10, 11, 12, 13}) explore_products("C08", spaces(g), false, true); }
VP_MAIN(run)
