// C10: first-order learners follow their update rule on every example.
#include "reflearn.h"
static void run() {
  std::vector<Cfg> cfgs;
  auto add = [&](const std::string& a, std::vector<Params> ps) {
    for (auto& p : ps) {
      bool bin = p.count("_b"), mul = p.count("_m"); p.erase("_b"); p.erase("_m");
      for (int c : {2, 3}) { if ((c == 2 && mul) || (c == 3 && bin)) continue; cfgs.push_back({a, c, p}); }
    }
  };
  std::string B = "_b", M = "_m";
  add("perceptron", {{}, {{"bias_eta", "0.5"}}, {{"lazy_update", "true"}, {"bias_eta", "2"}}, {{M, ""}, {"loss", "uniform-bool"}, {"bias_eta", "1"}}, {{"t", "5"}, {"dim", "6"}, {"bias_eta", "1"}}, {{"active_smoothness", "1e9"}, {"bias_eta", "1"}}, {{"active_smoothness", "1e-12"}, {"bias_eta", "1"}}});
  add("ogd", {{}, {{"bias_eta", "0.5"}, {"eta", "0.3"}}, {{"power_t", "0"}, {"eta", "0.25"}, {"bias_eta", "1"}}, {{"power_t", "1"}, {"bias_eta", "1"}, {"t", "3"}}, {{"power_t", "0.25"}, {"bias_eta", "0.5"}}, {{"power_t", "1.5"}, {"t", "2"}},
              {{B, ""}, {"loss", "logistic"}, {"bias_eta", "0.5"}}, {{B, ""}, {"loss", "bool"}, {"bias_eta", "0.5"}}, {{B, ""}, {"cost_margin", "2.5"}, {"bias_eta", "0.5"}, {"eta", "0.5"}}, {{B, ""}, {"cost_margin", "0.5"}},
              {{M, ""}, {"loss", "uniform-hinge"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "maxscore-logistic"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-logistic"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "maxscore-bool"}}, {{M, ""}, {"loss", "uniform-bool"}},
              {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"eta", "0"}}, {{"active_smoothness", "1e9"}, {"eta", "0.5"}, {"bias_eta", "0.5"}}, {{"active_smoothness", "1e-12"}, {"eta", "0.5"}, {"bias_eta", "0.5"}}, {{"dim", "3"}, {"bias_eta", "0.5"}}});
  for (std::string a : {"pa", "pa1", "pa2"}) {
    add(a, {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {}, {{"bias_eta", "0.5"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{B, ""}, {"loss", "logistic"}, {"bias_eta", "0.5"}}, {{B, ""}, {"cost_margin", "2.5"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"bias_eta", "0.5"}}, {{"t", "4"}}});
    if (a != "pa") add(a, {{{"C", "0.2"}, {"bias_eta", "0.5"}}, {{"C", "5"}}, {{"C", "0.05"}, {"lazy_update", "true"}}});
  }
  add("alma2", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {}, {{"bias_eta", "0.5"}}, {{"alpha", "0.5"}, {"bias_eta", "0.5"}}, {{"alpha", "1"}}, {{"C", "0.4"}, {"alpha", "0.3"}, {"bias_eta", "1"}}, {{"p", "4"}, {"bias_eta", "0.5"}}, {{"k", "3"}, {"alpha", "0.6"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"alpha", "0.5"}}});
  bool T = vp::thorough();
  explore("C10", cfgs, T ? 5 : 4, T ? 8 : 6, false, false, false);
  explore_long("C10", cfgs, false, false);
  explore_products("C10", spaces(10), false, false);
}
VP_MAIN(run)
