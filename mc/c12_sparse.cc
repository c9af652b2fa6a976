// C12: sparse learners apply exactly the regularised update of their algorithm.
#include "reflearn.h"
static void run() {
  std::vector<Cfg> cfgs;
  auto add = [&](const std::string& a, std::vector<Params> ps) {
    for (auto& p : ps) {
      bool bin = p.count("_b"), mul = p.count("_m"); p.erase("_b"); p.erase("_m");
      for (int c : {2, 3}) { if ((c == 2 && mul) || (c == 3 && bin)) continue; cfgs.push_back({a, c, p}); }
    }
  };
  std::string B = "_b", M = "_m";
  add("stg", {{}, {{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}}, {{"lambda", "0.3"}, {"power_t", "0"}, {"eta", "0.4"}, {"k", "2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.2"}, {"k", "3"}}, {{"lambda", "0.1"}, {"t", "4"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"dim", "7"}, {"power_t", "0"}, {"eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"lambda", "0.1"}, {"power_t", "0"}}, {{"lambda", "0.1"}, {"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("fobos-l1", {{}, {{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}}, {{"lambda", "0.3"}, {"power_t", "0"}, {"eta", "0.4"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"t", "4"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"dim", "7"}, {"power_t", "0"}, {"eta", "0.5"}}, {{B, ""}, {"loss", "logistic"}, {"lambda", "0.1"}, {"power_t", "0"}}, {{"lambda", "0.1"}, {"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"power_t", "0"}, {"eta", "0.5"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("rda", {{}, {{"sigma", "3"}, {"bias_eta", "0.5"}}, {{"t", "3"}, {"bias_eta", "1"}}, {{"dim", "7"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("rda-l1", {{}, {{"lambda", "0.2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.05"}, {"sigma", "3"}}, {{"lambda", "0.1"}, {"t", "3"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"dim", "7"}}, {{"lambda", "0.1"}, {"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("erda-l1", {{}, {{"lambda", "0.2"}, {"bias_eta", "0.5"}}, {{"lambda", "0.05"}, {"sigma", "3"}, {"rou", "0.1"}}, {{"lambda", "0.1"}, {"rou", "0.3"}, {"t", "3"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"dim", "7"}}, {{"lambda", "0.1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("ada-fobos", {{}, {{"delta", "1"}, {"bias_eta", "0.5"}}, {{"delta", "0.1"}, {"eta", "0.4"}, {"bias_eta", "1"}, {"dim", "7"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}, {"delta", "2"}}, {{"delta", "1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("ada-fobos-l1", {{{"lambda", "0.1"}, {"delta", "1"}}, {{"lambda", "0.1"}, {"delta", "0.5"}, {"bias_eta", "0.5"}}, {{"lambda", "0.5"}, {"delta", "2"}, {"eta", "0.3"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"t", "4"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"dim", "7"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("ada-rda", {{}, {{"delta", "1"}, {"bias_eta", "0.5"}}, {{"delta", "0.1"}, {"eta", "0.4"}, {"bias_eta", "1"}, {"dim", "7"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}, {"delta", "2"}}, {{"delta", "1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  add("ada-rda-l1", {{{"lambda", "0.1"}, {"delta", "1"}}, {{"lambda", "0.1"}, {"delta", "0.5"}, {"bias_eta", "0.5"}}, {{"lambda", "0.3"}, {"delta", "2"}, {"eta", "0.3"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"t", "4"}, {"bias_eta", "1"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"dim", "7"}}, {{"lambda", "0.1"}, {"delta", "1"}, {"bias_eta", "0.5"}, {"active_smoothness", "1e-12"}}});
  bool T = vp::thorough();
  explore("C12", cfgs, T ? 5 : 4, T ? 8 : 6, true, true, false);
  explore_long("C12", cfgs, true, false);
  explore_products("C12", spaces(12), true, false);
}
VP_MAIN(run)
