// C11: second-order learners follow their update rule on every example.
#include "reflearn.h"
static void run() {
  std::vector<Cfg> cfgs;
  auto add = [&](const std::string& a, std::vector<Params> ps) {
    for (auto& p : ps) {
      bool bin = p.count("_b"), mul = p.count("_m"); p.erase("_b"); p.erase("_m");
      for (int c : {2, 3}) { if ((c == 2 && mul) || (c == 3 && bin)) continue; cfgs.push_back({a, c, p}); }
    }
  };
  std::string B = "_b", M = "_m";
  add("sop", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {}, {{"bias_eta", "0.5"}}, {{"a", "3"}, {"bias_eta", "1"}}, {{"a", "0.25"}}, {{"lazy_update", "true"}, {"bias_eta", "1"}}, {{M, ""}, {"loss", "uniform-bool"}, {"bias_eta", "1"}}, {{"dim", "6"}, {"t", "3"}}});
  for (std::string a : {"cw", "eccw"})
    add(a, {{{M, ""}, {"loss", "uniform-hinge"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"a", "2"}}, {{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {}, {{"bias_eta", "0.5"}}, {{"bias_eta", "1"}, {"phi", "1.2"}}, {{"a", "4"}, {"phi", "0.3"}}, {{"a", "0.5"}, {"bias_eta", "0.25"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"dim", "6"}, {"a", "2"}, {"t", "3"}}});
  add("arow", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {}, {{"bias_eta", "0.5"}}, {{"r", "0.2"}, {"bias_eta", "1"}}, {{"r", "5"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}, {"bias_eta", "0.5"}}, {{B, ""}, {"cost_margin", "2.5"}, {"bias_eta", "0.5"}}, {{"dim", "6"}, {"t", "3"}, {"bias_eta", "0.5"}}});
  bool T = vp::thorough();
  explore("C11", cfgs, T ? 5 : 4, T ? 7 : 5, true, false, true);
  explore_long("C11", cfgs, false, true);
  explore_products("C11", spaces(11), false, false);
}
VP_MAIN(run)
