// C13: feature-selection learners keep at most the requested features, the best ones.
#include "reflearn.h"
static void run() {
  std::vector<Cfg> cfgs;
  auto add = [&](const std::string& a, std::vector<Params> ps, std::vector<std::string> Bs = {"0", "1", "2", "3"}) {
    for (auto& p0 : ps) for (auto& b : Bs) {
      Params p = p0; bool bin = p.count("_b"), mul = p.count("_m"); p.erase("_b"); p.erase("_m");
      p["B"] = b; if (a == "fofs" && b == "0") p.erase("B");
      for (int c : {2, 3}) { if ((c == 2 && mul) || (c == 3 && bin)) continue; cfgs.push_back({a, c, p}); }
    }
  };
  std::string B = "_b", M = "_m";
  add("sofs", {{}, {{"bias_eta", "0.5"}, {"r", "0.3"}}, {{"r", "4"}, {"dim", "7"}}});
  add("sofs", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{M, ""}, {"loss", "uniform-hinge"}}}, {"2"});
  add("pet", {{}, {{"bias_eta", "0.5"}, {"power_t", "0"}, {"eta", "0.6"}}});
  add("pet", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}}, {{"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{B, ""}, {"loss", "logistic"}}, {{"dim", "7"}}}, {"2"});
  add("fofs", {{{"eta", "0.2"}, {"lambda", "0.01"}}, {{"eta", "0.5"}, {"lambda", "0.4"}, {"bias_eta", "0.5"}}, {{"eta", "0.3"}, {"lambda", "1.5"}}});
  add("fofs", {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}, {"eta", "0.5"}, {"lambda", "0.1"}}, {{"eta", "0.2"}}, {{"eta", "0.5"}, {"lambda", "0.1"}, {"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{"eta", "0.5"}, {"lambda", "0.1"}, {"dim", "7"}}}, {"2"});
  for (std::string a : {"adafobos-ofs", "adarda-ofs"}) {
    add(a, {{{"delta", "1"}}, {{"delta", "0.2"}, {"bias_eta", "0.5"}, {"eta", "0.4"}}});
    add(a, {{{"active_smoothness", "1e-12"}, {"bias_eta", "0.5"}, {"delta", "1"}}, {{"delta", "1"}, {"dim", "7"}}, {{"delta", "1"}, {"lazy_update", "true"}, {"bias_eta", "0.5"}}, {{M, ""}, {"delta", "1"}, {"loss", "uniform-hinge"}}}, {"2"});
  }
  bool T = vp::thorough();
  explore("C13", cfgs, T ? 5 : 4, T ? 7 : 5, true, true, false);
  explore_long("C13", cfgs, true, false);
  explore_products("C13", spaces(13), true, false);
}
VP_MAIN(run)
