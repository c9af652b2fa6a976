// C16, timing: training gives the same model under every interleaving.
#include "model_sched.h"
static void scenario(const char* algo, const std::vector<std::vector<Source>>& calls, int batch, int bufs, int preempt) {
  if (!vp::take()) return;
  std::string name = algo; name += ":"; for (auto& c : calls) { name += " ["; for (auto& s : c) name += show(s) + " "; name += "]"; } name += vp::fmt(" batch=%d buffers=%d preemptions<=%d", batch, bufs, preempt);
  vp::describe(name); vp::sample(name);
  std::vector<float> want; float werr = 0;
  { std::unique_ptr<Model> m(make_model(algo, 2)); auto* om = dynamic_cast<OnlineModel*>(m.get()); om->BeginTrain(); float s; sol::pario::DataPoint dp; size_t n = 0, e = 0;
    for (auto& c : calls) for (auto& src : c) { std::vector<Rec> d; expect(src, d); for (auto& r : d) { to_dp(r, dp); m->PreProcess(dp); ++n; if (om->Iterate(dp, &s) != dp.label()) ++e; } }
    m->EndTrain(); want = probes(m.get()); werr = float(e) / n; }
  std::vector<float> got; float err = 0;
  auto body = [&]() {
    Model* m; { sched::Quiet z; got.clear(); err = -1; } m = make_model(algo, 2);
    for (size_t c = 0; c < calls.size(); ++c) {
      DataIter* it = new DataIter(batch, bufs);
      for (size_t i = 0; i < calls[c].size(); ++i) if (it->AddReader(calls[c][i].path, calls[c][i].type, calls[c][i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
      err = m->Train(*it); delete it;
    }
    m->EndTrain();
    { sched::Quiet z; got = probes(m); }
    delete m;
  };
  auto after = [&]() -> std::string {
    vp::trace(); uint64_t h = vp::hash(name); for (float x : got) { uint32_t b; memcpy(&b, &x, 4); h = vp::mix(h, b); } vp::state(h);
    if (got.size() != want.size() || memcmp(got.data(), want.data(), want.size() * sizeof(float))) return "model|the learned model depends on the timing of the reading threads";
    if (std::fabs(err - werr) > 1e-6) return vp::fmt("error|the training error is %g instead of %g", err, werr);
    return "";
  };
  sched::Config cfg; cfg.preemptions = preempt; cfg.max_steps = 4000; cfg.leaks = false;
  sched::Result r = sched::explore(cfg, body, after);
  vp::step(r.steps); vp::extra("schedules", r.schedules);
  if (r.failed) vp::fail("C16:timing:" + r.key, name + " :: " + r.msg + sched_str(r));
}
static void run() {
  int P = vp::thorough() ? 4 : 3; 
  for (const char* a : {"ogd", "arow", "fobos-l1"}) {
    bool main = !strcmp(a, "ogd");
    for (const char* t : {"svm", "bin", "csv"}) for (int n = 1; n <= 3; ++n) for (int pass = 1; pass <= 2; ++pass) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) if (main || (bufs == 1 && pass == 1)) scenario(a, {{labelled(t, 0, n, pass)}}, batch, bufs, n * pass > 3 ? P - 1 : P);
    for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) { scenario(a, {{labelled("svm", 0, 2, 1), labelled("bin", 1, 2, 1)}}, batch, bufs, P - 1); scenario(a, {{labelled("svm", 0, 2, 1)}, {labelled("csv", 1, 2, 1)}}, batch, bufs, P - 1); }
  }
}
VP_MAIN(run)
