// C17, timing: testing and predicting report the same under every interleaving.
#include "model_sched.h"
struct Got { std::vector<int> l, p; std::vector<float> s; };
static void got_cb(void* u, double label, double predict, int, float* s) { sched::Quiet z; Got* g = (Got*)u; g->l.push_back((int)label); g->p.push_back((int)predict); g->s.push_back(*s); }
static void scenario(const std::vector<Source>& src, int batch, int bufs, bool predict, int preempt) {
  if (!vp::take()) return;
  std::string name = predict ? "sol_Predict:" : "Test:"; for (auto& s : src) name += " " + show(s); name += vp::fmt(" batch=%d buffers=%d preemptions<=%d", batch, bufs, preempt);
  vp::describe(name); vp::sample(name);
  Model* m = make_model("ogd", 2); { std::vector<Rec> d = recs_of(0, 3); sol::pario::DataPoint dp; float s; m->BeginTrain(); for (size_t i = 0; i < d.size(); ++i) { d[i].label = i ? 1 : -1; to_dp(d[i], dp); dynamic_cast<OnlineModel*>(m)->Iterate(dp, &s); } m->EndTrain(); }
  std::vector<float> was = probes(m); Got want; size_t e = 0; sol::pario::DataPoint dp;
  for (auto& s : src) { std::vector<Rec> d; expect(s, d); for (auto& r : d) { to_dp(r, dp); m->PreProcess(dp); float x; int p = m->Predict(dp, &x); want.l.push_back(dp.label()); want.p.push_back(p); want.s.push_back(x); e += p != dp.label(); } }
  float werr = want.l.empty() ? 0 : float(double(e) / want.l.size()); std::string text = "label\tpredict\tscores\n"; { std::ostringstream o; for (size_t i = 0; i < want.l.size(); ++i) o << want.l[i] << "\t" << want.p[i] << "\t" << want.s[i] << "\n"; text += o.str(); }
  Got got; float err = 0; int n = 0; std::string out; std::ostringstream* os = nullptr;
  auto body = [&]() {
    { sched::Quiet z; got = Got(); err = -1; n = -1; delete os; os = new std::ostringstream; }
    DataIter* it = new DataIter(batch, bufs);
    for (size_t i = 0; i < src.size(); ++i) if (it->AddReader(src[i].path, src[i].type, src[i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
    if (predict) n = sol_Predict(m, it, got_cb, &got); else err = m->Test(*it, os);
    delete it;
  };
  auto after = [&]() -> std::string {
    vp::trace(); uint64_t h = vp::hash(name); for (int x : got.p) h = vp::mix(h, x); vp::state(h);
    if (probes(m) != was) return "changed|the model was changed";
    if (predict) { if (n != (int)want.l.size() || got.l != want.l || got.p != want.p || got.s != want.s) return vp::fmt("records|%d records are predicted, or others than given", n); }
    else { if (os->str() != text) return "output|the test writes " + os->str() + " instead of " + text; if (std::fabs(err - werr) > 1e-6) return vp::fmt("error|the error is %g instead of %g", err, werr); }
    return "";
  };
  sched::Config cfg; cfg.preemptions = preempt; cfg.max_steps = 4000; cfg.leaks = false;
  sched::Result r = sched::explore(cfg, body, after);
  vp::step(r.steps); vp::extra("schedules", r.schedules); delete os; delete m;
  if (r.failed) vp::fail("C17:timing:" + r.key, name + " :: " + r.msg + sched_str(r));
}
static void run() {
  int P = vp::thorough() ? 4 : 3;
  for (int pr = 0; pr < 2; ++pr) {
    for (const char* t : {"svm", "bin", "csv"}) for (int n = 1; n <= 3; ++n) for (int pass = 1; pass <= 2; ++pass) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) scenario({labelled(t, 0, n, pass)}, batch, bufs, pr, n * pass > 3 ? P - 1 : P);
    for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) scenario({labelled("svm", 0, 2, 1), labelled("bin", 1, 2, 1)}, batch, bufs, pr, P - 1);
  }
}
VP_MAIN(run)
