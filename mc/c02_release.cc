// C02: releasing a data iterator at any moment terminates, stops the readers
// and frees everything, under every interleaving.
#include "iter_common.h"

static void scenario(const std::vector<Source>& src, int batch, int bufs, int calls, int keep, int preempt, int spurious = 0, int steps = 4000) {
  if (!vp::take()) return;
  std::string name; for (auto& s : src) name += show(s) + " ";
  name += vp::fmt("batch=%d buffers=%d, released after %d calls keeping %d batches; preemptions<=%d", batch, bufs, calls, keep, preempt);
  if (spurious) name += vp::fmt(" spurious wakeups<=%d", spurious);
  vp::describe(name); vp::sample(name);
  std::string bad; int got = 0;
  auto body = [&]() {
    { sched::Quiet z; bad.clear(); got = 0; }
    DataIter* it = new DataIter(batch, bufs);
    for (size_t i = 0; i < src.size(); ++i)
      if (it->AddReader(src[i].path, src[i].type, src[i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
    MiniBatch* held[4] = {nullptr, nullptr, nullptr, nullptr}; int nh = 0;
    std::vector<Rec>* was[4];
    MiniBatch* prev = nullptr;
    for (int c = 0; c < calls; ++c) {
      if (nh >= bufs) break;                       // the caller holds every buffer: nothing left to deliver into
      MiniBatch* mb = it->Next(prev);
      prev = nullptr;
      if (!mb) continue;
      { sched::Quiet z; ++got; }
      if (nh < keep) {
        { sched::Quiet z; was[nh] = new std::vector<Rec>; }
        copy_out(mb, was[nh]); held[nh++] = mb;
      } else prev = mb;
    }
    bool own = prev != nullptr;
    delete it;
    for (int i = 0; i < nh; ++i) {
      std::vector<Rec>* again; { sched::Quiet z; again = new std::vector<Rec>; }
      copy_out(held[i], again);
      { sched::Quiet z; if (!same(*again, *was[i])) bad = "held|a batch held by the caller changed"; delete again; delete was[i]; }
      delete held[i];
    }
    if (own) delete prev;                          // the last batch was never handed back: still the caller's
  };
  auto after = [&]() -> std::string {
    vp::trace(); vp::state(vp::mix(vp::hash(name), got));
    return bad;
  };
  sched::Config cfg; cfg.preemptions = preempt; cfg.spurious = spurious; cfg.max_steps = steps;
  sched::Result r = sched::explore(cfg, body, after);
  vp::step(r.steps); vp::extra("schedules", r.schedules);
  if (r.failed) vp::fail("C02:" + r.key, name + " :: " + r.msg + sched_str(r));
}

static void run() {
  bool T = vp::thorough(); int P = T ? 5 : vp::shallow() ? 2 : 4;   // shallow: pass with the other threading layer
  for (const char* ty : {"svm", "csv", "bin", "numpy", "csr_matrix"}) for (int n = 1; n <= (T ? 5 : 3); ++n) for (int pass = 1; pass <= 2; ++pass)
    for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 3; ++bufs) {
      if (ty != std::string("svm") && !T && (bufs == 3 || n == 2)) continue;
      int total = n * pass + pass + 2;
      for (int calls = 0; calls <= std::min(total, 5); ++calls) for (int keep = 0; keep <= std::min(bufs, std::min(calls, 2)); ++keep)
        scenario({make_source(ty, 0, n, pass, -1)}, batch, bufs, calls, keep, P);
    }
  // wakeups without cause
  for (int n1 = 0; n1 <= 2; ++n1) for (int n2 = -1; n2 <= 1; ++n2) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs)
    for (int calls = 0; calls <= 4; ++calls) for (int keep = 0; keep <= std::min(bufs, std::min(calls, 1)); ++keep) {
      std::vector<Source> src = {make_source("svm", 0, n1, 1, -1)}; if (n2 >= 0) src.push_back(make_source("bin", 1, n2, 1, -1));
      scenario(src, batch, bufs, calls, keep, T ? 3 : 1, T ? 3 : 2);
    }
  // malformed source
  for (int bad = 0; bad <= 2; ++bad) for (int bufs = 1; bufs <= 2; ++bufs) for (int calls = 0; calls <= 3; ++calls)
    scenario({make_source("svm", 0, 2, 1, bad)}, 1, bufs, calls, 0, P);
  // several sources, some never started
  for (int m = 0; m < 27; ++m) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs)
    for (int calls = 0; calls <= 5; ++calls) for (int keep = 0; keep <= std::min(bufs, std::min(calls, 1)); ++keep)
      scenario({make_source("svm", 0, m % 3, 1, -1), make_source("csv", 1, m / 3 % 3, 1, -1), make_source("bin", 2, m / 9, 1, -1)}, batch, bufs, calls, keep, 3);
  for (int calls = 0; calls <= 2; ++calls) for (int bufs = 1; bufs <= 3; ++bufs) scenario({}, 1, bufs, calls, 0, P);
  // larger: many buffers, records, sources; the threads switch only where they must wait
  for (const char* ty : {"svm", "csv", "bin", "numpy", "csr_matrix"}) for (int n : {6, 40}) for (int pass : {1, 3}) for (int batch : {1, 3, 7, 64}) for (int bufs : {4, 5, 8}) {
    int all = (n * pass + batch - 1) / batch + 2;
    for (int calls : {0, 1, 2, 3, 4, 5, 7, 9, 12, 20, 41, 122}) for (int keep : {0, 1, 4}) if (calls <= all && keep <= calls)
      scenario({make_source(ty, 0, n, pass, -1)}, batch, bufs, calls, keep, 0, 0, 400000);
  }
  for (int m = 4; m <= 6; ++m) for (int n : {0, 2, 9}) for (int batch : {1, 4}) for (int bufs : {1, 3, 6}) for (int calls = 0; calls <= 14; ++calls) for (int keep : {0, 1}) {
    if (keep > calls) continue;
    std::vector<Source> v; for (int i = 0; i < m; ++i) v.push_back(make_source(i % 2 ? "svm" : "bin", i, n + i % 3, 1 + i % 2, i == 1 && m == 5 ? 0 : -1));
    scenario(v, batch, bufs, calls, keep, 0, 0, 400000);
  }
}
VP_MAIN(run)
