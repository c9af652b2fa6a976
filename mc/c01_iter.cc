// C01: every record once, in order, under every interleaving of the reading
// threads with the caller (real DataIter, real readers, controlled scheduler).
#include "iter_common.h"

static void scenario(const std::vector<Source>& src, const std::vector<Source>& late, int batch, int bufs, bool hold, int preempt, int spurious = 0, int mid = -1, int steps = 4000) {
  if (!vp::take()) return;
  std::string name; for (auto& s : src) name += show(s) + " ";
  for (auto& s : late) name += "late:" + show(s) + " ";
  name += vp::fmt("batch=%d buffers=%d%s preemptions<=%d", batch, bufs, hold ? " caller holds one batch" : "", preempt);
  if (spurious) name += vp::fmt(" spurious wakeups<=%d", spurious);
  if (mid >= 0) name += vp::fmt(" added after %d batches", mid);
  vp::describe(name); vp::sample(name);
  std::vector<Rec> want; for (auto& s : src) expect(s, want);
  size_t first_part = want.size();
  for (auto& s : late) expect(s, want);
  std::vector<Rec> got; size_t at_first_end = 0; std::string bad; int batches = 0; bool added = false; std::vector<int> sizes;
  auto body = [&]() {
    { sched::Quiet z; got.clear(); bad.clear(); added = false; batches = 0; at_first_end = 0; sizes.clear(); }
    DataIter* it = new DataIter(batch, bufs);
    for (size_t i = 0; i < src.size(); ++i)
      if (it->AddReader(src[i].path, src[i].type, src[i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
    for (int round = 0; round < 2; ++round) {
      MiniBatch* held = nullptr; std::vector<Rec>* held_recs = nullptr;
      MiniBatch* prev = nullptr;
      for (;;) {
        if (round == 0 && !added && mid >= 0 && batches == mid) {
          { sched::Quiet z; added = true; }
          for (size_t i = 0; i < late.size(); ++i)
            if (it->AddReader(late[i].path, late[i].type, late[i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
        }
        MiniBatch* mb = it->Next(prev);
        prev = nullptr;
        if (mb == nullptr) break;
        { sched::Quiet z; ++batches; sizes.push_back(mb->size()); if (mb->size() > batch) bad = "size|a batch holds more records than the batch size"; }
        std::vector<Rec>* now; { sched::Quiet z; now = new std::vector<Rec>; }
        copy_out(mb, now);
        { sched::Quiet z; got.insert(got.end(), now->begin(), now->end()); if (got.size() > want.size() + 20) { sched::violation("order", "endless stream of records"); } }
        if (hold) {
          if (held) {
            std::vector<Rec>* again; { sched::Quiet z; again = new std::vector<Rec>; }
            copy_out(held, again);
            { sched::Quiet z; if (!same(*again, *held_recs)) bad = "held|a batch held by the caller changed"; delete again; delete held_recs; }
            prev = held;
          }
          held = mb; held_recs = now;
        } else { sched::Quiet z; prev = mb; delete now; }
      }
      if (held) {
        std::vector<Rec>* again; { sched::Quiet z; again = new std::vector<Rec>; }
        copy_out(held, again);
        { sched::Quiet z; if (!same(*again, *held_recs)) bad = "held|a batch held by the caller changed"; delete again; delete held_recs; }
        if (it->Next(held) != nullptr) { sched::violation("end", "a batch was delivered after the end"); return; }
      } else if (it->Next() != nullptr) { sched::violation("end", "a batch was delivered after the end"); return; }
      if (round == 0) {
        { sched::Quiet z; at_first_end = got.size(); }
        if (added) break;
        for (size_t i = 0; i < late.size(); ++i)
          if (it->AddReader(late[i].path, late[i].type, late[i].passes) != 0) { sched::violation("open", "a readable source was refused"); return; }
        if (late.empty()) break;
      }
    }
    delete it;
  };
  auto after = [&]() -> std::string {
    vp::trace();
    uint64_t h = vp::hash(name); for (int s : sizes) h = vp::mix(h, s); vp::state(vp::mix(h, hash_recs(got)));
    if (!bad.empty()) return bad;
    if (at_first_end != (added ? want.size() : first_part) && !late.empty()) return "order|the end was reported at the wrong place";
    if (!same(got, want)) return "order|delivered " + show(got) + " instead of " + show(want);
    return "";
  };
  sched::Config cfg; cfg.preemptions = preempt; cfg.spurious = spurious; cfg.max_steps = steps;
  sched::Result r = sched::explore(cfg, body, after);
  vp::step(r.steps); vp::extra("schedules", r.schedules);
  if (r.failed) vp::fail("C01:" + r.key, name + " :: " + r.msg + sched_str(r));
}

static void run() {
  bool T = vp::thorough();
  std::vector<std::string> types = {"svm", "csv", "bin", "numpy", "csr_matrix"};
  int P = T ? 5 : vp::shallow() ? 2 : 4;   // shallow: pass with the other threading layer
  for (auto& ty : types) for (int n = 0; n <= (T ? 4 : 3); ++n) for (int pass = 0; pass <= (T ? 3 : 2); ++pass)
    for (int batch = 1; batch <= 3; ++batch) for (int bufs = 1; bufs <= 3; ++bufs) for (int hold = 0; hold < (bufs > 1 ? 2 : 1); ++hold) {
      if (n == 0 && (ty == "numpy" || ty == "csr_matrix")) continue;  // no such source
      int pr = n * pass > 4 && batch == 1 ? P - 1 : P;
      scenario({make_source(ty, 0, n, pass, -1)}, {}, batch, bufs, hold, pr);
      if (ty != "numpy" && ty != "csr_matrix" && pass > 0) for (int bad = 0; bad < (ty == "bin" ? n : n + 1); ++bad)
        scenario({make_source(ty, 0, n, pass, bad)}, {}, batch, bufs, hold, std::min(3, P));
    }
  for (int n1 = 0; n1 <= 2; ++n1) for (int n2 = 0; n2 <= 2; ++n2) for (int p1 = 1; p1 <= 2; ++p1) for (int p2 = 1; p2 <= 2; ++p2)
    for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 3; ++bufs) for (int hold = 0; hold < (bufs > 1 ? 2 : 1); ++hold) {
      scenario({make_source("svm", 0, n1, p1, -1), make_source("bin", 1, n2, p2, -1)}, {}, batch, bufs, hold, P - 1);
      scenario({make_source("svm", 0, n1, p1, -1)}, {make_source("csv", 1, n2, p2, -1)}, batch, bufs, hold, P - 1);
      scenario({make_source("svm", 0, n1, p1, n1 / 2), make_source("svm", 1, n2, p2, -1)}, {}, batch, bufs, hold, P - 1);
    }
  for (int m = 0; m < 8; ++m) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) for (int hold = 0; hold < bufs; ++hold) {
    scenario({make_source("svm", 0, m & 1, 1, -1), make_source("csv", 1, (m >> 1) & 1, 1, -1), make_source("bin", 2, (m >> 2) & 1, 1, -1)}, {}, batch, bufs, hold, P - 1);
    scenario({make_source("svm", 0, m & 1, 1, -1)}, {make_source("csv", 1, (m >> 1) & 1, 1, -1), make_source("bin", 2, (m >> 2) & 1, 1, -1)}, batch, bufs, hold, P - 1);
  }
  scenario({}, {make_source("svm", 0, 2, 1, -1)}, 1, 1, false, P);
  // sources added while others are being read
  for (int n1 = 0; n1 <= 2; ++n1) for (int n2 = 0; n2 <= 2; ++n2) for (int p1 = 1; p1 <= 2; ++p1) for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs)
    for (int mid = 0; mid <= 3; ++mid) for (int hold = 0; hold < bufs; ++hold)
      scenario({make_source("svm", 0, n1, p1, -1)}, {make_source("csv", 1, n2, 1, -1)}, batch, bufs, hold, std::min(3, P), 0, mid);
  // wakeups without cause
  for (int n1 = 0; n1 <= 3; ++n1) for (int n2 = -1; n2 <= 1; ++n2) for (int pass = 1; pass <= 2; ++pass)
    for (int batch = 1; batch <= 2; ++batch) for (int bufs = 1; bufs <= 2; ++bufs) for (int hold = 0; hold < bufs; ++hold) {
      std::vector<Source> src = {make_source("svm", 0, n1, pass, -1)}; if (n2 >= 0) src.push_back(make_source("bin", 1, n2, pass, -1));
      scenario(src, {}, batch, bufs, hold, T ? 3 : 1, T ? 3 : 2);
    }
  scenario({}, {}, 2, 2, false, P);
  // long streams: large batches, many buffers, passes and sources; the thread switches only where it must wait
  for (auto& ty : types) for (int n : {7, 40, 300}) for (int pass : {1, 2, 5}) for (int batch : {1, 3, 4, 16, 128, 256, 1000}) for (int bufs : {1, 2, 3, 8}) for (int hold = 0; hold < (bufs > 1 ? 2 : 1); ++hold) {
    if (n * pass / batch > 300 || (vp::shallow() && n > 7)) continue;
    scenario({make_source(ty, 0, n, pass, -1)}, {}, batch, bufs, hold, 0, 0, -1, 4000000);
  }
  for (int m = 4; m <= 6; ++m) for (int n : {0, 1, 5, 33}) for (int batch : {1, 4, 32}) for (int bufs : {1, 3, 6}) for (int hold = 0; hold < (bufs > 1 ? 2 : 1); ++hold) {
    std::vector<Source> all, part, rest; for (int i = 0; i < m; ++i) { Source s = make_source(types[i % 3], i, n + (i * i) % 4, 1 + i % 3, i == 2 && m == 5 ? n / 2 : -1); all.push_back(s); (i < m / 2 ? part : rest).push_back(s); }
    scenario(all, {}, batch, bufs, hold, 0, 0, -1, 4000000);
    scenario(part, rest, batch, bufs, hold, 0, 0, -1, 4000000);
  }
}
VP_MAIN(run)
