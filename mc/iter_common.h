// Data sources for the iterator harnesses (C01, C02).
#ifndef VP_ITER_COMMON_H__
#define VP_ITER_COMMON_H__
#include "rec.h"
#include "vpsched.h"
using namespace sol::pario;

struct Source {
  std::string type; int n; int passes; int bad;  // bad: position of the malformed record, -1 none
  std::string path; std::vector<Rec> recs;       // recs: the records of one complete pass
};
struct Arena {  // in-memory sources live as long as the process
  std::vector<std::vector<double>> d; std::vector<std::vector<int>> i;
};
inline Arena& arena() { static Arena a; return a; }

inline std::vector<Rec> recs_of(int s, int n) {
  std::vector<Rec> v;
  for (int i = 0; i < n; ++i) {
    Rec r; r.label = (s + 1) * 10 + i;
    r.f.push_back({(uint32_t)1, (float)(s + 1)});
    if (i % 2 == 0) r.f.push_back({(uint32_t)(2 + i % 7), (float)(i + 1) + 0.5f});
    v.push_back(r);
  }
  return v;
}

// the path given to AddReader; files are created once per (type, s, n, bad)
inline Source make_source(const std::string& type, int s, int n, int passes, int bad) {
  static std::map<std::string, std::string> made;
  Source S; S.type = type; S.n = n; S.passes = passes; S.bad = bad; S.recs = recs_of(s, n);
  std::string key = vp::fmt("%s_%d_%d_%d", type.c_str(), s, n, bad);
  if (made.count(key)) { S.path = made[key]; return S; }
  std::string p = vp::tmp(key), t;
  if (type == "svm") {
    for (int i = 0; i < n; ++i) {
      if (i == bad) t += "1 nonsense\n";
      t += vp::fmt("%d", S.recs[i].label);
      for (auto& f : S.recs[i].f) t += vp::fmt(" %u:%.9g", f.first, f.second);
      t += "\n";
    }
    if (bad == n) t += "1 nonsense\n";
    vp::write_file(p, t);
  } else if (type == "csv") {
    t = "label,f1,f2,f3,f4,f5,f6,f7,f8\n";
    for (int i = 0; i < n; ++i) {
      if (i == bad) t += "1,nonsense,0,0,0,0,0,0,0\n";
      float c[8] = {0}; for (auto& f : S.recs[i].f) c[f.first - 1] = f.second;
      t += vp::fmt("%d", S.recs[i].label); for (float x : c) t += vp::fmt(",%.9g", x); t += "\n";
    }
    if (bad == n) t += "1,nonsense,0,0,0,0,0,0,0\n";
    vp::write_file(p, t);
  } else if (type == "bin") {
    DataWriter* w = DataWriter::Create("bin"); w->Open(p);
    for (auto& r : S.recs) { DataPoint dp; to_dp(r, dp); w->Write(dp); }
    w->Close(); delete w;
    if (bad >= 0) { // cut the file inside record "bad"
      std::string all = vp::read_file(p);
      w = DataWriter::Create("bin"); std::string p2 = p + ".pre"; w->Open(p2);
      for (int i = 0; i < bad; ++i) { DataPoint dp; to_dp(S.recs[i], dp); w->Write(dp); }
      w->Close(); delete w;
      size_t k = vp::read_file(p2).size();
      vp::write_file(p, all.substr(0, k + 5));
    }
  } else if (type == "numpy") {
    std::vector<double> x(n * 8 + 1, 0.0), y(n + 1, 0.0);
    for (int i = 0; i < n; ++i) { y[i] = S.recs[i].label; for (auto& f : S.recs[i].f) x[i * 8 + f.first - 1] = f.second; }
    arena().d.push_back(x); const double* px = arena().d.back().data();
    arena().d.push_back(y); const double* py = arena().d.back().data();
    p = vp::fmt("%lld;%lld;%d;%d;%d", (long long)px, (long long)py, n, 8, 64);
  } else if (type == "csr_matrix") {
    std::vector<int> ind, ptr(1, 0); std::vector<double> val, y;
    for (auto& r : S.recs) { for (auto& f : r.f) { ind.push_back((int)f.first - 1); val.push_back(f.second); } ptr.push_back((int)ind.size()); y.push_back(r.label); }
    ind.push_back(0); val.push_back(0); y.push_back(0);
    arena().i.push_back(ind); const int* pi = arena().i.back().data();
    arena().i.push_back(ptr); const int* pp = arena().i.back().data();
    arena().d.push_back(val); const double* pv = arena().d.back().data();
    arena().d.push_back(y); const double* py = arena().d.back().data();
    p = vp::fmt("%lld;%lld;%lld;%lld;%d", (long long)pi, (long long)pp, (long long)pv, (long long)py, n);
  }
  made[key] = p; S.path = p; return S;
}
inline void expect(const Source& s, std::vector<Rec>& out) {
  if (s.bad >= 0) { if (s.passes > 0) for (int i = 0; i < s.bad; ++i) out.push_back(s.recs[i]); return; }
  for (int k = 0; k < s.passes; ++k) out.insert(out.end(), s.recs.begin(), s.recs.end());
}
inline std::string show(const Source& s) {
  std::string r = vp::fmt("%s(%d records x%d", s.type.c_str(), s.n, s.passes);
  if (s.bad >= 0) r += vp::fmt(", malformed at %d", s.bad);
  return r + ")";
}
// Instrumented reading of a batch (so that races with readers are seen), into
// a fixed buffer; the copying out is bookkeeping.
inline void copy_out(MiniBatch* mb, std::vector<Rec>* out) {
  int n = mb->size();
  for (int i = 0; i < n; ++i) {
    const DataPoint& dp = (*mb)[i];
    int lab = dp.label(); size_t m = dp.size();
    uint32_t ix[16]; float v[16];
    for (size_t k = 0; k < m && k < 16; ++k) { ix[k] = dp.index(k); v[k] = dp.feature(k); }
    sched::Quiet z;
    Rec r; r.label = lab; for (size_t k = 0; k < m && k < 16; ++k) r.f.push_back({ix[k], v[k]});
    out->push_back(r);
  }
}
inline bool same(const std::vector<Rec>& a, const std::vector<Rec>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
inline uint64_t hash_recs(const std::vector<Rec>& v) { uint64_t h = 5; for (auto& r : v) h = hash_rec(r, h); return h; }
inline std::string sched_str(const sched::Result& r) { std::string s = " [schedule "; for (int c : r.choices) s += vp::fmt("%d,", c); return s + "]"; }
#endif
