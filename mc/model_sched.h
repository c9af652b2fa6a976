// Training and testing as the caller of the iterator, under every interleaving
// with the reading threads (C16, C17).
#ifndef VP_MODEL_SCHED_H__
#define VP_MODEL_SCHED_H__
#include "iter_common.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
using sol::model::Model; using sol::model::OnlineModel;
inline void quiet_cb(void*, long long, long long, long long, double) {}
inline Model* make_model(const std::string& a, int C) {
  Model* m = Model::Create(a, C); dynamic_cast<OnlineModel*>(m)->set_iterate_callback(quiet_cb, nullptr);
  m->SetParameter("bias_eta", "0.5"); if (a == "fobos-l1") m->SetParameter("lambda", "0.02");
  return m;
}
// labels of the shared sources are 10, 11, ...: as classes 0..C-1 they would be out of range, so binary only
inline std::vector<float> probes(Model* m) {
  std::vector<float> out, s(m->clf_num()); sol::pario::DataPoint dp;
  for (uint32_t i = 0; i < 9; ++i) { Rec r; r.label = 1; if (i) r.f.push_back({i, 1.f}); to_dp(r, dp); m->Predict(dp, s.data()); out.insert(out.end(), s.begin(), s.end()); }
  return out;
}
// sources whose labels are 1 and -1 alternately
inline Source labelled(const std::string& type, int s, int n, int passes) {
  static std::map<std::string, std::string> made; static std::vector<std::vector<double>> keep; 
  Source S; S.type = type; S.n = n; S.passes = passes; S.bad = -1; S.recs = recs_of(s, n); for (int i = 0; i < n; ++i) S.recs[i].label = (i + s) % 2 ? -1 : 1;
  std::string key = vp::fmt("lab_%s_%d_%d", type.c_str(), s, n), t; S.path = vp::tmp(key);
  if (made.count(key)) return S;
  if (type == "svm") { for (auto& r : S.recs) { t += vp::fmt("%d", r.label); for (auto& f : r.f) t += vp::fmt(" %u:%g", f.first, f.second); t += "\n"; } vp::write_file(S.path, t); }
  else if (type == "csv") { t = "class,a,b,c,d,e,f,g,h\n"; for (auto& r : S.recs) { float c[8] = {0}; for (auto& f : r.f) c[f.first - 1] = f.second; t += vp::fmt("%d", r.label); for (float x : c) t += vp::fmt(",%g", x); t += "\n"; } vp::write_file(S.path, t); }
  else { DataWriter* w = DataWriter::Create("bin"); w->Open(S.path); for (auto& r : S.recs) { DataPoint dp; to_dp(r, dp); w->Write(dp); } w->Close(); delete w; }
  made[key] = S.path; return S;
}
#endif
