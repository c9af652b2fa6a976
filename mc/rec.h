// Plain records and helpers shared by the data harnesses.
#ifndef VP_REC_H__
#define VP_REC_H__
#include "vp.h"
#include <sol/sol.h>
#include <sol/pario/data_writer.h>
#include <sol/pario/data_reader.h>
#include <sol/pario/data_iter.h>

struct Rec {
  int label;
  std::vector<std::pair<uint32_t, float>> f;
};
inline bool bits_eq(float a, float b) { return memcmp(&a, &b, 4) == 0; }
inline bool same(const Rec& a, const Rec& b) {
  if (a.label != b.label || a.f.size() != b.f.size()) return false;
  for (size_t i = 0; i < a.f.size(); ++i)
    if (a.f[i].first != b.f[i].first || !bits_eq(a.f[i].second, b.f[i].second)) return false;
  return true;
}
inline bool near_eq(float a, float b, double rel, double abs_ = 0) {
  if (bits_eq(a, b) || a == b) return true;
  double d = std::fabs((double)a - (double)b);
  return d <= abs_ + rel * std::max(std::fabs((double)a), std::fabs((double)b));
}
inline bool near_same(const Rec& a, const Rec& b, double rel, double abs_ = 0) {
  if (a.label != b.label || a.f.size() != b.f.size()) return false;
  for (size_t i = 0; i < a.f.size(); ++i)
    if (a.f[i].first != b.f[i].first || !near_eq(a.f[i].second, b.f[i].second, rel, abs_)) return false;
  return true;
}
inline std::string show(const Rec& r) {
  std::string s = vp::fmt("%d", r.label);
  for (size_t i = 0; i < r.f.size() && i < 12; ++i) s += vp::fmt(" %u:%.9g", r.f[i].first, r.f[i].second);
  if (r.f.size() > 12) s += vp::fmt(" ...(%zu features)", r.f.size());
  return s;
}
inline std::string show(const std::vector<Rec>& v) {
  std::string s; for (auto& r : v) s += "{" + show(r) + "} "; return s;
}
inline void to_dp(const Rec& r, sol::pario::DataPoint& dp) {
  dp.Clear(); dp.set_label(r.label);
  for (auto& p : r.f) dp.AddNewFeat(p.first, p.second);
}
inline Rec from_dp(const sol::pario::DataPoint& dp) {
  Rec r; r.label = dp.label();
  size_t n = dp.size();
  for (size_t i = 0; i < n; ++i) r.f.push_back({dp.index(i), dp.feature(i)});
  return r;
}
inline uint64_t hash_rec(const Rec& r, uint64_t h) {
  h = vp::mix(h, (uint32_t)r.label);
  for (auto& p : r.f) { uint32_t b; memcpy(&b, &p.second, 4); h = vp::mix(vp::mix(h, p.first), b); }
  return vp::mix(h, r.f.size());
}
// read with a reader until something other than OK; returns last status
inline int drain(sol::pario::DataReader* rd, std::vector<Rec>& out, size_t limit = 100000) {
  sol::pario::DataPoint dp;
  int st = 0;
  while ((st = rd->Next(dp)) == sol::Status_OK) {
    out.push_back(from_dp(dp));
    vp::step();
    if (out.size() > limit) return -12345;
  }
  return st;
}
#endif
