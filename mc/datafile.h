// Reference data files, written without the library's text writers.
#ifndef VP_DATAFILE_H__
#define VP_DATAFILE_H__
#include "rec.h"
inline std::string gfmt(float v) { return vp::fmt("%.9g", v); }
inline std::string svm_text(const std::vector<Rec>& d) {
  std::string t;
  for (auto& r : d) { t += vp::fmt("%d", r.label); for (auto& f : r.f) t += vp::fmt(" %u:", f.first) + gfmt(f.second); t += "\n"; }
  return t;
}
inline uint32_t max_index(const std::vector<Rec>& d) { uint32_t m = 0; for (auto& r : d) for (auto& f : r.f) m = std::max(m, f.first); return m; }
inline std::string csv_text(const std::vector<Rec>& d) {
  uint32_t m = max_index(d);
  std::string t = "class"; for (uint32_t i = 1; i <= m; ++i) t += vp::fmt(",v%u", i); t += "\n";
  for (auto& r : d) {
    t += vp::fmt("%d", r.label); size_t k = 0;
    for (uint32_t i = 1; i <= m; ++i) { if (k < r.f.size() && r.f[k].first == i) t += "," + gfmt(r.f[k++].second); else t += ",0"; }
    t += "\n";
  }
  return t;
}
inline std::string bin_text(const std::vector<Rec>& d) {  // the documented binary layout
  std::string t;
  auto put = [&](const void* p, size_t n) { t.append((const char*)p, n); };
  for (auto& r : d) {
    int32_t l = r.label; put(&l, 4); uint64_t n = r.f.size(); put(&n, 8);
    if (!n) continue;
    std::string c; uint32_t last = 0;
    for (auto& f : r.f) { uint32_t g = f.first - last; last = f.first; while (g >= 128) { c += (char)(0x80 | (g & 127)); g >>= 7; } c += (char)g; }
    uint64_t k = c.size(); put(&k, 8); t += c;
    for (auto& f : r.f) put(&f.second, 4);
  }
  return t;
}
inline void put_data(const std::string& path, const std::string& type, const std::vector<Rec>& d) {
  vp::write_file(path, type == "svm" ? svm_text(d) : type == "csv" ? csv_text(d) : bin_text(d));
}
// read a file with the library; false if it cannot be opened or ends wrongly
inline bool get_data(const std::string& path, const std::string& type, std::vector<Rec>& out, int* status = nullptr) {
  out.clear();
  std::unique_ptr<sol::pario::DataReader> rd(sol::pario::DataReader::Create(type));
  int st = rd->Open(path);
  if (st == 0) st = drain(rd.get(), out);
  if (status) *status = st;
  return st == sol::Status_EndOfFile;
}
// what remains of the records after passing through a CSV table
inline std::vector<Rec> no_zeros(std::vector<Rec> d) {
  for (auto& r : d) { std::vector<std::pair<uint32_t, float>> f; for (auto& p : r.f) if (p.second != 0) f.push_back(p); r.f = f; }
  return d;
}
#endif
