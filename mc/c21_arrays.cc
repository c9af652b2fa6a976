// C21: in-memory arrays behave like the equivalent data file.
#include "rec.h"
#include "datafile.h"
#include <sol/c_api.h>
using sol::pario::DataReader; using sol::pario::DataIter; using sol::pario::MiniBatch; using sol::pario::DataPoint;
// an array that must come out unmodified, on the heap with its exact size so that the sanitizer sees any overrun
template <class T> struct Arr {
  T* p; size_t n; std::vector<T> copy;
  explicit Arr(const std::vector<T>& v) : p((T*)malloc(v.size() * sizeof(T) + (v.empty() ? 1 : 0))), n(v.size()), copy(v) { if (n) memcpy(p, v.data(), n * sizeof(T)); }
  ~Arr() { free(p); }
  bool intact() const { return n == 0 || !memcmp(p, copy.data(), n * sizeof(T)); }
  Arr(const Arr&) = delete;
};
static std::vector<Rec> deliver(DataIter& it) { std::vector<Rec> out; MiniBatch* mb = nullptr; while ((mb = it.Next(mb)) != nullptr) for (int i = 0; i < mb->size(); ++i) { out.push_back(from_dp((*mb)[i])); vp::step(); } return out; }
static bool same_all(const std::vector<Rec>& a, const std::vector<Rec>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static std::vector<Rec> times(const std::vector<Rec>& d, int n) { std::vector<Rec> o; for (int i = 0; i < n; ++i) o.insert(o.end(), d.begin(), d.end()); return o; }
static bool bad(const std::string& k, const std::string& m) { vp::fail("C21:" + k, m); return false; }
// read by the reader and by the iterator; path and the loader must give the same records
static bool check(const std::string& key, const std::string& path, const std::vector<Rec>& want, int variant, const std::function<int(DataIter&, int)>& load, const std::string& who) {
  vp::progress(); vp::trace(); uint64_t h = vp::hash(key); for (auto& r : want) h = hash_rec(r, h); vp::state(h);
  { std::unique_ptr<DataReader> rd(DataReader::Create(key)); std::vector<Rec> got; int st = rd->Open(path);
    if (st != 0) return bad(key + ":open", who + ": cannot be opened");
    for (int pass = 0; pass < 2; ++pass) { got.clear(); st = drain(rd.get(), got); if (st != sol::Status_EndOfFile) return bad(key + ":end", who + vp::fmt(": ends with status %d", st)); if (!same_all(got, want)) return bad(key + ":records", who + ": delivers " + show(got) + "instead of " + show(want)); rd->Rewind(); }
    if (variant % 4 == 0 && !want.empty()) { DataPoint dp; rd->Next(dp); rd->Rewind(); got.clear(); st = drain(rd.get(), got); if (st != sol::Status_EndOfFile || !same_all(got, want)) return bad(key + ":rewind", who + ": rewinding in the middle does not start over"); if (rd->Next(dp) != sol::Status_EndOfFile) return bad(key + ":end", who + ": continues after the end"); }
    rd->Close();
  }
  int passes = 1 + variant % 3, batch = 1 + variant / 3 % 4, buf = 1 + variant % 2;
  { DataIter it(batch, buf); if (it.AddReader(path, key, passes) != 0) return bad(key + ":open", who + ": is refused by the iterator"); auto got = deliver(it); if (!same_all(got, times(want, passes))) return bad(key + ":iterator", who + vp::fmt(", %d passes, batches of %d: ", passes, batch) + show(got) + "instead of " + show(times(want, passes))); }
  if (variant % 2 == 0) { DataIter it(batch, buf); if (load(it, passes) != 0) return bad(key + ":load", who + ": is refused by the C interface"); auto got = deliver(it); if (!same_all(got, times(want, passes))) return bad(key + ":load", who + ": loaded by the C interface " + show(got) + "instead of " + show(times(want, passes))); }
  // the equivalent file
  if (variant % 5 == 0) { std::string f = vp::tmp("eq"); put_data(f, "bin", want); DataIter it(batch, buf); it.AddReader(f, "bin", passes); auto got = deliver(it); if (!same_all(got, times(want, passes))) return bad(key + ":file", who + ": differs from the equivalent file"); }
  return true;
}
static bool dense(int rows, int cols, const std::vector<double>& v, const std::vector<double>& y, int pad, int mode, int variant) {
  // mode 0: rows one after the other, 1: stored backwards (negative stride), 2: one row repeated (stride 0)
  int line = cols + pad; std::vector<double> mem; std::vector<Rec> want;
  if (mode == 2) mem.assign(v.begin(), v.begin() + cols);
  else { mem.assign((size_t)line * (rows - 1) + cols, 12345.0); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) mem[(size_t)(mode ? rows - 1 - i : i) * line + j] = v[(size_t)i * cols + j]; }
  for (int i = 0; i < rows; ++i) { Rec r; r.label = (int)y[i]; for (int j = 0; j < cols; ++j) { double x = v[(size_t)(mode == 2 ? 0 : i) * cols + j]; if (x != 0) r.f.push_back({(uint32_t)j + 1, (float)x}); } want.push_back(r); }
  Arr<double> X(mem), Y(y); int stride = (mode == 2 ? 0 : mode ? -line : line) * 8; char* start = (char*)(X.p + (mode == 1 ? (size_t)line * (rows - 1) : 0));
  std::string path = vp::fmt("%lld;%lld;%d;%d;%d", (long long)start, (long long)Y.p, rows, cols, stride);
  std::string who = vp::fmt("%d x %d array, stride %d:", rows, cols, stride); for (double x : mem) who += vp::fmt(" %g", x);
  bool ok = check("numpy", path, want, variant, [&](DataIter& it, int p) { npy_intp dims[2] = {rows, cols}, st[2] = {stride, 8}; return sol_loadArray(&it, start, (char*)Y.p, dims, st, p); }, who);
  if (!X.intact() || !Y.intact()) return bad("numpy:modified", who + ": the arrays were modified");
  return ok;
}
static const double LAB[] = {1, -1, 0, 2, 7, -3, 2000000000.0};
static void denses() {
  struct G { int r, c; std::vector<double> v; };
  std::vector<G> gs = {{1, 1, {0, 1, -2.5, 0.1, 1e-30, 16777217, 3e38}}, {1, 2, {0, 1, -2.5, 0.1, 1e-30}}, {1, 3, {0, 1, -2.5, 0.1}}, {2, 1, {0, 1, -2.5, 0.1, 1e-30}}, {2, 2, {0, 1, -2.5, 0.1}}, {2, 3, {0, 1, -2.5}}, {3, 1, {0, 1, -2.5, 0.1}}, {3, 2, {0, 1, -2.5}}, {3, 3, {0, 1.5}}, {1, 4, {0, 1, 0.3}}, {4, 1, {0, 1, 0.3}}};
  if (vp::thorough()) { gs.push_back({2, 3, {0, 1, -2.5, 0.1}}); gs.push_back({3, 2, {0, 1, -2.5, 0.1}}); gs.push_back({2, 4, {0, 1, 0.3}}); gs.push_back({4, 3, {0, 1}}); gs.push_back({3, 3, {0, 1, -2.5}}); }
  for (auto& g : gs) {
    size_t total = 1; for (int i = 0; i < g.r * g.c; ++i) total *= g.v.size();
    for (int pad : {0, 1, 3}) for (int mode = 0; mode < 3; ++mode) {
      if (!vp::take()) continue;
      if (vp::shallow() && pad != 1) continue;
      vp::describe(vp::fmt("%d x %d arrays, padding %d, layout %d", g.r, g.c, pad, mode)); vp::sample(vp::fmt("all %zu arrays of %d x %d, padding %d, layout %d", total, g.r, g.c, pad, mode));
      for (size_t k = 0; k < total; ++k) {
        std::vector<double> v, y; size_t q = k; for (int i = 0; i < g.r * g.c; ++i) { v.push_back(g.v[q % g.v.size()]); q /= g.v.size(); } for (int i = 0; i < g.r; ++i) y.push_back(LAB[(k + i * 3) % 7]);
        if (!dense(g.r, g.c, v, y, pad, mode, (int)k + pad)) break;
      }
    }
  }
  for (int rows : {1, 2, 255, 256, 257, 600}) for (int cols : {1, 7, 130, 700}) {
    if (!vp::take()) continue;
    vp::describe(vp::fmt("%d x %d array", rows, cols)); vp::sample(vp::fmt("a %d x %d array", rows, cols));
    std::vector<double> v, y; for (int i = 0; i < rows * cols; ++i) v.push_back(i % 3 ? (i % 17) * 0.37 - 2 : 0); for (int i = 0; i < rows; ++i) y.push_back(LAB[i % 7]);
    for (int k = 0; k < 3; ++k) dense(rows, cols, v, y, k, k == 2, k * 4);
  }
}
// compressed rows: every arrangement of the entries of a row
typedef std::vector<std::pair<int, double>> Row;
static std::vector<Row> row_kinds(bool deep) {
  std::vector<Row> k = {{}}; static const int idx[] = {0, 1, 5}; static const double val[] = {1, -2.5, 0.1};
  for (int mask = 1; mask < 8; ++mask) { std::vector<int> p; for (int i = 0; i < 3; ++i) if (mask >> i & 1) p.push_back(i); std::sort(p.begin(), p.end()); do { Row r; for (size_t i = 0; i < p.size(); ++i) r.push_back({idx[p[i]], val[(p[i] + i) % 3]}); k.push_back(r); } while (std::next_permutation(p.begin(), p.end())); }
  if (deep) { Row r; for (int i = 0; i < 20; ++i) r.push_back({(i * 7) % 20 * 50, i * 0.5 - 3}); k.push_back(r); r.clear(); for (int i = 40; i > 0; --i) r.push_back({i, (double)i}); k.push_back(r); k.push_back({{16777216, 1.0}, {3, 2.0}}); k.push_back({{2, 0.0}, {1, 4.0}}); }
  return k;
}
static bool csr(const std::vector<Row>& rows, int base, int variant) {
  std::vector<int> ind, ptr; std::vector<double> feat, y; std::vector<Rec> want; ptr.push_back(base);
  for (size_t i = 0; i < rows.size(); ++i) { Rec r; y.push_back(LAB[(variant + i) % 7]); r.label = (int)y.back(); for (auto& e : rows[i]) { ind.push_back(e.first); feat.push_back(e.second); r.f.push_back({(uint32_t)e.first + 1, (float)e.second}); } ptr.push_back(base + (int)ind.size()); std::sort(r.f.begin(), r.f.end()); want.push_back(r); }
  Arr<int> I(ind), P(ptr); Arr<double> F(feat), Y(y); std::string path = vp::fmt("%lld;%lld;%lld;%lld;%zu", (long long)I.p, (long long)P.p, (long long)F.p, (long long)Y.p, rows.size());
  std::string who = vp::fmt("sparse matrix (base %d)", base); for (auto& r : rows) { who += " {"; for (auto& e : r) who += vp::fmt(" %d:%g", e.first, e.second); who += " }"; }
  bool ok = check("csr_matrix", path, want, variant, [&](DataIter& it, int p) { return sol_loadCsrMatrix(&it, (char*)I.p, (char*)P.p, (char*)F.p, (char*)Y.p, (int)rows.size(), p); }, who.substr(0, 600));
  if (!I.intact() || !P.intact() || !F.intact() || !Y.intact()) return bad("csr_matrix:modified", who + ": the arrays were modified");
  return ok;
}
static void sparse() {
  auto k = row_kinds(true); size_t small = row_kinds(false).size();
  for (size_t a = 0; a < k.size(); ++a) for (int base : {0, 4}) {
    if (!vp::take()) continue;
    vp::describe(vp::fmt("sparse matrices whose first row is kind %zu, base %d", a, base)); vp::sample(vp::fmt("all sparse matrices of 1-3 rows starting with row kind %zu of %zu, base %d", a, k.size(), base));
    int v = 0; bool ok = csr({k[a]}, base, v);
    for (size_t b = 0; b < k.size() && ok; ++b) { ok = csr({k[a], k[b]}, base, ++v); if (vp::shallow()) continue; for (size_t c = 0; c < small && ok; ++c) ok = csr({k[a], k[b], k[c]}, base, ++v); if (vp::thorough()) for (size_t c = 0; c < small && ok; c += 2) for (size_t d = 0; d < small && ok; ++d) ok = csr({k[a], k[b], k[c], k[d]}, base, ++v); }
  }
  for (int n : {255, 256, 257, 600}) { if (!vp::take()) continue; vp::describe(vp::fmt("sparse matrix of %d rows", n)); std::vector<Row> rows; for (int i = 0; i < n; ++i) rows.push_back(k[(i * i + 3 * i) % k.size()]); for (int v = 0; v < 6; ++v) csr(rows, v % 2 * 9, v); }
}
// descriptions that do not describe an array
static void malformed() {
  static double X[6] = {1, 2, 3, 4, 5, 6}, Y[3] = {1, -1, 1}; static int I[3] = {0, 1, 2}, P[4] = {0, 1, 2, 3};
  for (const char* key : {"numpy", "csr_matrix"}) {
    bool np = key[0] == 'n';
    std::vector<std::string> good = np ? std::vector<std::string>{vp::fmt("%lld", (long long)X), vp::fmt("%lld", (long long)Y), "3", "2", "16"} : std::vector<std::string>{vp::fmt("%lld", (long long)I), vp::fmt("%lld", (long long)P), vp::fmt("%lld", (long long)X), vp::fmt("%lld", (long long)Y), "3"};
    auto join = [](const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? ";" : "") + v[i]; return s; };
    auto refused = [&](const std::string& path) {
      vp::progress(); vp::step(); vp::trace(); vp::state(vp::hash(key + path));
      std::unique_ptr<DataReader> rd(DataReader::Create(key)); int st = rd->Open(path); bool good2 = rd->Good();
      if (st == 0 || good2) { bad(std::string(key) + ":malformed", "the description \"" + path + "\" is accepted"); return; }
      DataIter it(2, 2); if (it.AddReader(path, key, 1) == 0) bad(std::string(key) + ":malformed", "the description \"" + path + "\" is accepted by the iterator");
    };
    if (!vp::take()) continue;
    vp::describe(std::string("malformed descriptions for ") + key); vp::sample(std::string("malformed descriptions for ") + key);
    for (size_t n = 0; n <= 8; ++n) { if (n == 5) continue; std::vector<std::string> v; for (size_t i = 0; i < n; ++i) v.push_back(good[i % 5]); refused(join(v)); }
    for (size_t i = 0; i < 5; ++i) for (const char* w : {"", "abc", "12x", "-", "x12", "1.5", "99999999999999999999999", "-99999999999999999999999", "0x10", " "}) { auto v = good; v[i] = w; refused(join(v)); }
    for (size_t i = np ? 2 : 4; i < (np ? 4u : 5u); ++i) for (const char* w : {"-1", "-3", "-2147483648", "4294967299", "2147483648", "-4294967293"}) { auto v = good; v[i] = w; refused(join(v)); }
    if (np) for (const char* w : {"4294967312", "2147483648", "-2147483649"}) { auto v = good; v[4] = w; refused(join(v)); }
    for (const char* w : {"/no/such/file", "a;b;c;d;e", ";;;;", ";;;;;", "1;2;3"}) refused(w);
    std::unique_ptr<DataReader> rd(DataReader::Create(key)); std::vector<Rec> got; if (rd->Open(join(good)) != 0 || drain(rd.get(), got) != sol::Status_EndOfFile || got.size() != 3) bad(std::string(key) + ":open", "a correct description is refused");
  }
}
static void run() { denses(); sparse(); malformed(); }
VP_MAIN(run)
