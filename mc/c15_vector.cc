// C15: vector expressions equal element-wise arithmetic; storage handles share,
// clone, grow and are released correctly.
#include "vp.h"
#include <new>
#include <new>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
#include <sol/pario/data_point.h>
using namespace sol::math;
using namespace sol::math::expr;
typedef sol::index_t index_t;

static long live = 0;     // blocks obtained with new and not yet released
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++live; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++live; return p; }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) --live; free(p); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; free(p); }

template <typename T> static Vector<T> mk(const std::vector<T>& v) { Vector<T> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
typedef std::vector<std::pair<index_t, float>> SP;
template <typename T> static SVector<T> mks(const std::vector<std::pair<index_t, T>>& v) { SVector<T> r; r.resize(0); for (auto& e : v) r.push_back(e.first, e.second); return r; }
template <typename T> static bool same(T a, T b) {
  double x = (double)a, y = (double)b;
  if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
  if (std::isinf(x) || std::isinf(y)) return x == y;
  return std::fabs(x - y) <= 2e-6 * std::max(1e-30, std::max(std::fabs(x), std::fabs(y)));
}
static bool sum_same(double a, double b, double scale) { if (!(scale < 1e37)) return true; if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b || scale > 1e38; return std::fabs(a - b) <= 1e-5 * (scale + 1e-30); }
template <typename T> static std::string vs(const std::vector<T>& v) { std::string s = "("; for (auto x : v) s += vp::fmt(" %g", (double)x); return s + " )"; }
template <typename T> static std::string ss(const std::vector<std::pair<index_t, T>>& v) { std::string s = "{"; for (auto& x : v) s += vp::fmt(" %u:%g", (unsigned)x.first, (double)x.second); return s + " }"; }
template <typename T> static T soft(T a, T b) { if (a >= 0) return a > b ? a - b : T(0); return -a > b ? a + b : T(0); }
template <typename T> static T ab(T a) { return a < 0 ? -a : a; }

static uint64_t hv; static long nexpr;
template <typename T> static void judge(const char* what, const Vector<T>& d, const std::vector<T>& want, const std::string& in) {
  vp::step(); ++nexpr;
  if (d.size() != want.size()) { vp::fail(std::string("C15:size:") + what, in + vp::fmt(": %s has %zu elements", what, (size_t)d.size())); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    uint64_t b = 0; T v = d[i]; if (v != v) b = 1; else { float f = (float)v; memcpy(&b, &f, 4); }
    hv = vp::mix(hv, b);
    if (!same<T>(v, want[i])) { vp::fail(std::string("C15:value:") + what, in + vp::fmt(": element %zu of %s is %.9g, element-wise arithmetic gives %.9g", i, what, (double)v, (double)want[i])); return; }
  }
}

// one dense expression under all five assignments; OPERANDS a, b (dense), s (scalar)
#define DENSE_OP(OP, EXPR, FORM) { Vector<T> d = mk(vd); std::vector<T> w = vd; d OP EXPR; for (size_t i = 0; i < w.size(); ++i) { T A = va[i], B = vb[i]; (void)A; (void)B; w[i] OP (T)(FORM); } judge<T>("d " #OP " " #EXPR, d, w, in); }
#define DENSE(EXPR, FORM) DENSE_OP(=, EXPR, FORM) DENSE_OP(+=, EXPR, FORM) DENSE_OP(-=, EXPR, FORM) DENSE_OP(*=, EXPR, FORM) DENSE_OP(/=, EXPR, FORM)
// destination used as an operand
#define ALIAS(EXPR, FORM) { Vector<T> d = mk(vd); std::vector<T> w = vd; d = EXPR; for (size_t i = 0; i < w.size(); ++i) { T D = vd[i], A = va[i]; (void)A; w[i] = (T)(FORM); } judge<T>("d = " #EXPR " (d an operand)", d, w, in); }

template <typename T> static void dense(const std::vector<T>& vd, const std::vector<T>& va, const std::vector<T>& vb, T s, bool division) {
  std::string in = "d=" + vs(vd) + " a=" + vs(va) + " b=" + vs(vb) + vp::fmt(" s=%g", (double)s);
  Vector<T> a = mk(va), b = mk(vb);
  DENSE_OP(=, a + b, A + B) DENSE_OP(+=, a + b, A + B) DENSE_OP(-=, a - b, A - B) DENSE_OP(*=, a * b, A * B)
  DENSE_OP(=, a - b, A - B) DENSE_OP(=, a * b, A * B) DENSE_OP(=, s + a, s + A) DENSE_OP(=, a + s, A + s)
  DENSE_OP(=, s - a, s - A) DENSE_OP(=, a - s, A - s) DENSE_OP(=, s * a, s * A) DENSE_OP(=, a * s, A * s)
  DENSE_OP(+=, a, A) DENSE_OP(-=, a, A) DENSE_OP(*=, a, A) DENSE_OP(+=, s, s) DENSE_OP(-=, s, s) DENSE_OP(*=, s, s) DENSE_OP(=, s, s)
  DENSE_OP(=, L1(a), ab<T>(A)) DENSE_OP(+=, L1(a - b), ab<T>(A - B)) DENSE_OP(=, L2(a), A * A) DENSE_OP(=, a + s * b, A + s * B) DENSE_OP(-=, s * a * L2(b), s * A * (B * B))
  DENSE_OP(=, truncate(a, b), (soft<T>(A, B))) DENSE_OP(=, a * b + a - s * b, A * B + A - s * B)
  ALIAS(truncate(d, a), (soft<T>(D, A))) ALIAS(d + a, D + A) ALIAS(a - d, A - D) ALIAS(d * d, D * D)
  if (division) { DENSE_OP(/=, a, A) DENSE_OP(=, a / b, A / B) DENSE_OP(=, s / a, s / A) DENSE_OP(=, a / s, A / s) DENSE_OP(/=, s, s) DENSE_OP(=, -s * a / b, -s * A / B) }
  { Vector<T> d = mk(vd); d.assign(a); judge<T>("d.assign(a)", d, va, in); d[0] = d[0] + 1; judge<T>("a after changing a copied value", a, va, in); }
  { Vector<T> d = mk(vd); d.assign(s); judge<T>("d.assign(s)", d, std::vector<T>(vd.size(), s), in); }
  // reductions
  double sum = 0, l1 = 0, l2 = 0, dm = 0, dp = 0, dn = 0, sc = 0;
  for (size_t i = 0; i < va.size(); ++i) { sum += va[i]; l1 += std::fabs((double)va[i]); l2 += (double)va[i] * va[i]; dm += (double)va[i] * vb[i]; dp += (double)va[i] + vb[i]; dn += (double)va[i] - vb[i]; sc += std::fabs((double)va[i]) * (1 + std::fabs((double)vb[i])) + std::fabs((double)vb[i]) + (double)va[i] * va[i]; }
  auto red = [&](const char* n, double got, double want) { vp::step(); hv = vp::mix(hv, (uint64_t)(int64_t)(std::isfinite(got) ? got * 1000 : 1)); if (!sum_same(got, want, sc)) vp::fail(std::string("C15:reduce:") + n, in + vp::fmt(": %s is %.9g, the sum is %.9g", n, got, want)); };
  red("reduce<plus>(a)", (double)reduce<op::plus>(a), sum); red("Norm1(a)", (double)Norm1(a), l1); red("Norm2(a)", (double)Norm2(a), l2);
  red("dotmul(a,b)", (double)dotmul(a, b), dm); red("dotplus(a,b)", (double)dotplus(a, b), dp); red("dotminus(a,b)", (double)dotminus(a, b), dn);
}
static void dense_float(const std::vector<float>& vd, const std::vector<float>& va, const std::vector<float>& vb, float s) {
  typedef float T; std::string in = "d=" + vs(vd) + " a=" + vs(va) + " b=" + vs(vb) + vp::fmt(" s=%g", s);
  Vector<T> a = mk(va), b = mk(vb);
  DENSE(truncate(a, s), (soft<T>(A, s)))
  DENSE_OP(=, truncate(s, a), (soft<T>(s, A)))
  DENSE(Sqrt(L2(a)), std::sqrt(A * A)) DENSE(Sqrt(L2(a - s) + L2(b)) + s, std::sqrt((A - s) * (A - s) + B * B) + s)
  ALIAS(Sqrt(L2(d - s) + L2(s * a)) + s, std::sqrt((D - s) * (D - s) + (s * A) * (s * A)) + s)
  DENSE_OP(=, -s * truncate(a, s) / b, -s * soft<T>(A, s) / B)
  DENSE_OP(/=, (1.f + s * a * L2(b)), 1.f + s * A * (B * B))
}

// expressions with a sparse operand x: only the listed coordinates within the destination change
#define SPARSE_OP(OP, EXPR, FORM) { Vector<T> d = mk(vd); std::vector<T> w = vd; d OP EXPR; for (auto& e : vx) if (e.first < w.size()) { T A = va[e.first], B = vb[e.first], X = e.second; (void)A; (void)B; (void)X; w[e.first] OP (T)(FORM); } judge<T>("d " #OP " " #EXPR, d, w, in); }
#define SPARSE(EXPR, FORM) SPARSE_OP(=, EXPR, FORM) SPARSE_OP(+=, EXPR, FORM) SPARSE_OP(-=, EXPR, FORM) SPARSE_OP(*=, EXPR, FORM) SPARSE_OP(/=, EXPR, FORM)
#define SALIAS(OP, EXPR, FORM) { Vector<T> d = mk(vd); std::vector<T> w = vd; d OP EXPR; for (auto& e : vx) if (e.first < w.size()) { T D = vd[e.first], A = va[e.first], X = e.second; (void)A; (void)X; w[e.first] OP (T)(FORM); } judge<T>("d " #OP " " #EXPR " (d an operand)", d, w, in); }
// vd may be shorter than the sparse indexes, va and vb are long enough; with `fits` also vd is
static void sparse(const std::vector<float>& vd, const std::vector<float>& va, const std::vector<float>& vb, const SP& vx, float s) {
  typedef float T; std::string in = "d=" + vs(vd) + " a=" + vs(va) + " b=" + vs(vb) + " x=" + ss(vx) + vp::fmt(" s=%g", s);
  Vector<T> a = mk(va), b = mk(vb); SVector<T> x = mks(vx);
  SPARSE(x, X) SPARSE(s * x, s * X) SPARSE(x * s, X * s) SPARSE(a * x, A * X) SPARSE(x * a, X * A) SPARSE(a.slice(x), A)
  SPARSE_OP(=, x + a, X + A) SPARSE_OP(=, a + x, A + X) SPARSE_OP(=, a - x, A - X) SPARSE_OP(=, x - a, X - A) SPARSE_OP(=, a / x, A / X) SPARSE_OP(=, x / a, X / A) SPARSE_OP(=, s - x, s - X) SPARSE_OP(=, x - s, X - s)
  SPARSE(L2(x), X * X) SPARSE_OP(=, L1(x), ab<T>(X)) SPARSE_OP(+=, L1(x), ab<T>(X)) SPARSE_OP(-=, L1(x), ab<T>(X)) SPARSE_OP(*=, L1(x), ab<T>(X)) SPARSE_OP(=, L1(a.slice(x)), ab<T>(A)) SPARSE(s * a * L2(x), s * A * (X * X)) SPARSE_OP(-=, s * a * x, s * A * X)
  SPARSE_OP(=, -s * a.slice(x) / b, -s * A / B) SPARSE_OP(=, truncate(a.slice(x), s), (soft<T>(A, s))) SPARSE_OP(=, truncate(a.slice(x), b), (soft<T>(A, B))) SPARSE_OP(=, truncate(a.slice(x), s * (1.f - b)), (soft<T>(A, s * (1.f - B))))
  SPARSE_OP(=, -s * truncate(a.slice(x), s) / b, -s * soft<T>(A, s) / B) SPARSE_OP(=, Sqrt(L2(a - s) + L2(s * x)) + s, std::sqrt((A - s) * (A - s) + (s * X) * (s * X)) + s) SPARSE_OP(/=, (1.f + s * a * L2(x)), 1.f + s * A * (X * X))
  SPARSE_OP(+=, slice(a, x), A) SPARSE_OP(=, Sqrt(L2(x)), std::sqrt(X * X))
  bool fits = vx.empty() || vx.back().first < vd.size();
  if (fits && !vd.empty()) { SALIAS(=, truncate(d.slice(x), s), (soft<T>(D, s))) SALIAS(/=, (1.f + s * d * L2(x)), 1.f + s * D * (X * X)) SALIAS(=, Sqrt(L2(d - s) + L2(s * x)) + s, std::sqrt((D - s) * (D - s) + (s * X) * (s * X)) + s) SALIAS(-=, s * d * x, s * D * X) }
  double sum = 0, l1 = 0, l2 = 0, dm = 0, dp = 0, dmin = 0, dl2 = 0, sc = 0, ld = 0;
  for (auto& e : vx) {
    double X = e.second; sum += X; l1 += std::fabs(X); l2 += X * X; sc += std::fabs(X) * (1 + std::fabs(X));
    double A0 = va[e.first]; ld += s * A0 * X; sc += std::fabs(s * A0 * X);
    if (e.first < vd.size()) { double D = vd[e.first]; dm += D * X; dp += D + X; dmin += D - X; dl2 += D * X * X; sc += std::fabs(D) * (1 + X * X); }
  }
  Vector<T> d = mk(vd);
  auto red = [&](const char* n, double got, double want) { vp::step(); hv = vp::mix(hv, (uint64_t)(int64_t)(std::isfinite(got) ? got * 1000 : 1)); if (!sum_same(got, want, sc)) vp::fail(std::string("C15:reduce:") + n, in + vp::fmt(": %s is %.9g, the sum is %.9g", n, got, want)); };
  red("reduce<plus>(x)", reduce<op::plus>(x), sum); red("Norm1(x)", Norm1(x), l1); red("Norm2(x)", Norm2(x), l2);
  red("dotmul(d,x)", dotmul(d, x), dm); red("dotplus(d,x)", dotplus(d, x), dp); red("dotminus(d,x)", dotminus(d, x), dmin); red("dotmul(d,L2(x))", dotmul(d, L2(x)), dl2); red("dotmul(a,s*x)", dotmul(a, s * x), ld);
  // sparse with scalar
  auto sc1 = [&](const char* n, const SVector<T>& got, std::function<T(T)> f) {
    vp::step(); bool ok = got.size() == vx.size();
    for (size_t i = 0; ok && i < vx.size(); ++i) ok = got.index(i) == vx[i].first && same<T>(got.value(i), f(vx[i].second));
    if (!ok) vp::fail(std::string("C15:sparse-scalar:") + n, in + ": " + n + " is wrong");
  };
  { SVector<T> y = mks(vx); y *= s; sc1("x *= s", y, [&](T v) { return v * s; }); }
  { SVector<T> y = mks(vx); y /= s; sc1("x /= s", y, [&](T v) { return v / s; }); }
  { SVector<T> y = mks(vx); y += s; sc1("x += s", y, [&](T v) { return v + s; }); }
  { SVector<T> y = mks(vx); y -= s; sc1("x -= s", y, [&](T v) { return v - s; }); }
  { SVector<T> y = mks(vx); y = s; sc1("x = s", y, [&](T) { return s; }); }
  sc1("x unchanged", x, [&](T v) { return v; });
  if (x.dim() != (vx.empty() ? 0 : vx.back().first + 1) || x.size() != vx.size() || x.empty() != vx.empty()) vp::fail("C15:sparse-dim", in + ": wrong dimension or size");
  judge<T>("a unchanged", a, va, in); judge<T>("b unchanged", b, vb, in);
}

template <typename T> static std::vector<std::vector<T>> all(const std::vector<T>& alpha, int n) {
  std::vector<std::vector<T>> r; vp::sequences((int)alpha.size(), n, n, [&](const std::vector<int>& s) { std::vector<T> v; for (int i : s) v.push_back(alpha[i]); r.push_back(v); }); return r;
}

// ---- storage histories --------------------------------------------------
struct Cell { std::vector<float> v; std::vector<char> known; };
static const char* OPN[] = {"resize 0", "resize 1", "resize 5", "resize 12", "push 7", "push own front", "pop", "clear", "reserve 20", "share other", "construct copy of other", "copyto other", "drop", "assign 2", "write last", "share self", "scale 3", "set tail (slice_op)", "swap handles through a temporary"};
enum { NOPS = 19 };
static void history(const std::vector<int>& q) {
  long before = live; uint64_t reached = 0;
  {
    std::unique_ptr<Vector<float>> h[2]; std::shared_ptr<Cell> m[2]; float fresh = 100;
    for (int k = 0; k < 2; ++k) h[k].reset(new Vector<float>);
    auto sync = [&](int k) { if (!m[k]) m[k].reset(new Cell); };
    auto resize = [&](int k, size_t n) { sync(k); m[k]->v.resize(n, 0); m[k]->known.resize(n, 0); };
    std::string done;
    for (size_t i = 0; i < q.size(); ++i) {
      int k = q[i] / NOPS, o = q[i] % NOPS, l = 1 - k; Vector<float>& a = *h[k]; vp::step();
      done += vp::fmt(" %c:%s;", 'a' + k, OPN[o]);
      switch (o) {
        case 0: case 1: case 2: case 3: { size_t n = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? 5 : 12; a.resize(n); resize(k, n); break; }
        case 4: a.push_back(7); resize(k, m[k] ? m[k]->v.size() + 1 : 1); m[k]->v.back() = 7; m[k]->known.back() = 1; break;
        case 5: if (!m[k] || m[k]->v.empty() || !m[k]->known[0]) break; a.push_back(a[0]); resize(k, m[k]->v.size() + 1); m[k]->v.back() = m[k]->v[0]; m[k]->known.back() = 1; break;
        case 6: { bool threw = false, want = !m[k] || m[k]->v.empty(); try { a.pop_back(); } catch (std::exception&) { threw = true; } if (threw != want) { vp::fail("C15:pop", done + " pop of an empty vector not refused or pop refused"); return; } if (!want) resize(k, m[k]->v.size() - 1); break; }
        case 7: a.clear(); resize(k, 0); break;
        case 8: a.reserve(20); sync(k); break;
        case 9: a = *h[l]; m[k] = m[l]; break;
        case 10: h[k].reset(); h[k].reset(new Vector<float>(*h[l])); m[k] = m[l]; break;
        case 11: if (!m[k]) break; a.copyto(*h[l]); sync(l); if (m[k] != m[l]) *m[l] = *m[k]; break;
        case 12: h[k].reset(new Vector<float>); m[k].reset(); break;
        case 13: if (!m[k]) break; a = 2.f; for (size_t j = 0; j < m[k]->v.size(); ++j) { m[k]->v[j] = 2; m[k]->known[j] = 1; } break;
        case 14: if (!m[k] || m[k]->v.empty()) break; a.back() = ++fresh; m[k]->v.back() = fresh; m[k]->known.back() = 1; break;
        case 15: { const Vector<float>& self = a; a = self; break; }
        case 16: if (!m[k]) break; a *= 3.f; for (float& v : m[k]->v) v *= 3; break;
        case 17: { if (!m[k] || m[k]->v.size() < 2) break; a.slice_op([](float& v) { v = -4; }, 1); for (size_t j = 1; j < m[k]->v.size(); ++j) { m[k]->v[j] = -4; m[k]->known[j] = 1; } break; }
        case 18: { Vector<float> t(a); a = *h[l]; *h[l] = t; std::swap(m[k], m[l]); break; }
      }
      for (int j = 0; j < 2; ++j) {
        const Vector<float>& v = *h[j]; size_t n = m[j] ? m[j]->v.size() : 0;
        if (v.size() != n || v.dim() != n || v.empty() != (n == 0)) { vp::fail("C15:history-size", done + vp::fmt(" %c has %zu elements, %zu expected", 'a' + j, (size_t)v.size(), n)); return; }
        for (size_t e = 0; e < n; ++e) {
          if (!m[j]->known[e]) { volatile float z = v[e]; (void)z; continue; }
          if (!(v[e] == m[j]->v[e])) { vp::fail("C15:history-value", done + vp::fmt(" %c[%zu] is %g, %g expected", 'a' + j, e, v[e], m[j]->v[e])); return; }
        }
        if (n && m[j]->known[n - 1] && v.back() != m[j]->v[n - 1]) { vp::fail("C15:history-back", done + " back() is not the last element"); return; }
      }
    }
    uint64_t hh = 7; for (int j = 0; j < 2; ++j) { hh = vp::mix(hh, m[j] ? m[j]->v.size() + 1 : 0); if (m[j]) for (size_t e = 0; e < m[j]->v.size(); ++e) hh = vp::mix(hh, m[j]->known[e] ? (uint64_t)(int64_t)m[j]->v[e] : 999); }
    reached = vp::mix(hh, m[0] == m[1]);
  }
  vp::trace();
  if (live != before) { std::string d; for (int x : q) d += vp::fmt(" %c:%s;", 'a' + x / NOPS, OPN[x % NOPS]); vp::fail("C15:history-leak", d + vp::fmt(" %ld blocks %s after all handles are gone", std::labs(live - before), live > before ? "remain" : "too many released")); live = before; }
  vp::state(reached);
}
// data points: share by copy, independent by Clone
static const char* DPN[] = {"add 3:1", "add 1:2", "clear", "resize 1", "share other", "clone into other", "clone of other", "sort", "scale 2", "label 5", "drop"};
enum { NDP = 11 };
static void points(const std::vector<int>& q) {
  long before = live; uint64_t reached = 0;
  {
    struct Data { std::vector<std::pair<index_t, float>> f; };
    struct H { std::shared_ptr<Data> d; int label = 0; } m[2];
    std::unique_ptr<sol::pario::DataPoint> h[2]; for (auto& x : h) x.reset(new sol::pario::DataPoint);
    std::string done;
    for (int x : q) {
      int k = x / NDP, o = x % NDP, l = 1 - k; auto& a = *h[k]; vp::step(); done += vp::fmt(" %c:%s;", 'a' + k, DPN[o]);
      auto need = [&](int j) { if (!m[j].d) m[j].d.reset(new Data); };
      switch (o) {
        case 0: a.AddNewFeat(3, 1); need(k); m[k].d->f.push_back({3, 1.f}); break;
        case 1: a.AddNewFeat(1, 2); need(k); m[k].d->f.push_back({1, 2.f}); break;
        case 2: a.Clear(); need(k); m[k].d->f.clear(); m[k].label = 0; break;
        case 3: if (!m[k].d || m[k].d->f.empty()) break; a.Resize(1); m[k].d->f.resize(1); break;
        case 4: a = *h[l]; m[k] = m[l]; break;
        case 5: a.Clone(*h[l]); need(l); { std::vector<std::pair<index_t, float>> f; if (m[k].d) f = m[k].d->f; m[l].d->f = f; } m[l].label = m[k].label; break;
        case 6: { h[k].reset(new sol::pario::DataPoint(h[l]->Clone())); m[k].d.reset(new Data); if (m[l].d) m[k].d->f = m[l].d->f; m[k].label = m[l].label; break; }
        case 7: { if (!m[k].d || m[k].d->f.empty()) break; a.Sort(); auto w = m[k].d->f; std::vector<std::pair<index_t, float>> g; for (size_t i = 0; i < a.size(); ++i) g.push_back({a.index(i), a.feature(i)}); for (size_t i = 1; i < g.size(); ++i) if (g[i].first < g[i - 1].first) { vp::fail("C15:sort", done + " not ascending"); return; } auto ws = w, gs = g; std::sort(ws.begin(), ws.end()); std::sort(gs.begin(), gs.end()); if (ws != gs) { vp::fail("C15:sort", done + " features changed by sorting"); return; } m[k].d->f = g; break; }
        case 8: if (!m[k].d) break; a.data() *= 2.f; for (auto& f : m[k].d->f) f.second *= 2; break;
        case 9: a.set_label(5); m[k].label = 5; break;
        case 10: h[k].reset(new sol::pario::DataPoint); m[k].d.reset(); m[k].label = 0; break;
      }
      for (int j = 0; j < 2; ++j) {
        size_t n = m[j].d ? m[j].d->f.size() : 0; bool ok = h[j]->size() == n && h[j]->label() == m[j].label && (size_t)h[j]->dim() == (n ? m[j].d->f.back().first + 1 : 0);
        for (size_t i = 0; ok && i < n; ++i) ok = h[j]->index(i) == m[j].d->f[i].first && h[j]->feature(i) == m[j].d->f[i].second;
        if (!ok) { vp::fail("C15:point-history", done + vp::fmt(" data point %c is not as expected", 'a' + j)); return; }
      }
    }
    uint64_t hh = 11; for (int j = 0; j < 2; ++j) { hh = vp::mix(hh, m[j].label + (m[j].d ? 100 : 0)); if (m[j].d) for (auto& f : m[j].d->f) hh = vp::mix(hh, f.first * 1000 + (int)f.second); }
    reached = vp::mix(hh, m[0].d == m[1].d);
  }
  vp::trace();
  if (live != before) { std::string d; for (int x : q) d += vp::fmt(" %c:%s;", 'a' + x / NDP, DPN[x % NDP]); vp::fail("C15:point-leak", d + vp::fmt(" %ld blocks not accounted for", live - before)); live = before; }
  vp::state(reached);
}

static void matrices(int r, int c) {
  std::vector<float> v; for (int i = 0; i < r * c; ++i) v.push_back(0.5f + i * 1.25f * (i % 2 ? -1 : 1));
  std::string in = vp::fmt("%dx%d matrix", r, c);
  Matrix<float> a({(size_t)r, (size_t)c}), b({(size_t)r, (size_t)c}); for (size_t i = 0; i < v.size(); ++i) { a[i] = v[i]; b[i] = 2; }
  const Matrix<float>& ca = a;
  for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) { vp::step(); if (a(x, y) != v[y * c + x] || ca(x, y) != v[y * c + x]) vp::fail("C15:matrix-element", in + vp::fmt(" element row %d column %d is %g (%g through a constant reference), %g was stored", y, x, a(x, y), ca(x, y), v[y * c + x])); }
  if (a.rows() != (size_t)r || a.cols() != (size_t)c || a.size() != v.size()) vp::fail("C15:matrix-shape", in + " reports another shape");
  Matrix<float> d({(size_t)r, (size_t)c}); d = a * b + 1.f;
  for (size_t i = 0; i < v.size(); ++i) if (d[i] != v[i] * 2 + 1) vp::fail("C15:matrix-arith", in + " a*b+1 is wrong");
  auto e = a * b; for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) if (e(x, y) != v[y * c + x] * 2) vp::fail("C15:matrix-arith", in + " element of an expression is wrong");
  Matrix<float> k; a.copyto(k); k[0] = 77; if (a[0] != v[0] || k.rows() != (size_t)r || k.cols() != (size_t)c) vp::fail("C15:matrix-copyto", in + " copy is not independent");
  for (size_t i = 1; i < v.size(); ++i) if (k[i] != v[i]) vp::fail("C15:matrix-copyto", in + " copy differs");
  std::ostringstream os; os << a << "\n"; std::istringstream is(os.str()); Matrix<float> z({(size_t)r, (size_t)c}); is >> z;
  for (size_t i = 0; i < v.size(); ++i) if (z[i] != v[i]) vp::fail("C15:matrix-stream", in + " written and read back differs");
  // rows are kept when a matrix grows downwards
  a.resize({(size_t)r + 3, (size_t)c}); for (size_t i = 0; i < v.size(); ++i) if (a[i] != v[i]) vp::fail("C15:matrix-resize", in + " lost elements when growing");
  // another shape is refused and the destination untouched
  Matrix<float> o({(size_t)r, (size_t)c + 1}); o = 3.f; bool threw = false;
  try { o += d; } catch (std::exception&) { threw = true; }
  if (!threw) vp::fail("C15:shape-accepted", in + " added to a matrix of another shape");
  for (size_t i = 0; i < o.size(); ++i) if (o[i] != 3.f) vp::fail("C15:shape-accepted", in + " changed by a refused operation");
  threw = false; try { o = d + o; } catch (std::exception&) { threw = true; } if (!threw) vp::fail("C15:shape-accepted", in + " sum of different shapes accepted");
  threw = false; try { (void)dotmul(d, o); } catch (std::exception&) { threw = true; } if (!threw) vp::fail("C15:shape-accepted", in + " product of different shapes accepted");
  vp::trace();
}

// shapes of one to four dimensions
template <int K> static void shapes(std::initializer_list<size_t> l, const std::vector<size_t>& v) {
  vp::step(); sol::math::Shape<K> s(l), t(s), u; std::string who = "shape";
  for (size_t x : v) who += vp::fmt(" %zu", x);
  u = s; bool zero = true; for (size_t x : v) if (x) zero = false;
  sol::math::Shape<K> z; if (!(s == t) || s != u || (s == z) != zero) vp::fail("C15:shape", who + ": copies differ or equality is wrong");
  for (int a = 0; a <= K; ++a) for (int b = a; b <= K; ++b) { size_t w = 1; for (int i = a; i < b; ++i) w *= v[i]; if (s.size(a, b) != w) vp::fail("C15:shape", who + vp::fmt(": size(%d,%d) is %zu instead of %zu", a, b, s.size(a, b), w)); }
  for (int a = 0; a < K; ++a) { size_t w = 1; for (int i = a + 1; i < K; ++i) w *= v[i]; if (s.offset(a) != w || s[a] != v[a]) vp::fail("C15:shape", who + vp::fmt(": extent or offset of dimension %d is wrong", a)); sol::math::Shape<K> c(s); c[a] = v[a] + 1; if (c == s || !(c != s)) vp::fail("C15:shape", who + vp::fmt(" equals a shape that differs in dimension %d", a)); }
  size_t w = 1; for (int i = 0; i + 1 < K; ++i) w *= v[i]; auto f = s.FlatTo2D(); if (f[0] != w || f[1] != v[K - 1]) vp::fail("C15:shape", who + ": flattened wrongly");
}
static void all_shapes() {
  if (!vp::take()) return;
  vp::describe("shapes"); vp::sample("all shapes of 1-4 dimensions of extent 0-3");
  for (size_t a = 0; a < 4; ++a) { shapes<1>({a}, {a}); for (size_t b = 0; b < 4; ++b) { shapes<2>({a, b}, {a, b}); for (size_t c = 0; c < 4; ++c) { shapes<3>({a, b, c}, {a, b, c}); for (size_t d = 0; d < 4; ++d) shapes<4>({a, b, c, d}, {a, b, c, d}); } } }
}
static void run() {
  bool T = vp::thorough();
  all_shapes();
  std::vector<float> F = {0.f, -2.5f, 0.75f, 3.f}, S = {0.f, 1.f, -0.5f, 2.f};
  // dense, all triples of vectors
  for (int n = 1; n <= 2; ++n) for (auto& va : all(F, n)) for (float s : S) {
    if (!vp::take()) continue;
    vp::describe("dense " + vs(va)); vp::sample("all dense expressions, a=" + vs(va) + vp::fmt(" s=%g, all b and destinations of %d elements", s, n));
    for (auto& vb : all(F, n)) for (auto& vd : all(F, n)) { hv = 1; dense<float>(vd, va, vb, s, true); dense_float(vd, va, vb, s); vp::state(hv); vp::trace(); }
    for (auto& vb : all(F, n)) { auto vd = vb; std::reverse(vd.begin(), vd.end()); std::vector<double> a(va.begin(), va.end()), b(vb.begin(), vb.end()), d(vd.begin(), vd.end()); dense<double>(d, a, b, s, true); std::vector<int> ia(va.begin(), va.end()), ib(vb.begin(), vb.end()), id(vd.begin(), vd.end()); dense<int>(id, ia, ib, (int)(s * 2), false); vp::trace(); }
  }
  for (int n : {3, 4}) for (auto& va : all(T ? F : std::vector<float>{0.f, -2.5f, 3.f}, n)) {
    if (!vp::take()) continue;
    vp::describe("dense " + vs(va)); 
    std::vector<float> vd(va); std::rotate(vd.begin(), vd.begin() + 1, vd.end());
    for (auto& vb : all(F, n)) { hv = 2; dense<float>(vd, va, vb, -0.5f, true); if (n == 3) dense_float(vd, va, vb, 2.f); vp::state(hv); vp::trace(); }
  }
  // extreme values
  std::vector<float> X = {0.f, -0.f, 1e-40f, -1e38f, 3e38f, INFINITY, -INFINITY, NAN, 1.f};
  for (float p : X) for (float q : X) { if (!vp::take()) continue; vp::describe("extreme"); for (float r : X) for (float s : X) { hv = 3; dense<float>({r, 1}, {p, 1}, {q, 2}, s, true); vp::state(hv); } vp::trace(); }
  // long vectors
  for (int n = 1; n <= (T ? 2000 : 300); ++n) {
    if (!vp::take()) continue;
    std::vector<float> a, b, d; for (int i = 0; i < n; ++i) { a.push_back((i * 7 % 11) - 5.f); b.push_back((i * 5 % 7) - 2.5f); d.push_back((i * 3 % 13) - 6.f); }
    hv = 4; dense<float>(d, a, b, 1.5f, true); dense_float(d, a, b, 0.5f);
    SP x; for (int i = 0; i < n; i += 1 + i % 3) x.push_back({(index_t)i, a[i] + 0.25f}); std::vector<float> shortd(d.begin(), d.begin() + n / 2 + 1); sparse(d, a, b, x, 0.5f); sparse(shortd, a, b, x, 2.f); vp::state(hv); vp::trace();
  }
  // sparse: every index set within 6 coordinates of up to 3, destinations of 1..6
  std::vector<float> XV = {-1.5f, 0.f, 2.f};
  for (int mask = 0; mask < 64; ++mask) {
    std::vector<index_t> idx; for (int i = 0; i < 6; ++i) if (mask >> i & 1) idx.push_back(i);
    if (idx.size() > (T ? 4u : 3u)) continue;
    for (int n = 0; n <= 6; ++n) {
      if (!vp::take()) continue;
      vp::describe(vp::fmt("sparse mask %d destination %d", mask, n)); vp::sample(vp::fmt("all sparse expressions over index set %d, destination of %d elements", mask, n));
      std::vector<std::vector<float>> ds; for (float f : F) { std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(f + i * 0.5f); ds.push_back(v); if (!n) break; }
      std::vector<std::vector<float>> as = {{1, -2, 3, 0.5f, 0, 4}, {0, 0.25f, -1, 2, -3, 1}};
      for (auto& xs : all(XV, (int)idx.size())) { SP x; for (size_t i = 0; i < idx.size(); ++i) x.push_back({idx[i], xs[i]}); for (auto& d : ds) for (auto& a : as) for (float s : {0.5f, -2.f}) { hv = 5; sparse(d, a, as[0], x, s); vp::state(hv); vp::trace(); } }
    }
  }
  // histories
  int D = T ? 5 : 4;
  for (int f = 0; f < 2 * NOPS; ++f) for (int g = 0; g < 2 * NOPS; ++g) {
    if (!vp::take()) continue;
    vp::describe("history"); vp::sample(vp::fmt("all histories of up to %d storage operations beginning with %c:%s, %c:%s", D, 'a' + f / NOPS, OPN[f % NOPS], 'a' + g / NOPS, OPN[g % NOPS]));
    vp::sequences(2 * NOPS, 0, D - 2, [&](const std::vector<int>& s) { std::vector<int> q = {f, g}; q.insert(q.end(), s.begin(), s.end()); vp::progress(); history(q); });
  }
  for (int f = 0; f < 2 * NDP; ++f) for (int g = 0; g < 2 * NDP; ++g) {
    if (!vp::take()) continue;
    vp::describe("data point history");
    vp::sequences(2 * NDP, 0, T ? 4 : 3, [&](const std::vector<int>& s) { std::vector<int> q = {f, g}; q.insert(q.end(), s.begin(), s.end()); vp::progress(); points(q); });
  }
  for (int r = 1; r <= 6; ++r) for (int c = 1; c <= 6; ++c) { if (!vp::take()) continue; vp::describe("matrix"); matrices(r, c); }
  vp::extra("expressions_evaluated", nexpr);
}
VP_MAIN(run)
