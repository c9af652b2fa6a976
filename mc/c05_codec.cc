// C05: exhaustive enumeration of ascending index lists at every width; the
// real codec against a reference coder written from the format definition.
#include "vp.h"
#include <sstream>
#include <iostream>
#include <sol/pario/compress.h>
using namespace sol;
using namespace sol::pario;

typedef std::vector<uint64_t> L;

static std::string ref_encode(const L& l) {
  std::string o; uint64_t last = 0;
  for (uint64_t v : l) {
    uint64_t d = v - last; last = v;
    do { unsigned char b = d & 127; d >>= 7; if (d) b |= 128; o += (char)b; } while (d);
  }
  return o;
}
static std::string show(const L& l) {
  std::string s = "["; for (uint64_t v : l) s += vp::fmt("%llu ", (unsigned long long)v); return s + "]";
}

template <typename T> const char* wname();
template <> const char* wname<uint16_t>() { return "16"; }
template <> const char* wname<uint32_t>() { return "32"; }
template <> const char* wname<uint64_t>() { return "64"; }

template <typename T>
static void check_list(const L& l) {
  math::Vector<T> in;
  in.resize(0);
  for (uint64_t v : l) in.push_back((T)v);
  math::Vector<char> codes; codes.resize(0);
  comp_index(in, codes);
  std::string got(codes.begin(), codes.end());
  vp::step(l.size()); vp::trace();
  vp::state(vp::mix(vp::hash(got), sizeof(T)));
  if (got != ref_encode(l))
    vp::fail(std::string("encode-") + wname<T>(), "list " + show(l) + " encoded to other bytes than the seven-bit group format");
  // exactly sized copy so that an over-read is caught by the address sanitizer
  math::Vector<char> exact; exact.reserve(got.size() ? got.size() : 1); exact.resize(got.size());
  for (size_t i = 0; i < got.size(); ++i) exact[i] = got[i];
  math::Vector<T> out;
  for (int i = 0; i < 3; ++i) out.push_back(T(77));  // stale content must not survive
  decomp_index(exact, out);
  L back; for (size_t i = 0; i < out.size(); ++i) back.push_back((uint64_t)out[i]);
  if (back != l) vp::fail(std::string("roundtrip-") + wname<T>(), "list " + show(l) + " decoded to " + show(back));
  for (size_t i = 0; i < l.size(); ++i)
    if ((uint64_t)in[i] != l[i]) { vp::fail(std::string("input-modified-") + wname<T>(), "list " + show(l)); break; }
  // appending to existing codes keeps the earlier bytes and encodes the list from zero again
  math::Vector<char> app; app.resize(0); app.push_back('A'); app.push_back((char)200);
  comp_index(in, app);
  std::string a(app.begin(), app.end());
  if (a != std::string("A") + (char)200 + ref_encode(l)) vp::fail(std::string("append-") + wname<T>(), "list " + show(l));
}

template <typename T>
static void lists(const std::vector<uint64_t>& vals, int maxlen) {
  L cur;
  std::function<void(size_t)> rec = [&](size_t from) {
    if (vp::take()) {
      vp::describe(std::string("width ") + wname<T>() + " list " + show(cur));
      if (cur.size() == 3) vp::sample(std::string("width ") + wname<T>() + " " + show(cur));
      check_list<T>(cur);
    }
    if ((int)cur.size() == maxlen) return;
    for (size_t i = from; i < vals.size(); ++i) { cur.push_back(vals[i]); rec(i); cur.pop_back(); }
  };
  rec(0);
}

static void run() {
  bool th = vp::thorough();
  // boundary values of every group
  auto bnd = [](int bits) {
    std::vector<uint64_t> v = {0, 1, 2};
    for (int s = 7; s < bits; s += 7) { v.push_back((1ull << s) - 1); v.push_back(1ull << s); v.push_back((1ull << s) + 1); }
    v.push_back((1ull << (bits - 1)) - 1); v.push_back(1ull << (bits - 1));
    uint64_t mx = bits == 64 ? ~0ull : (1ull << bits) - 1;
    v.push_back(mx - 1); v.push_back(mx);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  };
  lists<uint16_t>(bnd(16), th ? 5 : 4);
  lists<uint32_t>(bnd(32), th ? 5 : 4);
  lists<uint64_t>(bnd(64), th ? 5 : 3);
  // every 16-bit value alone and as a gap after a second value
  for (uint64_t v = 0; v < 65536; v += 1) {
    if (!vp::take()) continue;
    check_list<uint16_t>(L{v}); check_list<uint32_t>(L{v});
    if (v <= 65535 - 3) check_list<uint16_t>(L{3, v + 3});
  }
  // every single-bit and all-ones gap of 64-bit numbers after every such start
  for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) {
    if (!vp::take()) continue;
    uint64_t a = 1ull << i, b = 1ull << j;
    if (a + b > a) check_list<uint64_t>(L{a, a + b});
    uint64_t c = ~0ull >> j; if (c >= a) check_list<uint64_t>(L{a, c});
  }
  // long lists: every length up to 300 with consecutive and growing gaps
  for (int n = 0; n <= 300; ++n) {
    if (!vp::take()) continue;
    L a, b, c; uint64_t x = 0;
    for (int i = 0; i < n; ++i) { a.push_back(i + 1); b.push_back((uint64_t)i * 127 + 1); x += 1ull << (i % 24); c.push_back(x); }
    check_list<uint32_t>(a); check_list<uint32_t>(b); check_list<uint64_t>(c); check_list<uint16_t>(a);
  }
}
VP_MAIN(run)
