// C06: text records parse to exactly what they say; malformed ones are
// rejected.  Enumerates lines (all short strings over a character alphabet,
// all number spellings in all positions, all feature orders, all line lengths
// around buffer growth) and files, against an independent grammar.
#include "rec.h"
using namespace sol::pario;
typedef std::string S;

// --- reference grammar ------------------------------------------------------
// verdict: 0 must be rejected, 1 must be accepted as given, 2 unspecified
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
// decimal number at s[i]; returns end or npos
static size_t number(const S& s, size_t i, bool sign_ok, bool* plain) {
  size_t b = i; *plain = true;
  if (sign_ok && i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  size_t d = 0;
  while (i < s.size() && dg(s[i])) { ++i; ++d; }
  if (i < s.size() && s[i] == '.') { *plain = false; ++i; while (i < s.size() && dg(s[i])) { ++i; ++d; } }
  if (!d) return S::npos;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    *plain = false; ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t e = 0; while (i < s.size() && dg(s[i])) { ++i; ++e; }
    if (!e) return S::npos;
  }
  (void)b; return i;
}
static void skip(const S& s, size_t& i) { while (i < s.size() && ws(s[i])) ++i; }

static int ref(const S& line, bool csv, Rec* r) {
  r->f.clear(); r->label = 0;
  size_t i = 0; bool plain, dontcare = false;
  skip(line, i);
  size_t e = number(line, i, true, &plain);
  if (e == S::npos) return 0;
  double lab = strtod(line.substr(i, e - i).c_str(), nullptr);
  if (lab != std::floor(lab)) return 0;
  if (lab > 2147483647.0 || lab < -2147483648.0) return 0;
  if (!plain) dontcare = true;           // 1.0, 1e2: an integer in disguise
  r->label = (int)lab;
  i = e;
  if (csv) {
    uint32_t idx = 1;
    for (;;) {
      skip(line, i);
      if (i == line.size()) break;
      if (line[i] != ',') return 0;
      ++i; skip(line, i);
      e = number(line, i, true, &plain);
      if (e == S::npos) return 0;
      float v = (float)strtod(line.substr(i, e - i).c_str(), nullptr);
      if (v != 0) r->f.push_back({idx, v});
      ++idx; i = e;
    }
    return dontcare ? 2 : 1;
  }
  for (;;) {
    size_t w = i; skip(line, i);
    if (i == line.size()) break;
    if (i == w) return 0;                // fields have to be separated
    e = number(line, i, false, &plain);
    if (e == S::npos) return 0;
    double ix = strtod(line.substr(i, e - i).c_str(), nullptr);
    if (ix != std::floor(ix) || ix > 4294967295.0) return 0;
    if (!plain || ix < 1) dontcare = true;
    i = e; skip(line, i);
    if (i == line.size() || line[i] != ':') return 0;
    ++i; skip(line, i);
    e = number(line, i, true, &plain);
    if (e == S::npos) return 0;
    float v = (float)strtod(line.substr(i, e - i).c_str(), nullptr);
    r->f.push_back({(uint32_t)ix, v});
    i = e;
  }
  std::stable_sort(r->f.begin(), r->f.end(), [](const std::pair<uint32_t, float>& a, const std::pair<uint32_t, float>& b) { return a.first < b.first; });
  for (size_t k = 1; k < r->f.size(); ++k) if (r->f[k].first == r->f[k - 1].first) dontcare = true;
  return dontcare ? 2 : 1;
}

static bool near_rec(const Rec& a, const Rec& b) { return near_same(a, b, 2.5e-7, 3e-45); }

struct Src {  // one file, opened by one format's reader
  S path; Src() : path(vp::tmp("f")) {}
  std::unique_ptr<DataReader> open(const S& body, bool csv) {
    vp::write_file(path, csv ? "label,a,b,c\n" + body : body);
    std::unique_ptr<DataReader> r(DataReader::Create(csv ? "csv" : "svm"));
    if (r->Open(path) != 0) { vp::fail("open", "a file was refused: " + body); r.reset(); }
    return r;
  }
};

static void line_case(Src& src, const S& line, bool csv, bool nl) {
  Rec want; int v = ref(line, csv, &want);
  auto rd = src.open(nl ? line + "\n" : line, csv);
  if (!rd) return;
  if (!nl && line.empty()) return;
  const char* f = csv ? "csv" : "svm";
  if (!rd->Good()) vp::fail(vp::fmt("C06:%s-good", f), "the reader is not good after opening a file with \"" + line + "\"");
  DataPoint dp; int st = rd->Next(dp);
  vp::step(); vp::trace();
  if (!line.empty() && rd->Good() != (st == sol::Status_OK)) vp::fail(vp::fmt("C06:%s-good", f), vp::fmt("the reader is %s after status %d for \"", rd->Good() ? "good" : "not good", st) + line + "\"");
  if (st == sol::Status_OK) {
    Rec got = from_dp(dp);
    vp::state(hash_rec(got, 1 + csv));
    if (v == 0) vp::fail(vp::fmt("C06:%s-accepts-malformed", f), "accepted \"" + line + "\" as {" + show(got) + "}");
    else if (v == 1 && !near_rec(got, want)) vp::fail(vp::fmt("C06:%s-wrong-record", f), "\"" + line + "\" gave {" + show(got) + "} instead of {" + show(want) + "}");
    int e = rd->Next(dp);
    if (e != sol::Status_EndOfFile) vp::fail(vp::fmt("C06:%s-end", f), "after the only line \"" + line + "\" the status is not end of file");
  } else {
    vp::state(vp::mix(3 + csv, st));
    if (v == 1) vp::fail(vp::fmt("C06:%s-rejects-wellformed", f), vp::fmt("status %d for \"", st) + line + "\"");
    if (st != sol::Status_Invalid_Format && !(line.empty() && st == sol::Status_EndOfFile)) vp::fail(vp::fmt("C06:%s-status", f), vp::fmt("status %d instead of a format error for \"", st) + line + "\"");
  }
}

static void chars(const S& al, int len, bool csv) {
  // one case = one prefix of three characters
  Src src;
  int k = (int)al.size(); int pre = std::min(3, len);
  vp::sequences(k, pre, pre, [&](const std::vector<int>& p) {
    if (!vp::take()) return;
    S base; for (int c : p) base += al[c];
    vp::describe(S("all lines beginning with \"") + base + "\" csv=" + (csv ? "1" : "0"));
    vp::sequences(k, 0, len - pre, [&](const std::vector<int>& q) { S l = base; for (int c : q) l += al[c]; line_case(src, l, csv, true); });
  });
}

static void run() {
  bool T = vp::thorough();
  Src src;
  // A. all short lines over the significant characters
  for (int csv = 0; csv < 2; ++csv) {
    chars(csv ? "1,- .e" : "1:- .e", T ? 8 : 7, csv);
    chars(csv ? "20,x\t+" : "20:x\t+", T ? 7 : 6, csv);
  }
  if (vp::take()) for (int csv = 0; csv < 2; ++csv) for (const char* l : {"", " ", "\t", "1", "-", "+", ".", "x", "1 ", " 1", "\r", "-1", "12", "1x"}) line_case(src, l, csv, true);
  // B. all number spellings in all positions
  std::vector<S> num, badnum = {"", "-", "+", ".", "e5", "-e5", "1e", "1e+", "1e-", "+-1", "-+1", "--1", "1-", "abc", "1a", "a1", "0x10", "1.2.3", "nan", "inf", "-inf", "1_0", "1;2", "$", "1e5.5", "1e5e5", "\"1\"", "1:1:1", "%d"};
  for (const char* sg : {"", "+", "-"}) for (const char* m : {"0", "5", "12", "007", "3.25", "0.1", "2.", ".5", "0.1234567891", "1234567.5", "1234567890", "123456789012", "0.00000001234", "0.33333333333333333333333333333333", "99999999", "16777217", "1.17549435", "340282346638528859811704183484516925440"})
    for (const char* ex : {"", "e0", "E+2", "e-3", "e10", "E-7", "e-30", "e-38", "e28", "e+0005"}) {
      S t = S(sg) + m + ex;
      double d = strtod(t.c_str(), nullptr);
      if (std::fabs(d) > 3.4e38 || (d != 0 && std::fabs(d) < 1.2e-38)) continue;
      num.push_back(t);
    }
  for (auto& n : num) { if (!vp::take()) continue; vp::describe("number " + n); vp::sample("number " + n + " in every position");
    for (int nl = 0; nl < 2; ++nl) {
      line_case(src, "1 3:" + n, false, nl); line_case(src, "1 3:" + n + " 7:2", false, nl); line_case(src, "1 2:1 3:" + n + " ", false, nl);
      line_case(src, "-1 9:1 3: " + n + "\t1:4", false, nl);
      line_case(src, "1," + n, true, nl); line_case(src, "1,2," + n + ",3", true, nl); line_case(src, "1, " + n + " ,0", true, nl);
      line_case(src, n, false, nl); line_case(src, n + " 1:1", false, nl); line_case(src, " " + n + "\t1:1", false, nl); line_case(src, n + ",4", true, nl); line_case(src, n, true, nl);
      line_case(src, "1 " + n + ":1", false, nl); line_case(src, "1 1:1 " + n + ":1", false, nl);
    } }
  for (auto& n : badnum) { if (!vp::take()) continue; vp::describe("non-number " + n); vp::sample("non-number '" + n + "' in every position");
    for (int nl = 0; nl < 2; ++nl) for (const char* sp : {"", " ", "\t "}) {
      line_case(src, "1 3:" + S(sp) + n, false, nl); line_case(src, "1 3:" + S(sp) + n + " 7:2", false, nl); line_case(src, "1 2:1 3:" + S(sp) + n + " ", false, nl);
      line_case(src, "1," + S(sp) + n, true, nl); line_case(src, "1,2," + S(sp) + n + ",3", true, nl); line_case(src, "1," + S(sp) + n + " ,0", true, nl);
      line_case(src, S(sp) + n, false, nl); line_case(src, S(sp) + n + " 1:1", false, nl); line_case(src, S(sp) + n + ",4", true, nl); line_case(src, S(sp) + n, true, nl);
      line_case(src, "1 " + S(sp) + n + ":1", false, nl); line_case(src, "1 1:1 " + S(sp) + n + ":1", false, nl);
      line_case(src, "1 2 " + S(sp) + n, false, nl);
    } }
  // integer extremes as labels and indices
  for (const char* l : {"2147483647", "-2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "4294967297", "99999999999999999999", "1e9", "1e10", "10e0", "0", "-0", "+0", "1.0", "1.5"})
    if (vp::take()) for (int nl = 0; nl < 2; ++nl) { line_case(src, S(l) + " 1:1", false, nl); line_case(src, S(l) + ",1", true, nl); line_case(src, S("1 ") + l + ":1", false, nl); line_case(src, S("1 2:3 ") + l + ":1", false, nl); }
  // C. every order of the features of a record
  int maxp = T ? 8 : 7;
  for (int n = 1; n <= maxp; ++n) {
    if (!vp::take()) continue;
    vp::describe(vp::fmt("all orders of %d features", n));
    std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
    do { S l = "1"; for (int i : p) l += vp::fmt(" %d:%g", i * i + i + 1, i + 0.5); line_case(src, l, false, true); } while (std::next_permutation(p.begin(), p.end()));
  }
  for (int n : {10, 100, 1000, 3000}) for (int k = 0; k < 6; ++k) {
    if (!vp::take()) continue;
    S l = "1";
    for (int i = 0; i < n; ++i) { int j = k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : k == 3 ? (i + n / 2) % n : k == 4 ? (int)((i * 7919LL) % n) : (i == n - 2 ? n - 1 : i == n - 1 ? n - 2 : i);
      l += vp::fmt(" %d:%d.25", j + 1, j); }
    if (k == 4 && n % 7919 == 0) continue;
    line_case(src, l, false, true);
  }
  // D. line lengths around the growth of the line buffer (4096, 8192, ...)
  for (int base : {4096, 8192, 16384}) for (int d = -6; d <= 6; ++d) for (int csv = 0; csv < 2; ++csv) for (int how = 0; how < 3; ++how) {
    if (!vp::take()) continue;
    size_t len = base + d; S l = csv ? "7,1.5" : "7 1:1.5";
    vp::describe(vp::fmt("line of %zu bytes, csv=%d how=%d", len, csv, how));
    if (how == 0) while (l.size() < len) l += ' ';
    else if (how == 1) { int i = 2; for (;;) { S a = csv ? vp::fmt(",%d", i) : vp::fmt(" %d:%d", i, i); if (l.size() + a.size() > len) break; l += a; ++i; } while (l.size() < len) l += '0'; }
    else { S a = csv ? ",0." : " 9:0."; l += a; while (l.size() < len) l += (char)('0' + l.size() % 10); }
    for (int nl = 0; nl < 2; ++nl) line_case(src, l, csv, nl);
    // the following line must not be disturbed
    auto rd = src.open(l + "\n" + (csv ? "3,4" : "3 1:4"), csv); if (!rd) continue;
    Rec w1, w2; ref(l, csv, &w1); w2.label = 3; w2.f.push_back({1u, 4.f});
    std::vector<Rec> got; int st = drain(rd.get(), got, 10);
    if (st != 3 || got.size() != 2 || !near_rec(got[0], w1) || !near_rec(got[1], w2)) vp::fail("C06:long-line", vp::fmt("line of %zu bytes followed by another: %zu records, status %d", len, got.size(), st));
  }
  // F. every byte value inserted into and substituted at every position
  for (int csv = 0; csv < 2; ++csv) for (const char* bl : {"1 2:3.5 40:-1e2", "-12", " 7 1:0\t", "1,2.5,-1e2", " 3 , 0 ,+4"})
    for (int c = 1; c < 256; ++c) {
      if (c == '\n' || c == '\v' || c == '\f') continue;
      if (!vp::take()) continue;
      S b = bl; vp::describe(vp::fmt("byte %d at every position of \"", c) + b + "\"");
      for (size_t i = 0; i <= b.size(); ++i) for (int sub = 0; sub < (i < b.size() ? 2 : 1); ++sub) {
        S l = b.substr(0, i) + (char)c + b.substr(i + sub);
        line_case(src, l, csv, true);
        // the lines around it keep their meaning
        Rec r; if (ref(l, csv, &r) != 0) continue;
        auto rd = src.open(S(csv ? "5,6\n" : "5 1:6\n") + l + "\n" + (csv ? "8,9" : "8 1:9"), csv); if (!rd) return;
        std::vector<Rec> got; int st = drain(rd.get(), got, 10);
        if (st != sol::Status_Invalid_Format || got.size() != 1) vp::fail(vp::fmt("C06:%s-skips-malformed", csv ? "csv" : "svm"), vp::fmt("%zu records, status %d when the second of three lines is malformed: \"", got.size(), st) + l + "\"");
      }
    }
  // E. files of several lines: order, end, rewind, errors in the middle
  std::vector<S> sl = {"1 1:2 3:4", "-1", "2 5:-1.5 2:1", S("7 1:1") + S(5000, ' ') + "9:3", "1 1:x", "\n-", " 3 4:1 \r"};
  std::vector<S> cl = {"1,2,0,4", "-1,0,0,0", "2 , 1 , 0 , -1.5", S("7,1") + S(5000, ' ') + ",3,0", "1,x,0,0", "x", "3,0,0,1\r"};
  for (int csv = 0; csv < 2; ++csv) vp::sequences((int)sl.size(), 0, T ? 4 : 3, [&](const std::vector<int>& q) {
    if (!vp::take()) return;
    for (int nl = 0; nl < 2; ++nl) {
      if (!nl && q.empty()) continue;
      S body; std::vector<Rec> want; bool bad = false;
      for (size_t i = 0; i < q.size(); ++i) {
        S l = csv ? cl[q[i]] : sl[q[i]]; if (l == "\n-") l = "-";
        body += l; if (i + 1 < q.size() || nl) body += "\n";
        Rec r; int v = ref(l, csv, &r); if (v == 0) bad = true; if (!bad) want.push_back(r);
      }
      vp::describe("file: " + body.substr(0, 300)); vp::sample("file: " + body.substr(0, 60));
      auto rd = src.open(body, csv); if (!rd) return;
      int good_end = bad ? sol::Status_Invalid_Format : sol::Status_EndOfFile;
      auto pass = [&](size_t upto, const char* what) {
        std::vector<Rec> got; DataPoint dp; int st = 0;
        while (got.size() < upto && (st = rd->Next(dp)) == 0) { got.push_back(from_dp(dp)); vp::step(); }
        size_t n = std::min(upto, want.size());
        bool ok = got.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = near_rec(got[i], want[i]);
        if (ok && n < upto && st != good_end) ok = false;
        vp::trace(); uint64_t h = 9; for (auto& r : got) h = hash_rec(r, h); vp::state(vp::mix(h, st));
        if (!ok) vp::fail(vp::fmt("C06:%s-file", csv ? "csv" : "svm"), S(what) + ": got " + show(got) + vp::fmt(" status %d, expected ", st) + show(want) + vp::fmt(" status %d from ", good_end) + body.substr(0, 200));
      };
      pass(100, "first pass");
      if (!bad && rd->Next(*std::unique_ptr<DataPoint>(new DataPoint)) != sol::Status_EndOfFile) vp::fail("C06:end-not-sticky", "status after the end is not end of file");
      if (bad) continue;
      rd->Rewind(); pass(100, "after a rewind at the end");
      for (size_t k = 0; k <= want.size(); ++k) { rd->Rewind(); pass(k, "partial pass"); rd->Rewind(); pass(100, "after a rewind in the middle"); }
    }
  });
}
VP_MAIN(run)
