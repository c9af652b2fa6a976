// C28: a failed read never passes for data.  The storage delivers the first N bytes and then
// fails, for every N of every data file; fopen is replaced so that the library's own stream code runs.
#include "datafile.h"
#include <sol/tools.h>
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
#include <mutex>
#include <atomic>
#include <map>
#include <random>
using namespace sol::pario;
typedef std::string S;
unsigned int std::random_device::_M_getval() { return 5; }
struct Plan { S text; long n; size_t chunk; int from_pass; bool once; };
static std::map<S, Plan> plans; static std::mutex lock; static std::atomic<int> hits(0);
struct Stream { Plan p; size_t pos; int pass; bool failed; };
static ssize_t c_read(void* u, char* b, size_t k) {
  Stream* s = (Stream*)u; size_t end = s->p.text.size();
  if (s->pass >= s->p.from_pass && !(s->p.once && s->failed)) {
    if ((long)s->pos >= s->p.n) { s->failed = true; ++hits; errno = EIO; return -1; }
    end = std::min(end, (size_t)s->p.n);
  }
  size_t m = std::min(std::min(k, s->p.chunk), end - s->pos); memcpy(b, s->p.text.data() + s->pos, m); s->pos += m; return (ssize_t)m;
}
static int c_seek(void* u, off64_t* o, int w) {
  Stream* s = (Stream*)u; long t = w == SEEK_SET ? *o : w == SEEK_CUR ? (long)s->pos + *o : (long)s->p.text.size() + *o;
  if (t < 0) { errno = EINVAL; return -1; } if (t == 0 && s->pos > 0) ++s->pass; s->pos = std::min((size_t)t, s->p.text.size()); *o = (off64_t)s->pos; return 0;
}
static int c_close(void* u) { delete (Stream*)u; return 0; }
static FILE* opened(const char* path, const char* mode) {
  { std::lock_guard<std::mutex> g(lock); auto i = plans.find(path);
    if (i != plans.end() && mode[0] == 'r') { cookie_io_functions_t f = {c_read, nullptr, c_seek, c_close}; return fopencookie(new Stream{i->second, 0, 1, false}, "r", f); } }
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC; int fd = open(path, fl, 0644);
  return fd < 0 ? nullptr : fdopen(fd, mode[0] == 'r' ? "r" : mode[0] == 'a' ? "a" : "w");
}
extern "C" FILE* fopen(const char* path, const char* mode) { return opened(path, mode); }
extern "C" FILE* fopen64(const char* path, const char* mode) { return opened(path, mode); }
static void plan(const S& path, const S& text, long n, size_t chunk, int pass, bool once) { std::lock_guard<std::mutex> g(lock); plans[path] = Plan{text, n, chunk, pass, once}; hits = 0; }
static void no_plan() { std::lock_guard<std::mutex> g(lock); plans.clear(); }

struct Set { S name; std::vector<Rec> d; };
static std::vector<Set> sets() {
  std::vector<Set> v; Rec a, b, c, e; a.label = 1; a.f = {{1, 1.5f}, {3, -2.f}}; b.label = -1; b.f = {{2, 0.25f}, {3, 40.f}, {300, 1.f}}; c.label = 12; c.f = {{1, -12.5f}}; e.label = 1;
  v.push_back({"1 record", {a}}); v.push_back({"3 records", {a, b, c}}); v.push_back({"no features", {e, c, e}}); v.push_back({"12 records", {a, b, c, e, b, b, a, c, c, e, a, b}});
  auto wide = [&](uint32_t n) { Rec r; r.label = -1; for (uint32_t i = 1; i <= n; ++i) r.f.push_back({i, (float)(i % 9) + 1.25f}); return r; };
  v.push_back({"a record of 520 features", {c, wide(520), c}}); if (vp::thorough()) v.push_back({"a record of 1200 features", {wide(1200), c}}); v.push_back({"a record of 430 features first", {wide(430), a}});
  return v;
}
// records that lie wholly before byte n
static size_t whole(const S& fmt, const std::vector<Rec>& d, const S& text, long n) {
  if (fmt == "bin") { size_t k = 0; while (k < d.size() && (long)bin_text(std::vector<Rec>(d.begin(), d.begin() + k + 1)).size() <= n) ++k; return k; }
  size_t k = 0; for (long i = 0; i < n && i < (long)text.size(); ++i) if (text[i] == '\n') ++k;
  return fmt == "csv" ? (k ? k - 1 : 0) : k;
}
static bool prefix(const std::vector<Rec>& got, size_t from, size_t& used, const std::vector<Rec>& d, size_t most) {   // got[from..] continues with a prefix of d[0..most)
  used = 0; while (from + used < got.size() && used < most && same(got[from + used], d[used])) ++used; return true;
}
static const char* F[] = {"svm", "csv", "bin"};
static std::vector<Rec> iterate(DataIter& it, size_t cap) { std::vector<Rec> got; MiniBatch* mb = nullptr; while ((mb = it.Next(mb)) != nullptr) { for (int i = 0; i < mb->size() && got.size() < cap; ++i) got.push_back(from_dp((*mb)[i])); } return got; }
static void run() {
  auto all = sets();
  for (auto& s : all) for (const char* fm : F) for (int last_nl = 1; last_nl >= 0; --last_nl) {
    S fmt = fm; std::vector<Rec> d = s.d; if (fmt == "bin" && !last_nl) continue;
    S text = fmt == "svm" ? svm_text(d) : fmt == "csv" ? csv_text(d) : bin_text(d); if (!last_nl) text.pop_back();
    long top = (long)text.size(), step = 512;
    std::vector<size_t> ends; for (size_t k = 0; fmt == "bin" && k < d.size(); ++k) ends.push_back(bin_text(std::vector<Rec>(d.begin(), d.begin() + k + 1)).size());
    auto count = [&](long n) { if (fmt != "bin") return whole(fmt, d, text, n); size_t k = 0; while (k < ends.size() && (long)ends[k] <= n) ++k; return k; };
    for (long lo = 0; lo <= top; lo += step) {
      if (!vp::take()) continue;
      S who = fmt + ", " + s.name + (last_nl ? "" : ", no newline at the end"); vp::describe(who + vp::fmt(", failing after byte %ld to %ld", lo, std::min(top, lo + step - 1))); vp::sample(who);
      S p = vp::tmp("data"), q = vp::tmp("other"), o = vp::tmp("out"); bool ok = true;
      std::vector<Rec> other = {d[0], d[0]}; other[1].label = 7; put_data(q, "svm", other);
      for (long n = lo; n < lo + step && n <= top && ok; ++n) {
        if (vp::shallow() && n % 7) continue;
        size_t w = count(n); S at = vp::fmt(": the storage fails after byte %ld of %ld", n, top);
        for (int k = 0; k < 3 && ok; ++k) {
          size_t chunk = k == 0 ? 4096 : k == 1 ? 1 : 700;
          // reader
          plan(p, text, n, chunk, 1, k == 1); vp::progress(); vp::trace(); vp::step();
          std::unique_ptr<DataReader> rd(DataReader::Create(fmt)); int st = rd->Open(p); std::vector<Rec> got; if (st == 0) st = drain(rd.get(), got, d.size() + 3);
          size_t used; size_t most = hits ? w : d.size(); prefix(got, 0, used, d, most);
          vp::state(vp::mix(vp::mix(vp::hash(who), n), vp::mix(st, got.size())));
          if (used != got.size()) { vp::fail("C28:record:" + fmt, who + at + vp::fmt(", yet record %zu is read as {", used) + show(got[used]) + "}"); ok = false; break; }
          if (hits && (st == 0 || st == sol::Status_EndOfFile)) { vp::fail("C28:end:" + fmt, who + at + vp::fmt(", yet %s is reported after %zu of %zu records", st ? "the end of the data" : "success", got.size(), d.size())); ok = false; break; }
          rd.reset();
          if (n % 3 != k) continue;
          // the fault is over when the data is read again
          { plan(p, text, n, chunk, 1, true); std::unique_ptr<DataReader> r2(DataReader::Create(fmt)); std::vector<Rec> g; if (r2->Open(p) == 0) { drain(r2.get(), g, d.size() + 3); r2->Rewind(); g.clear(); st = drain(r2.get(), g, d.size() + 3); prefix(g, 0, used, d, d.size());
              if (used != d.size() || g.size() != d.size() || st != sol::Status_EndOfFile) { vp::fail("C28:again:" + fmt, who + at + vp::fmt(" once; read again from the start, %zu of %zu records come (status %d)", used, d.size(), st)); ok = false; break; } } }
          // iterator: two passes, the fault in the first or the second, and another source behind
          for (int pass = 1; pass <= 2 && ok; ++pass) {
            plan(p, text, n, chunk, pass, k == 2); DataIter it(1 + (int)(n % 4), 1 + k); int r1 = it.AddReader(p, fmt, 2); if (it.AddReader(q, "svm", 1) != 0) throw vp::Stop();
            auto g = iterate(it, 3 * d.size() + 8); vp::step(); size_t i = 0; std::vector<Rec> front = g; if (front.size() >= 2) front.resize(front.size() - 2);
            bool tail = g.size() >= 2 && same(g[g.size() - 2], other[0]) && same(g[g.size() - 1], other[1]);
            if (!tail) { vp::fail("C28:iterator", who + at + vp::fmt(" in pass %d; the source behind it is not delivered", pass)); ok = false; break; }
            if (r1 != 0) { if (!front.empty()) { vp::fail("C28:iterator", who + at + "; records of a refused source are delivered"); ok = false; } continue; }
            if (!hits) { if (front.size() != 2 * d.size()) { vp::fail("C28:iterator", who + ": records are missing without a fault"); ok = false; } continue; }
            if (pass == 2) { prefix(front, 0, i, d, d.size()); if (i != d.size()) { vp::fail("C28:iterator", who + at + vp::fmt(" in pass 2; the first pass delivers %zu of %zu records", i, d.size())); ok = false; break; } }
            prefix(front, i, used, d, w);
            if (i + used != front.size()) { vp::fail("C28:iterator", who + at + vp::fmt(" in pass %d, yet a record {", pass) + show(front[i + used]) + "} follows"); ok = false; break; }
          }
          // data tools: what they write is what could be read
          if (n % 5 == 0 && ok) {
            plan(p, text, n, chunk, 1, false); unlink(o.c_str()); int r = n % 2 ? sol_convert_data(p.c_str(), fmt.c_str(), o.c_str(), "bin", false, 0) : sol::convert(p, fmt, o, "bin"); bool hit = hits; no_plan(); vp::step();
            if (r == 0) { std::vector<Rec> g; int st2 = 0; get_data(o, "bin", g, &st2); prefix(g, 0, used, d, hit ? w : d.size()); if (used != g.size()) { vp::fail("C28:convert", who + at + ", yet the converted data has a record {" + show(g[used]) + "}"); ok = false; } }
            plan(p, text, n, chunk, 1, false); unlink(o.c_str()); r = sol::analyze(p, fmt, o); hit = hits; no_plan();
            if (r == 0) { S t = vp::read_file(o); size_t x = t.find("data number  : "); long num = x == S::npos ? -1 : atol(t.c_str() + x + 15); if (num < 0 || num > (long)(hit ? w : d.size())) { vp::fail("C28:analyze", who + at + vp::fmt(", yet %ld records are counted", num)); ok = false; } }
          }
        }
      }
      no_plan();
    }
  }
}
VP_MAIN(run)
