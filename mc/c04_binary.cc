// C04: all short record sequences through the real binary writer and reader,
// and every truncation point of the files they produce.
#include "rec.h"
#include <limits>
#include <sol/util/error_code.h>
using namespace sol;
using namespace sol::pario;

static std::vector<Rec> alphabet() {
  float inf = std::numeric_limits<float>::infinity(), nan = std::numeric_limits<float>::quiet_NaN();
  float den = std::numeric_limits<float>::denorm_min(), mx = std::numeric_limits<float>::max(), mn = std::numeric_limits<float>::min();
  std::vector<Rec> a = {
    {1, {{1, 1.f}}},
    {-1, {}},
    {0, {{1, 0.f}, {2, -0.f}}},
    {2, {{1, 0.1f}, {127, -2.5f}, {128, 3.f}}},
    {2147483647, {{127, mx}, {255, -mx}}},
    {int(-2147483647 - 1), {{16383, mn}, {16384, den}}},
    {7, {{2097151, inf}, {2097152, -inf}, {2097153, nan}}},
    {-7, {{268435455, 1e-30f}, {268435456, 1e30f}}},
    {3, {{2147483647u, 5.f}, {2147483648u, 6.f}}},
    {4, {{1, -1.f}, {4294967295u, 8.f}}},
    {5, {{4294967294u, 9.f}}},
    {1, {{1, 1.f}, {2, 2.f}, {3, 3.f}, {4, 4.f}, {5, 5.f}, {6, 6.f}, {7, 7.f}}},
  };
  return a;
}

static int write_bin(const std::string& path, const std::vector<Rec>& recs, std::vector<size_t>* ends) {
  std::unique_ptr<DataWriter> w(DataWriter::Create("bin"));
  if (!w || w->Open(path) != Status_OK) return -1;
  for (auto& r : recs) {
    DataPoint dp; to_dp(r, dp);
    if (w->Write(dp) != Status_OK) return -2;
    if (!same(from_dp(dp), r)) return -3;
  }
  w->Close();
  if (ends) {
    // record boundaries, found by writing each prefix (independent of layout)
    ends->clear(); ends->push_back(0);
    for (size_t n = 1; n <= recs.size(); ++n) {
      std::unique_ptr<DataWriter> w2(DataWriter::Create("bin"));
      w2->Open(path + ".p");
      for (size_t i = 0; i < n; ++i) { DataPoint dp; to_dp(recs[i], dp); w2->Write(dp); }
      w2->Close();
      struct stat sb; stat((path + ".p").c_str(), &sb); ends->push_back(sb.st_size);
    }
  }
  return 0;
}

static bool prefix_ok(const std::vector<Rec>& got, const std::vector<Rec>& want, size_t n) {
  if (got.size() != n) return false;
  for (size_t i = 0; i < n; ++i) if (!same(got[i], want[i])) return false;
  return true;
}

static void check(const std::vector<Rec>& recs, bool torn) {
  std::string path = vp::tmp("d.bin");
  std::vector<size_t> ends;
  int rc = write_bin(path, recs, torn ? &ends : nullptr);
  if (rc != 0) { vp::fail(vp::fmt("write%d", rc), "writing failed or modified its input: " + show(recs)); return; }
  vp::trace();
  {
    std::unique_ptr<DataReader> rd(DataReader::Create("bin"));
    if (rd->Open(path) != Status_OK) { vp::fail("open", "cannot open " + show(recs)); return; }
    for (int pass = 0; pass < 2; ++pass) {
      std::vector<Rec> got;
      int st = drain(rd.get(), got, recs.size() + 5);
      if (!prefix_ok(got, recs, recs.size())) vp::fail(pass ? "roundtrip-pass2" : "roundtrip", "wrote " + show(recs) + " read " + show(got));
      if (st != Status_EndOfFile) vp::fail("endstatus", vp::fmt("status %d at the end of ", st) + show(recs));
      uint64_t h = 5; for (auto& r : got) h = hash_rec(r, h); vp::state(h);
      rd->Rewind();
    }
    // rewind after a partial read starts over
    if (recs.size() > 1) {
      DataPoint dp; rd->Next(dp); rd->Rewind(); std::vector<Rec> got; drain(rd.get(), got, recs.size() + 5);
      if (!prefix_ok(got, recs, recs.size())) vp::fail("rewind", "after a partial read of " + show(recs) + " read " + show(got));
    }
  }
  if (!torn) return;
  size_t total = ends.back();
  struct stat sb; stat(path.c_str(), &sb);
  if ((size_t)sb.st_size != total) vp::fail("size", "file size differs between two identical writes");
  for (size_t cut = total; cut-- > 0;) {
    if (truncate(path.c_str(), cut) != 0) abort();
    size_t whole = 0; while (whole + 1 < ends.size() && ends[whole + 1] <= cut) ++whole;
    std::unique_ptr<DataReader> rd(DataReader::Create("bin"));
    if (rd->Open(path) != Status_OK) { vp::fail("torn-open", vp::fmt("cannot open file cut at %zu", cut)); continue; }
    std::vector<Rec> got;
    int st = drain(rd.get(), got, recs.size() + 5);
    vp::trace();
    if (!prefix_ok(got, recs, whole))
      vp::fail("torn-record", vp::fmt("file cut at byte %zu of %zu (%zu whole records): ", cut, total, whole) + show(recs) + " read as " + show(got));
    if (st == Status_OK) vp::fail("torn-status", vp::fmt("status OK after the end of a file cut at %zu", cut));
    if (ends[whole] == cut && st != Status_EndOfFile) vp::fail("torn-endstatus", vp::fmt("status %d for a file that ends at a record boundary", st));
    vp::state(vp::mix(vp::mix(99, whole), vp::mix(st, cut - ends[whole])));
  }
}

static void run() {
  auto A = alphabet();
  int k = A.size();
  int depth = vp::thorough() ? 5 : 4, torn_depth = vp::thorough() ? 4 : 3;
  vp::sequences(k, 0, depth, [&](const std::vector<int>& s) {
    if (!vp::take()) return;
    std::vector<Rec> recs; for (int i : s) recs.push_back(A[i]);
    vp::describe(show(recs));
    if (s.size() == 3) vp::sample(show(recs));
    check(recs, (int)s.size() <= torn_depth);
  });
  // every record of one or two features over these indices and values, alone and between two others
  {
    float inf = std::numeric_limits<float>::infinity(), nan = std::numeric_limits<float>::quiet_NaN();
    const float V[] = {0.f, -0.f, 1.f, -1.f, 0.1f, std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min(), inf, -inf, nan};
    const uint32_t I[] = {1, 2, 127, 128, 16384, 2097152, 268435456, 2147483648u, 4294967295u};
    for (uint32_t i : I) for (float v : V) for (int lab : {1, -1, 0, 300}) {
      if (!vp::take()) continue;
      Rec r; r.label = lab; r.f = {{i, v}}; vp::describe(show(r));
      check({r}, true); check({A[3], r, A[0]}, true); check({r, r, r}, true);
      for (uint32_t i2 : I) if (i2 > i) for (float v2 : V) { Rec q = r; q.f.push_back({i2, v2}); check({q}, vp::thorough()); check({q, r, q}, vp::thorough()); }
      if (lab == 1) for (float v2 : V) for (float v3 : V) { Rec q = r; if (i > 4294967292u) break; q.f.push_back({i + 1, v2}); q.f.push_back({i + 2, v3}); check({q, r}, false); }
    }
    // every label over the powers of two, with and without features
    for (int b = 0; b < 32; ++b) for (int d = -1; d <= 1; ++d) for (int s = 0; s < 2; ++s) {
      if (!vp::take()) continue;
      Rec r; r.label = int(uint32_t((s ? -1 : 1) * (int64_t(1) << b) + d)); vp::describe(show(r)); check({r}, true); check({r, A[1], r}, true); r.f = {{3, 0.5f}}; check({A[0], r, A[3]}, true);
    }
  }
  // feature counts across storage growth, with a following record, cut everywhere
  std::vector<int> counts; for (int n = 0; n <= 70; ++n) counts.push_back(n);
  for (int n : {127, 128, 129, 255, 256, 257, 511, 1000, 4095, 4096, 5000}) counts.push_back(n);
  for (int n : counts) for (int gap : {1, 200}) {
    if (!vp::take()) continue;
    Rec r; r.label = n; for (int i = 0; i < n; ++i) r.f.push_back({uint32_t(1 + i * gap), float(i) * 0.25f - 3});
    std::vector<Rec> recs = {A[0], r, A[3]};
    vp::describe(show(recs));
    check(recs, true);
  }
}
VP_MAIN(run)
