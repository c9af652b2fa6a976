// C22: a failed write is always reported.  The storage refuses every write
// beyond byte N (RLIMIT_FSIZE), for every N of every output.
#include "datafile.h"
#include <sol/tools.h>
#include <sol/c_api.h>
#include <random>
#include <sys/resource.h>
#include <sys/wait.h>
typedef std::string S;
unsigned int std::random_device::_M_getval() { return 5; }

struct Limit {   // every file of this process is limited to n bytes
  struct rlimit old;
  explicit Limit(long n) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; if (n >= 0) l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static int tool(const std::vector<S>& args, long lim) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2);
    std::vector<char*> a; S exe = S(getenv("VP_BIN")) + "/" + args[0]; a.push_back(&exe[0]);
    for (size_t i = 1; i < args.size(); ++i) a.push_back(const_cast<char*>(args[i].c_str()));
    a.push_back(nullptr);
    if (lim >= 0) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l); }
    execv(exe.c_str(), a.data()); _exit(127);
  }
  int st = 0; waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st;
}

struct Op {
  S name; std::vector<S> outs;          // outputs, relative to the place
  std::function<int(const S& dir, long lim)> run;   // returns the status
};
static void check(const Op& op, const S& good, bool sparse_limits) {
  S tag = op.name.find("sol_test") != S::npos ? "C22:predictions" : "";   // one call site, a known finding
  auto key = [&](const S& k) { return tag.empty() ? k : tag; };
  vp::describe(op.name); vp::sample(op.name);
  for (auto& o : op.outs) unlink((good + o).c_str());
  int r0 = op.run(good, -1);
  if (r0 != 0) { vp::fail("C22:refused", op.name + vp::fmt(" fails (%d) without any fault", r0)); return; }
  std::vector<S> ref; size_t mx = 0;
  for (auto& o : op.outs) { ref.push_back(vp::read_file(good + o)); mx = std::max(mx, ref.back().size()); }
  if (mx == 0) { vp::fail("C22:empty", op.name + " succeeds without output"); return; }
  std::set<long> lims;
  if (!sparse_limits || mx <= 64) for (size_t i = 0; i <= mx + 1; ++i) lims.insert(i);
  else {
    for (size_t b = 0; b <= mx; b += 4096) for (long d = -3; d <= 3; ++d) if ((long)b + d >= 0) lims.insert(b + d);
    for (long d = -4; d <= 1; ++d) if ((long)mx + d >= 0) lims.insert(mx + d);
    for (auto& r : ref) for (long d = -1; d <= 0; ++d) if ((long)r.size() + d >= 0) lims.insert(r.size() + d);
    lims.insert(17);
  }
  for (long n : lims) {
    for (auto& o : op.outs) unlink((good + o).c_str());
    int r = op.run(good, n);
    vp::step(); vp::trace();
    bool full = true, must = false; S what;
    for (size_t i = 0; i < ref.size(); ++i) {
      S got = vp::read_file(good + op.outs[i]);
      if (got != ref[i]) { full = false; what += op.outs[i] + vp::fmt(" has %zu of %zu bytes; ", got.size(), ref[i].size()); }
      if ((long)ref[i].size() > n) must = true;
    }
    vp::state(vp::mix(vp::hash(op.name), vp::mix(n, r != 0)));
    if (r == 0 && (must || !full)) vp::fail(key("C22:silent:" + op.name.substr(0, op.name.find(' '))), op.name + vp::fmt(": storage refuses writes after byte %ld, yet success is reported; ", n) + what);
    if (r >= 1000) vp::fail("C22:crash", op.name + vp::fmt(": crashes when storage refuses writes after byte %ld", n));
    if (r != 0 && !must) vp::fail("C22:spurious", op.name + vp::fmt(": fails (%d) although the storage accepts all %zu bytes", r, mx));
  }
  for (auto& o : op.outs) unlink((good + o).c_str());
  // outputs that cannot be created or written at all
  S nodir = vp::tmp("missing/");
  if (op.run(nodir, -1) == 0) vp::fail(key("C22:uncreatable"), op.name + ": reports success for an output in a directory that does not exist");
  vp::step();
  if (op.outs.size() == 1) {
    S blk = vp::tmp("blocked/"); mkdir(blk.c_str(), 0755); mkdir((blk + op.outs[0]).c_str(), 0755);   // output path is a directory
    if (op.run(blk, -1) == 0) vp::fail(key("C22:uncreatable"), op.name + ": reports success for an output path that is a directory");
    rmdir((blk + op.outs[0]).c_str());
    if (symlink("/dev/full", (blk + op.outs[0]).c_str()) == 0 && op.run(blk, -1) == 0) vp::fail(key("C22:full"), op.name + ": reports success on a full device");
    unlink((blk + op.outs[0]).c_str());
    vp::step(2);
  }
}

static const char* F[3] = {"svm", "csv", "bin"};
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "stg", "fobos", "fobos-l1", "rda", "rda-l1", "erda", "erda-l1", "ada-fobos", "ada-fobos-l1", "ada-rda", "ada-rda-l1", "pet", "fofs", "sofs"};

static void run() {
  signal(SIGXFSZ, SIG_IGN);
  bool T = vp::thorough();
  std::vector<std::vector<Rec>> sets(3);
  { Rec a, b, c; a.label = 1; a.f = {{1, 1.5f}, {3, -2.f}}; b.label = -1; b.f = {{2, 0.25f}, {3, 4.f}}; c.label = 1; c.f = {{1, -1.f}};
    sets[0] = {a}; sets[1] = {a, b, c};
    for (int i = 0; i < 700; ++i) { Rec r = i % 3 == 0 ? a : i % 3 == 1 ? b : c; r.label = i % 2 ? 1 : -1; sets[2].push_back(r); } }
  S good = vp::tmp("");
  for (size_t k = 0; k < sets.size(); ++k) for (auto s : F) for (int api = 0; api < 2; ++api) {
    S in = vp::tmp("in." + S(s));
    bool big = k == 2;
    auto tag = [&](const S& n, const S& d) { return n + vp::fmt(" of %zu records, %s to %s, %s", sets[k].size(), s, d.c_str(), api ? "C" : "C++"); };
    if (vp::take()) { put_data(in, s, sets[k]);
      check({tag("analyze", "txt"), {"out.txt"}, [&](const S& d, long lim) { Limit l(lim); S o = d + "out.txt"; return api ? sol_analyze_data(in.c_str(), s, o.c_str()) : sol::analyze(in, s, o); }}, good, false); }
    for (auto d : F) {
      S D = d;
      if (vp::take()) { put_data(in, s, sets[k]);
        check({tag("convert", d), {"out." + D}, [&](const S& dir, long lim) { Limit l(lim); S o = dir + "out." + D; return api ? sol_convert_data(in.c_str(), s, o.c_str(), d, false, 0) : sol::convert(in, s, o, D); }}, good, big); }
      if (vp::take()) { put_data(in, s, sets[k]);
        check({tag("shuffle", d), {"out." + D}, [&](const S& dir, long lim) { Limit l(lim); S o = dir + "out." + D; return api ? sol_shuffle_data(in.c_str(), s, o.c_str(), d) : sol::shuffle(in, s, o, D); }}, good, big); }
      for (int folds = 1; folds <= 3; ++folds) if (vp::take()) { put_data(in, s, sets[k]);
        std::vector<S> outs; for (int i = 0; i < folds; ++i) outs.push_back(vp::fmt("f%d.", i) + D);
        check({tag(vp::fmt("split into %d", folds), d), outs, [&](const S& dir, long lim) { Limit l(lim); S o = dir + "f"; return api ? sol_split_data(in.c_str(), s, folds, o.c_str(), d, false) : sol::split(in, s, folds, o, D, folds == 2); }}, good, big); }
    }
  }
  // models
  for (auto algo : ALGOS) for (int cls : {2, 3}) for (int api = 0; api < 2; ++api) for (int big = 0; big < 2; ++big) {
    if (!vp::take()) continue;
    void* m = sol_CreateModel(algo, cls);
    if (!m) continue;
    std::vector<Rec> d = sets[1]; if (cls == 3) for (size_t i = 0; i < d.size(); ++i) d[i].label = i;
    if (big) for (uint32_t i = 4; i < 1500; ++i) d[0].f.push_back({i, 0.125f * (i % 7) + 0.3f});
    S in = vp::tmp("train.svm"); put_data(in, "svm", d);
    void* it = sol_CreateDataIter(2, 2); sol_LoadData(it, in.c_str(), "svm", 2); sol_Train(m, it); sol_ReleaseDataIter(&it);
    check({vp::fmt("save of %s, %d classes, %s%s", algo, cls, api ? "C" : "C++", big ? ", large" : ""), {"model"}, [&](const S& dir, long lim) {
      Limit l(lim); S o = dir + "model"; return api ? sol_SaveModel(m, o.c_str()) : static_cast<sol::model::Model*>(m)->Save(o); }}, good, big || (api && !T));
    sol_ReleaseModel(&m);
  }
  // the executables
  for (auto s : F) for (auto d : F) {
    S in = vp::tmp("in." + S(s)), D = d; const std::vector<Rec>& data = sets[S(s) == "bin" ? 2 : 1]; bool big = data.size() > 3;
    auto exe = [&](const S& n, const std::vector<S>& outs, const std::function<std::vector<S>(const S&)>& args) {
      if (!vp::take()) return;
      put_data(in, s, data);
      check({"executable " + n + vp::fmt(" %s to %s", s, d), outs, [&](const S& dir, long lim) { return tool(args(dir), lim); }}, good, !T || big);
    };
    exe("converter", {"out." + D}, [&](const S& dir) { return std::vector<S>{"converter", "-i", in, "-s", s, "-o", dir + "out." + D, "-d", d}; });
    exe("concat", {"out." + D}, [&](const S& dir) { return std::vector<S>{"concat", "-i", in + ";" + in, "-s", s, "-o", dir + "out." + D, "-d", d}; });
    exe("split", {"f0." + D, "f1." + D}, [&](const S& dir) { return std::vector<S>{"split", "-i", in, "-s", s, "-n", "2", "-o", dir + "f", "-d", d}; });
  }
  for (auto s : F) {
    S in = vp::tmp("in." + S(s));
    if (vp::take()) { put_data(in, s, sets[1]); check({S("executable analyze ") + s, {"out.txt"}, [&](const S& dir, long lim) { return tool({"analyze", "-i", in, "-s", s, "-o", dir + "out.txt"}, lim); }}, good, !T); }
    for (int big = 0; big < 2; ++big) if (vp::take()) {
      std::vector<Rec> d; for (int i = 0; i < (big ? 700 : 1); ++i) for (auto& r : sets[1]) d.push_back(r); put_data(in, s, d);
      S mf = vp::tmp("pred.model"); if (tool({"sol_train", "-f", s, in, mf}, -1) != 0) { vp::fail("C22:refused", "sol_train fails without any fault"); continue; }
      check({S("executable sol_test ") + s + vp::fmt(" %zu records", d.size()), {"pred.txt"}, [&](const S& dir, long lim) { return tool({"sol_test", "-f", s, mf, in, dir + "pred.txt"}, lim); }}, good, true);
    }
    for (auto a : {"ogd", "sofs", "arow"}) if (vp::take()) { put_data(in, s, sets[1]); check({S("executable sol_train ") + a + " " + s, {"m.txt"}, [&](const S& dir, long lim) { return tool({"sol_train", "-f", s, "-a", a, in, dir + "m.txt"}, lim); }}, good, !T); }
  }
}
VP_MAIN(run)
