// C26: the command-line programs do what their options say.  Every command
// line of up to K options (each over several values, in every spelling and
// placement) is run with the real executables; models, files and printed
// figures are compared with the library called with the settings meant.
#include "datafile.h"
#include <sol/tools.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
#include <sol/pario/data_iter.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <map>
using sol::model::Model;
using sol::pario::DataIter;
typedef std::string S;
typedef std::vector<S> VS;
extern char** environ;

struct Opt { const char* lng; char sh; S val; bool flag; Opt(const char* l, char s, const S& v, bool f = false) : lng(l), sh(s), val(v), flag(f) {} };
static S join(const VS& v) { S s; for (auto& x : v) s += (s.empty() ? "" : " ") + (x.empty() || x.find_first_of("; ") != S::npos ? "'" + x + "'" : x); return s; }
static void spell(VS& a, const Opt& o, int k) {
  if (o.flag) { a.push_back(k == 0 ? S("-") + o.sh : S("--") + o.lng); return; }
  if (k == 2) { a.push_back(S("--") + o.lng + "=" + o.val); return; }
  a.push_back(k == 0 && o.sh ? S("-") + o.sh : S("--") + o.lng); a.push_back(o.val);
}
// place 0: options first; 1: options last; 2: options between the arguments; 3: options first, in reverse
static VS line(const S& prog, const std::vector<Opt>& os, const VS& pos, int sp, int place) {
  VS a = {prog}; std::vector<VS> t; int k = 0;
  for (auto& o : os) { VS x; spell(x, o, sp < 3 ? sp : (sp + k) % 3); ++k; t.push_back(x); }
  if (place == 3) std::reverse(t.begin(), t.end());
  size_t i = 0, j = 0;
  if (place == 1) for (auto& p : pos) a.push_back(p);
  if (place == 2) { while (i < t.size() || j < pos.size()) { if (j < pos.size()) a.push_back(pos[j++]); if (i < t.size()) { for (auto& x : t[i]) a.push_back(x); ++i; } } return a; }
  for (auto& x : t) for (auto& y : x) a.push_back(y);
  if (place != 1) for (auto& p : pos) a.push_back(p);
  return a;
}
struct Ran { int rc; bool ended, signalled; S out; };
static Ran run_cmd(const VS& a) {
  static int hung = 0; if (hung >= 3) return Ran{9999, false, false, ""};
  vp::step(); vp::trace();
  S exe = S(getenv("VP_BIN")) + "/" + a[0], so = vp::tmp("stdout"); unlink(so.c_str());
  std::vector<char*> v; v.push_back(&exe[0]); for (size_t i = 1; i < a.size(); ++i) v.push_back(const_cast<char*>(a[i].c_str())); v.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t p = 0; Ran r{127, true, false, ""};
  int e = posix_spawn(&p, exe.c_str(), &fa, nullptr, v.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (e) { r.rc = 1000 + e; return r; }
  int st = 0; long waited = 0;
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (waited > 20000000) { kill(p, SIGKILL); waitpid(p, &st, 0); r.ended = false; ++hung; break; }
    long us = waited < 20000 ? 150 : 5000; usleep(us); waited += us;
  }
  r.signalled = !WIFEXITED(st); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = vp::read_file(so);
  return r;
}
static bool exists(const S& f) { struct stat st; return stat(f.c_str(), &st) == 0; }
static bool figure(const S& t, const char* what, double& v) {
  size_t p = t.rfind(what); if (p == S::npos) return false; p = t.find_first_of("0123456789-", p + strlen(what)); if (p == S::npos) return false;
  v = strtod(t.c_str() + p, nullptr); return true;
}
static void quiet_cb(void*, long long, long long, long long, double) {}
static void bad(const VS& a, const char* key, const S& what) { vp::fail(S("C26:") + key, join(a) + ": " + what); }

// ---- data
static std::vector<Rec> data(int C) {
  std::vector<Rec> d; std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, -0.5f}}, {{2, 1.f}, {4, 0.25f}}, {{1, -1.f}, {3, 2.f}}, {{3, 1.f}}, {{1, 0.75f}, {2, 1.f}, {5, -1.f}}, {{2, -2.f}, {5, 0.5f}}, {{1, 0.5f}, {4, -1.5f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.f = xs[i]; r.label = C == 2 ? (i % 2 ? -1 : 1) : (int)((i * 2) % C); d.push_back(r); }
  return d;
}
static const char* TY[3] = {"svm", "csv", "bin"};
static S data_file(int C, const S& ty) { S f = vp::tmp(vp::fmt("d%d.", C) + ty); if (!exists(f)) put_data(f, ty, data(C)); return f; }
static S data_bytes(int C, const S& ty) { auto d = data(C); return ty == "svm" ? svm_text(d) : ty == "csv" ? csv_text(d) : bin_text(d); }
static bool lib_train(Model* m, const S& f, const S& ty, int pass, int b, int buf, float& err) {
  dynamic_cast<sol::model::OnlineModel*>(m)->set_iterate_callback(quiet_cb, nullptr);
  DataIter it(b, buf); if (it.AddReader(f, ty, pass) != 0) return false;
  err = m->Train(it); return true;
}
static S start_model(int C) {   // a model to go on with
  S f = vp::tmp(vp::fmt("start%d", C)); if (exists(f)) return f;
  std::unique_ptr<Model> m(Model::Create(C == 2 ? "pa1" : "arow", C)); float e; if (!m || !lib_train(m.get(), data_file(C, "svm"), "svm", 1, 256, 2, e) || m->Save(f) != 0) vp::fail("C26:library", "the model to start from cannot be made");
  return f;
}
struct Setting { S format = "svm", algo = "ogd", model, params, dim; int classes = 2, pass = 1, batch = 256, buf = 2; };
struct Want { bool ok = false; float acc = 0, spars = 0; S bytes; };
static const Want& want(const Setting& s, int C) {
  static std::map<S, Want> memo; S key = s.format + "|" + s.algo + "|" + s.model + "|" + s.params + "|" + s.dim + vp::fmt("|%d|%d|%d|%d", s.classes, s.pass, s.batch, s.buf);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  Want w; std::unique_ptr<Model> m(s.model.empty() ? Model::Create(s.algo, s.classes) : Model::Load(s.model)); float err = 0; S f = vp::tmp("want");
  if (m) {
    if (!s.dim.empty()) m->SetParameter("dim", s.dim);
    for (auto& p : {s.params.substr(0, s.params.find(';')), s.params.find(';') == S::npos ? S() : s.params.substr(s.params.find(';') + 1)}) {
      S q; for (char c : p) if (c != ' ' && c != ';') q += c;
      if (!q.empty()) m->SetParameter(q.substr(0, q.find('=')), q.substr(q.find('=') + 1));
    }
    if (lib_train(m.get(), data_file(C, s.format), s.format, s.pass, s.batch, s.buf, err)) { w.acc = 1 - err; w.spars = m->model_sparsity() * 100; unlink(f.c_str()); if (m->Save(f) == 0) { w.bytes = vp::read_file(f); w.ok = true; } }
  }
  return memo[key] = w;
}

// ---- sol_train: all command lines of up to K options
struct Dim { const char* lng; char sh; VS vals; };
static bool apply(Setting& s, const Opt& o) {
  S n = o.lng;
  if (n == "format") s.format = o.val; else if (n == "classes") s.classes = atoi(o.val.c_str()); else if (n == "pass") s.pass = atoi(o.val.c_str());
  else if (n == "batchsize") s.batch = atoi(o.val.c_str()); else if (n == "bufsize") s.buf = atoi(o.val.c_str()); else if (n == "algo") s.algo = o.val;
  else if (n == "model") s.model = o.val; else if (n == "params") s.params = o.val; else if (n == "dim") s.dim = o.val; else return false;
  return true;
}
static void one_train(std::vector<Opt> os, int sp, int place, bool save, bool c_prog = false) {
  Setting s; bool given = false; for (auto& o : os) { apply(s, o); if (S(o.lng) == "algo" || S(o.lng) == "model") given = true; }
  int C = s.model.empty() ? s.classes : s.model.back() - '0';
  if (!s.params.empty() && s.params.find("C") != S::npos && !(s.model.size() ? C == 2 : s.algo == "pa1")) return;          // not a parameter of this model
  if (!s.params.empty() && s.params.find("eta=") != S::npos && !(s.model.empty() && (s.algo == "ogd" || s.algo == "fobos-l1"))) return;
  S f = data_file(C, s.format), m = vp::tmp("cli.model"); unlink(m.c_str());
  VS pos = {f}; if (save) pos.push_back(m);
  if (c_prog) {   // lsol_c names its files by options and has no default algorithm
    pos.clear(); if (!given) os.push_back(Opt("algo", 'a', "ogd")); os.push_back(Opt("input", 'i', f)); if (save) os.push_back(Opt("output", 'o', m)); if (place % 2) os.push_back(Opt("task", 't', "train"));
    std::rotate(os.begin(), os.begin() + place % os.size(), os.end());
  }
  VS a = line(c_prog ? "lsol_c" : "sol_train", os, pos, sp, place); vp::describe(join(a)); vp::sample(join(a));
  Ran r = run_cmd(a); const Want& w = want(s, C);
  if (!w.ok) { bad(a, "library", "the library refuses these settings"); return; }
  if (r.rc != 0) { bad(a, "refused", vp::fmt("ends with %d", r.rc)); return; }
  double acc = -1, spa = -1;
  if (!figure(r.out, "accuracy", acc) || std::fabs(acc - w.acc) > 6e-5) bad(a, "accuracy", vp::fmt("reports a training accuracy of %g instead of %.4f", acc, w.acc));
  if (!c_prog) if (!figure(r.out, "model sparsity", spa) || std::fabs(spa - w.spars) > 6e-5 * 100) bad(a, "sparsity", vp::fmt("reports a sparsity of %g%% instead of %.4f%%", spa, w.spars));
  if (save && vp::read_file(m) != w.bytes) bad(a, "model", exists(m) ? "the model saved is not the one these options ask for" : "no model is saved");
  if (!save && exists(m)) bad(a, "model", "saves a model nobody asked for");
  if (vp::read_file(f) != data_bytes(C, s.format)) bad(a, "input", "changes its input");
  vp::state(vp::hash(w.bytes));
}
static void trains() {
  std::vector<Dim> ds = {{"format", 'f', {"svm", "csv", "bin"}}, {"classes", 'c', {"2", "3"}}, {"pass", 'p', {"1", "2", "5"}}, {"batchsize", 'b', {"1", "2", "1000"}}, {"bufsize", 0, {"1", "3"}},
    {"algo", 'a', {"ogd", "pa1", "arow", "fobos-l1"}}, {"model", 'm', {start_model(2), start_model(3)}}, {"params", 0, {"eta=0.5", "eta=0.25;power_t=1", " C = 0.5 ", "C=0.25;", "bias_eta=0.5;norm=L2"}}, {"dim", 'd', {"3", "9"}}};
  int K = vp::thorough() ? 4 : 3;
  std::vector<std::vector<Opt>> all = {{}};
  std::function<void(size_t, std::vector<Opt>&)> rec = [&](size_t i, std::vector<Opt>& cur) {
    for (size_t j = i; j < ds.size(); ++j) for (auto& v : ds[j].vals) { cur.push_back(Opt(ds[j].lng, ds[j].sh, v)); all.push_back(cur); if ((int)cur.size() < K) rec(j + 1, cur); cur.pop_back(); }
  };
  std::vector<Opt> cur; rec(0, cur);
  size_t chunk = 40;
  for (size_t lo = 0; lo < all.size(); lo += chunk) {
    if (!vp::take()) continue;
    for (size_t i = lo; i < std::min(all.size(), lo + chunk); ++i) {
      auto& os = all[i]; bool small = os.size() <= 2;
      if (small && !vp::shallow()) { for (int sp = 0; sp < 4; ++sp) for (int pl = 0; pl < 4; ++pl) one_train(os, sp, pl, (sp + pl) % 4 != 3); for (int sp = 0; sp < 4; ++sp) one_train(os, sp, sp, sp != 1, true); }
      else if (vp::thorough()) { for (int sp = 0; sp < 4; ++sp) { one_train(os, sp, (i + sp) % 4, sp != 3); one_train(os, sp, (i / 3 + sp) % 4, sp != 2, true); } }
      else if (!vp::shallow() || i % 8 == 0) { one_train(os, i % 4, (i / 4) % 4, i % 5 != 4); if (!vp::shallow()) one_train(os, (i / 4) % 4, i % 4, i % 7 != 6, true); }
    }
  }
  // an option given twice: the last one counts
  for (auto& d : ds) {
    if (!vp::take()) continue;
    for (auto& v1 : d.vals) for (auto& v2 : d.vals) if (S(d.lng) != "params") for (int sp = 0; sp < 4; ++sp) one_train({Opt(d.lng, d.sh, v1), Opt(d.lng, d.sh, v2)}, sp, sp < 3 ? sp : 0, true);
  }
}
// ---- sol_test
static void tests() {
  struct M { const char* algo; int C; }; std::vector<M> ms = {{"ogd", 2}, {"pa1", 3}, {"arow", 2}, {"ada-fobos-l1", 3}, {"sofs", 2}};
  S sel = vp::tmp("sel"), sel2 = vp::tmp("sel2"); vp::write_file(sel, "1\n3\n"); vp::write_file(sel2, "2\n4\n5\n");
  for (auto& mm : ms) for (const char* ty : TY) for (int fl = 0; fl < 3; ++fl) {
    if (!vp::take()) continue;
    S mf = vp::tmp("t.model"), f = data_file(mm.C, ty), o = vp::tmp("t.out"), ref = vp::tmp("t.ref"); unlink(mf.c_str());
    std::unique_ptr<Model> m(Model::Create(mm.algo, mm.C)); float e; if (!m || !lib_train(m.get(), data_file(mm.C, "svm"), "svm", 1, 256, 2, e) || m->Save(mf) != 0) { vp::fail("C26:library", "a model cannot be made"); continue; }
    S mbytes = vp::read_file(mf); m.reset(Model::Load(mf)); if (!m) { vp::fail("C26:library", "a model cannot be restored"); continue; }
    if (fl) m->SetParameter("filter", fl == 1 ? sel : sel2);
    float err; { DataIter it; if (it.AddReader(f, ty) != 0) { vp::fail("C26:library", "the data cannot be read"); continue; } std::ofstream os(ref); err = m->Test(it, &os); }
    S want = vp::read_file(ref);
    for (int b : {0, 1, 3, 1000}) for (int buf : {0, 1, 4}) for (int sp = 0; sp < 4; ++sp) for (int pl = 0; pl < 4; ++pl) {
      if (vp::shallow() && (sp + pl + b + buf) % 4) continue;
      bool with = (sp + pl + buf) % 2 == 0; std::vector<Opt> os; if (S(ty) != "svm" || pl % 2) os.push_back(Opt("format", 'f', ty)); if (b) os.push_back(Opt("batchsize", 'b', vp::fmt("%d", b))); if (buf) os.push_back(Opt("bufsize", 0, vp::fmt("%d", buf))); if (fl) os.push_back(Opt("filter", 0, fl == 1 ? sel : sel2));
      VS pos = {mf, f}; if (with) pos.push_back(o); unlink(o.c_str()); VS a = line("sol_test", os, pos, sp, pl); vp::describe(join(a)); vp::sample(join(a));
      for (int prog = 0; prog < 2; ++prog) {
      if (prog) { os.push_back(Opt("task", 't', "test")); os.push_back(Opt("model", 'm', mf)); os.push_back(Opt("input", 'i', f)); if (with) os.push_back(Opt("output", 'o', o)); std::rotate(os.begin(), os.begin() + (b + buf) % os.size(), os.end()); a = line("lsol_c", os, {}, sp, pl); unlink(o.c_str()); vp::describe(join(a)); vp::sample(join(a)); }
      Ran r = run_cmd(a); double acc = -1;
      if (r.rc != 0) { bad(a, "refused", vp::fmt("ends with %d", r.rc)); continue; }
      if (!figure(r.out, "accuracy", acc) || std::fabs(acc - (1 - err)) > 6e-5) bad(a, "accuracy", vp::fmt("reports a test accuracy of %g instead of %.4f", acc, 1 - err));
      if (with && vp::read_file(o) != want) bad(a, "predictions", "the predictions written are not those of the model");
      if (!with && exists(o)) bad(a, "predictions", "writes predictions nobody asked for");
      if (vp::read_file(f) != data_bytes(mm.C, ty) || vp::read_file(mf) != mbytes) bad(a, "input", "changes its input");
      }
    }
    vp::state(vp::hash(want));
  }
}
// ---- data tools
static VS lines_of(const S& t) { VS v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == S::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } return v; }
static S text_of(const S& f, const S& ty, bool& ok) { std::vector<Rec> d; ok = get_data(f, ty, d); return svm_text(d); }
static void silent(const std::function<void()>& fn) { fflush(stdout); std::cout.flush(); int k = dup(1), n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); fn(); fflush(stdout); std::cout.flush(); dup2(k, 1); close(k); }
static void data_tools() {
  for (const char* si : TY) for (const char* so : TY) for (int sp = 0; sp < 4; ++sp) for (int pl = 0; pl < 2; ++pl) {
    if (!vp::take()) continue;
    if (vp::shallow() && (sp + pl) % 2) continue;
    S in = data_file(3, si), in2 = data_file(2, si), o = vp::tmp("o"), ref = vp::tmp("ref"); int place = pl ? 3 : 0; Opt I("input", 'i', in), T("input_type", 's', si), O("output", 'o', o), D("output_type", 'd', so); bool ok = true;
    auto file_is = [&](const VS& a, const Ran& r, const S& w) { if (r.rc != 0) bad(a, "refused", vp::fmt("ends with %d", r.rc)); else if (vp::read_file(o) != w) bad(a, "output", "the file written is not what the options ask for"); if (vp::read_file(in) != data_bytes(3, si) || vp::read_file(in2) != data_bytes(2, si)) bad(a, "input", "changes its input"); };
    for (const char* th : {"", "0", "0.7", "-1", "1e-3"}) {
      unlink(o.c_str()); unlink(ref.c_str()); silent([&] { ok = sol::convert(in, si, ref, so, *th != 0, (float)atof(th)) == 0; }); if (!ok) { vp::fail("C26:library", "convert fails"); continue; }
      std::vector<Opt> os = {I, T, O, D}; if (*th) os.push_back(Opt("binary_thresh", 'b', th));
      VS a = line("converter", os, {}, sp, place); vp::describe(join(a)); vp::sample(join(a)); file_is(a, run_cmd(a), vp::read_file(ref)); vp::state(vp::hash(vp::read_file(ref)));
    }
    {  // concatenation of one to three files
      auto d3 = data(3), d2 = data(2); std::vector<std::pair<S, std::vector<Rec>>> w = {{in, d3}, {in + ";" + in2, d3}, {in2 + ";" + in + ";" + in2, d2}};
      w[1].second.insert(w[1].second.end(), d2.begin(), d2.end()); w[2].second.insert(w[2].second.end(), d3.begin(), d3.end()); w[2].second.insert(w[2].second.end(), d2.begin(), d2.end());
      for (auto& x : w) {
        S src = vp::tmp("cat.svm"); put_data(src, "svm", x.second); unlink(o.c_str()); unlink(ref.c_str()); silent([&] { ok = sol::convert(src, "svm", ref, so) == 0; }); if (!ok) { vp::fail("C26:library", "convert fails"); continue; }
        VS a = line("concat", {Opt("input", 'i', x.first), T, O, D}, {}, sp, place); vp::describe(join(a)); vp::sample(join(a)); file_is(a, run_cmd(a), vp::read_file(ref));
      }
    }
    for (int n : {1, 2, 3, 7, 10}) for (int r = 0; r < 2; ++r) {
      S op = vp::tmp("fold_"), rp = vp::tmp("rfold_"); for (int i = 0; i < 12; ++i) { unlink((op + vp::fmt("%d.", i) + so).c_str()); unlink((rp + vp::fmt("%d.", i) + so).c_str()); }
      silent([&] { ok = sol::split(in, si, n, rp, so, false) == 0; }); if (!ok) { vp::fail("C26:library", "split fails"); continue; }
      std::vector<Opt> os = {I, T, Opt("fold", 'n', vp::fmt("%d", n)), Opt("output_prefix", 'o', op), D}; if (r) os.push_back(Opt("shuffle", 'r', "", true));
      VS a = line("split", os, {}, sp, place); vp::describe(join(a)); vp::sample(join(a)); Ran q = run_cmd(a);
      if (q.rc != 0) { bad(a, "refused", vp::fmt("ends with %d", q.rc)); continue; }
      VS got, exp;
      for (int i = 0; i < 12; ++i) {
        S x = op + vp::fmt("%d.", i) + so, y = rp + vp::fmt("%d.", i) + so;
        if (exists(x) != exists(y)) { bad(a, "folds", vp::fmt("fold %d is %s", i, exists(x) ? "written although not asked for" : "missing")); break; }
        if (!exists(x)) continue;
        if (!r && vp::read_file(x) != vp::read_file(y)) { bad(a, "folds", vp::fmt("fold %d has other contents", i)); break; }
        if (r) { bool k1, k2; VS u = lines_of(text_of(x, so, k1)), v = lines_of(text_of(y, so, k2)); if (k2 && (!k1 || u.size() != v.size())) { bad(a, "folds", vp::fmt("fold %d has %zu instead of %zu records", i, u.size(), v.size())); break; } for (auto& l : u) got.push_back(l); for (auto& l : v) exp.push_back(l); }
      }
      std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); if (got != exp) bad(a, "folds", "the folds do not hold the records of the input");
      if (vp::read_file(in) != data_bytes(3, si)) bad(a, "input", "changes its input");
    }
    for (int od = 0; od < 2; ++od) {   // shuffle: to a file or standard output, with and without a type
      for (int of = 0; of < 2; ++of) {
        S ty = od ? so : si; if (!of && ty == "bin") continue;
        std::vector<Opt> os = {I, T}; if (of) os.push_back(O); if (od) os.push_back(D); unlink(o.c_str());
        VS a = line("shuffle", os, {}, sp, place); vp::describe(join(a)); vp::sample(join(a)); Ran q = run_cmd(a); if (q.rc != 0) { bad(a, "refused", vp::fmt("ends with %d", q.rc)); continue; }
        VS got; if (of) { bool k; got = lines_of(text_of(o, ty, k)); if (!k) { bad(a, "output", "the file written cannot be read"); continue; } }
        VS exp = lines_of(svm_text(data(3)));
        if (!of) { exp = lines_of(ty == "svm" ? svm_text(data(3)) : csv_text(data(3))); VS all = lines_of(q.out); for (auto& e : exp) { auto it = std::find(all.begin(), all.end(), e); if (it == all.end()) { bad(a, "output", "standard output lacks '" + e + "'"); break; } all.erase(it); } }
        else { std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); if (got != exp) bad(a, "output", "the output is not a permutation of the input"); }
        if (vp::read_file(in) != data_bytes(3, si)) bad(a, "input", "changes its input");
      }
    }
    {  // analyse
      S ref2 = vp::tmp("aref"); unlink(ref2.c_str()); silent([&] { ok = sol::analyze(in, si, ref2) == 0; }); S w = vp::read_file(ref2); if (!ok || w.empty()) vp::fail("C26:library", "analyze fails");
      for (int of = 0; of < 2; ++of) {
        std::vector<Opt> os = {I, T}; if (of) os.push_back(O); unlink(o.c_str()); VS a = line("analyze", os, {}, sp, place); vp::describe(join(a)); vp::sample(join(a)); Ran q = run_cmd(a);
        if (of) file_is(a, q, w); else if (q.rc != 0) bad(a, "refused", vp::fmt("ends with %d", q.rc)); else for (auto& l : lines_of(w)) if (q.out.find(l) == S::npos) { bad(a, "output", "standard output lacks '" + l + "'"); break; }
      }
    }
  }
}
// ---- command lines that mean nothing
static void ill_formed() {
  S f = data_file(2, "svm"), m = vp::tmp("ill.model"), none = vp::tmp("nosuchfile"), nodir = vp::tmp("nosuchdir") + "/x", junk = vp::tmp("junk"), start = start_model(2), fresh = vp::tmp("ill.new"); vp::write_file(junk, "this is no model\n");
  unlink(none.c_str());
  auto expect = [&](const VS& a, const S& keep) {
    vp::describe(join(a)); vp::sample(join(a)); vp::write_file(m, "an earlier result\n"); unlink(fresh.c_str());
    Ran r = run_cmd(a);
    if (!r.ended) bad(a, "hangs", "does not end"); else if (r.signalled) bad(a, "crash", vp::fmt("is ended by signal %d", r.rc - 1000)); else if (r.rc == 0) bad(a, "accepted", "ends with 0 although the command line cannot be carried out");
    if (!keep.empty() && vp::read_file(keep) != "an earlier result\n") bad(a, "overwrites", "is refused, but overwrites the earlier file");
    if (exists(fresh)) bad(a, "creates", "is refused, but leaves an output file");
    if (vp::read_file(f) != data_bytes(2, "svm")) bad(a, "input", "changes its input");
    vp::state(vp::hash(a[0] + vp::fmt("%d", r.rc)));
  };
  typedef std::vector<Opt> O; std::vector<std::pair<O, VS>> tr; VS pos = {f, m};
  for (const char* v : {"x", "1x", "1.5", "99999999999", "", "one"}) { tr.push_back({{Opt("classes", 'c', v)}, pos}); tr.push_back({{Opt("pass", 'p', v)}, pos}); tr.push_back({{Opt("batchsize", 'b', v)}, pos}); tr.push_back({{Opt("bufsize", 0, v)}, pos}); }
  for (const char* v : {"0", "-1", "-2147483648"}) { tr.push_back({{Opt("batchsize", 'b', v)}, pos}); tr.push_back({{Opt("bufsize", 0, v)}, pos}); tr.push_back({{Opt("classes", 'c', v)}, pos}); }
  tr.push_back({{Opt("classes", 'c', "1")}, pos});
  for (const char* v : {"xml", "", "SVM", "svm "}) tr.push_back({{Opt("format", 'f', v)}, pos});
  for (const char* v : {"nope", "", "ogd_model", "og"}) tr.push_back({{Opt("algo", 'a', v)}, pos});
  for (const char* v : {"nope=1", "eta", "eta=", "eta=x", "=1", "eta=1=2", "eta=0.5;nope=1", "nope=1;eta=0.5", "eta=0.5;power_t", "eta=-1", "loss=nope", "norm=L9"}) tr.push_back({{Opt("params", 0, v)}, pos});
  for (const char* v : {"x", "-1", "99999999999"}) tr.push_back({{Opt("dim", 'd', v)}, pos});
  tr.push_back({{Opt("model", 'm', none)}, pos}); tr.push_back({{Opt("model", 'm', junk)}, pos}); tr.push_back({{Opt("model", 'm', f)}, pos});
  tr.push_back({{}, {none, m}}); tr.push_back({{}, {}}); tr.push_back({{Opt("pass", 'p', "1")}, {}}); tr.push_back({{}, {f, m, "x"}}); tr.push_back({{}, {f, m, "x", "y"}}); tr.push_back({{Opt("zzz", 'q', "1")}, pos}); tr.push_back({{Opt("batch", 'B', "1")}, pos});
  tr.push_back({{}, {f, nodir}});
  for (size_t i = 0; i < tr.size(); ++i) for (int fr = 0; fr < 2; ++fr) {
    if (!vp::take()) continue;
    auto& t = tr[i]; VS p = t.second; if (fr) { if (p.size() < 2 || p[1] != m) continue; p[1] = fresh; }
    if (t.first.empty() && p.empty()) continue;       // no argument at all: the usage
    for (int sp = 0; sp < 3; ++sp) for (int pl = 0; pl < 3; ++pl) { if (t.first.empty() && (sp || pl)) continue; expect(line("sol_train", t.first, p, sp, pl), p.size() > 1 && p[1] == m ? m : ""); if (!t.first.empty()) { O o2 = t.first; o2.push_back(Opt("pass", 'p', "2")); if (S(o2[0].lng) != "pass") expect(line("sol_train", o2, p, sp, pl), p.size() > 1 && p[1] == m ? m : ""); } }
  }
  // the same mistakes with lsol_c, and its own
  std::vector<O> lc; Opt A("algo", 'a', "ogd"), In("input", 'i', f), Out("output", 'o', m), Te("task", 't', "test"), Mo("model", 'm', start);
  for (auto& t : tr) if (!t.first.empty() && t.second == pos) { O o = t.first; if (S(o[0].lng) != "algo" && S(o[0].lng) != "model") o.push_back(A); o.push_back(In); o.push_back(Out); lc.push_back(o); }
  lc.push_back({In, Out}); lc.push_back({A, Out}); lc.push_back({A, Opt("input", 'i', none), Out}); lc.push_back({A, In, Opt("output", 'o', nodir)}); lc.push_back({A, In, Out, Opt("task", 't', "nope")});
  lc.push_back({Te, In, Out}); lc.push_back({Te, Opt("model", 'm', none), In, Out}); lc.push_back({Te, Opt("model", 'm', junk), In, Out}); lc.push_back({Te, Opt("model", 'm', none), In, Out, Opt("filter", 0, junk)}); lc.push_back({Te, Mo, Opt("input", 'i', none), Out}); lc.push_back({Te, Mo, In, Out, Opt("filter", 0, none)}); lc.push_back({Te, Mo, In, Out, Opt("batchsize", 'b', "0")}); lc.push_back({Te, Mo, In, Out, Opt("bufsize", 0, "-1")}); lc.push_back({Te, Mo, Out});
  for (size_t i = 0; i < lc.size(); ++i) {
    if (!vp::take()) continue;
    for (int sp = 0; sp < 3; ++sp) for (int fr = 0; fr < 2; ++fr) { O o = lc[i]; bool k = true; for (auto& x : o) if (S(x.lng) == "output") { if (x.val != m) k = false; else if (fr) x.val = fresh; } expect(line("lsol_c", o, {}, sp, fr ? 3 : 0), k && !fr ? m : ""); }
  }
  if (vp::take()) { VS a = line("lsol_c", {Te, Mo, In, Opt("output", 'o', nodir)}, {}, 0, 0); vp::describe(join(a)); Ran r = run_cmd(a); if (r.rc == 0) bad(a, "c-predictions", "ends with 0 although the predictions cannot be written"); }
  // settings that only training itself can refuse
  for (const char* v : {"loss=logistic;cost_margin=0.5", "cost_margin=2;loss=logistic"}) {
    if (!vp::take()) continue;
    VS a = line("sol_train", {Opt("algo", 'a', "ogd"), Opt("params", 0, v)}, pos, 0, 0);
    vp::describe(join(a)); vp::write_file(m, "an earlier result\n"); Ran r = run_cmd(a);
    if (r.rc == 0 || vp::read_file(m) != "an earlier result\n") bad(a, "refused-training", "training is refused (cost-sensitive learning needs a hinge loss), but the program reports an accuracy, saves an untrained model and ends with 0");
  }
  std::vector<VS> dangling = {{"-f"}, {"-c"}, {"-p"}, {"-b"}, {"--bufsize"}, {"-a"}, {"-m"}, {"--params"}, {"--format"}, {"--classes"}, {"--pass"}, {"--batchsize"}, {"--algo"}, {"--model"}, {"--dim"}, {"-d"}};
  for (auto& d : dangling) { if (!vp::take()) continue; VS a = {"sol_train", f, m}; for (auto& x : d) a.push_back(x); expect(a, m); a = {"sol_train", "-p", "1", f, fresh}; for (auto& x : d) a.push_back(x); expect(a, ""); }
  // sol_test
  std::vector<std::pair<O, VS>> te; VS tp = {start, f, m};
  for (const char* v : {"x", "1x", "1.5", "", "0", "-1", "99999999999"}) { te.push_back({{Opt("batchsize", 'b', v)}, tp}); te.push_back({{Opt("bufsize", 0, v)}, tp}); }
  for (const char* v : {"xml", "", "BIN"}) te.push_back({{Opt("format", 'f', v)}, tp});
  te.push_back({{Opt("filter", 0, none)}, tp}); te.push_back({{Opt("zzz", 'q', "1")}, tp}); te.push_back({{}, {none, f, m}}); te.push_back({{}, {junk, f, m}}); te.push_back({{}, {start, none, m}}); te.push_back({{}, {start}}); te.push_back({{}, {start, f, m, "x"}}); te.push_back({{}, {f, start, m}});
  if (vp::take()) { VS a = line("sol_test", {}, {start, f, nodir}, 0, 0); vp::describe(join(a)); Ran r = run_cmd(a); if (r.rc == 0) bad(a, "test-predictions", "ends with 0 although the predictions cannot be written"); }
  for (size_t i = 0; i < te.size(); ++i) for (int fr = 0; fr < 2; ++fr) {
    if (!vp::take()) continue;
    auto& t = te[i]; VS p = t.second; if (fr) { if (p.size() < 3 || p[2] != m) continue; p[2] = fresh; }
    for (int sp = 0; sp < 3; ++sp) for (int pl = 0; pl < 3; ++pl) { if (t.first.empty() && (sp || pl)) continue; expect(line("sol_test", t.first, p, sp, pl), p.size() > 2 && p[2] == m ? m : ""); }
  }
  for (const char* d : {"-f", "-b", "--bufsize", "--filter", "--format", "--batchsize"}) { if (!vp::take()) continue; expect({"sol_test", start, f, m, d}, m); expect({"sol_test", start, f, fresh, d}, ""); }
  // the data tools
  struct T { const char* prog; O os; }; Opt I("input", 'i', f), Ty("input_type", 's', "svm"), Ou("output", 'o', fresh), Dt("output_type", 'd', "svm"), N("fold", 'n', "2"), Pr("output_prefix", 'o', fresh);
  std::vector<T> ts = {{"converter", {I, Ty, Ou, Dt}}, {"concat", {I, Ty, Ou, Dt}}, {"split", {I, Ty, N, Pr, Dt}}, {"shuffle", {I, Ty, Ou, Dt}}, {"analyze", {I, Ty, Ou}}};
  for (auto& t : ts) {
    if (!vp::take()) continue;
    S prog = t.prog;
    for (int sp = 0; sp < 3; ++sp) {
      for (size_t k = 0; k < t.os.size(); ++k) {
        O o2 = t.os; S n = o2[k].lng; o2.erase(o2.begin() + k);
        bool optional = (prog == "shuffle" && (n == "output" || n == "output_type")) || (prog == "analyze" && n == "output");
        if (!optional) expect(line(prog, o2, {}, sp, 0), "");                         // a required option is missing
        VS a = line(prog, o2, {}, sp, 0); a.push_back(S("--") + n); expect(a, ""); a.back() = S("-") + t.os[k].sh; expect(a, "");   // its value is missing
        auto with = [&](const S& v) { O o3 = t.os; o3[k].val = v; return line(prog, o3, {}, sp, 0); };
        if (n == "input") { for (auto& v : VS{none, nodir}) { unlink(fresh.c_str()); VS b = with(v); vp::describe(join(b)); Ran r = run_cmd(b); if (r.rc == 0 || r.signalled || !r.ended) bad(b, "accepted", "an input that does not exist is not reported"); } }
        if (n == "input_type" || n == "output_type") for (auto& v : VS{"xml", "sv"}) { VS b = with(v); vp::describe(join(b)); Ran r = run_cmd(b); if (r.rc == 0 || r.signalled || !r.ended) bad(b, "accepted", "an unknown type is not reported"); }
        if (n == "output") { VS b = with(nodir); vp::describe(join(b)); Ran r = run_cmd(b); if (r.rc == 0 || r.signalled || !r.ended) bad(b, "accepted", "an output that cannot be written is not reported"); }
        if (n == "output_prefix") { VS b = with(nodir); vp::describe(join(b)); Ran r = run_cmd(b); if (r.rc == 0 || r.signalled || !r.ended) bad(b, "accepted", "an output that cannot be written is not reported"); }
        if (n == "fold") for (auto& v : VS{"x", "0", "-1", "", "1.5"}) { expect(with(v), ""); for (int i = 0; i < 3; ++i) if (exists(fresh + vp::fmt("%d.svm", i))) bad(with(v), "creates", "is refused, but leaves an output file"); }
        for (int i = 0; i < 3; ++i) unlink((fresh + vp::fmt("%d.svm", i)).c_str());
      }
      { O o3 = t.os; o3.push_back(Opt("zzz", 'q', "1")); expect(line(prog, o3, {}, sp, 0), ""); }
      if (prog == "converter") for (auto& v : VS{"x", "", "0.5x"}) { O o3 = t.os; o3.push_back(Opt("binary_thresh", 'b', v)); expect(line(prog, o3, {}, sp, 0), ""); }
    }
  }
}
// ---- help and lists
static void info() {
  if (!vp::take()) return;
  S f = data_file(2, "svm"), m = vp::tmp("info.model");
  for (const char* p : {"sol_train", "sol_test", "lsol_c", "converter", "concat", "split", "shuffle", "analyze"}) for (const char* h : {"-h", "--help"}) {
    bool own = S(p) == "sol_train" || S(p) == "sol_test"; if (!own && S(p) != "lsol_c" && S(h) == "-h") continue; unlink(m.c_str());
    VS a = own ? VS{p, h, f, m} : S(p) == "lsol_c" ? VS{p, "-a", "ogd", "-i", f, "-o", m, h} : VS{p, h}; vp::describe(join(a)); Ran r = run_cmd(a); if (r.rc != 0) bad(a, "help", vp::fmt("ends with %d", r.rc)); if (exists(m)) bad(a, "help", "does more than show the help");
  }
  struct L { const char* group; VS names; };
  std::vector<L> ls = {{"model", {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"}}, {"loss", {"hinge", "logistic", "square", "bool"}}, {"reader", {"svm", "csv", "bin"}}, {"writer", {"svm", "csv", "bin"}}};
  for (auto& l : ls) for (int sp = 0; sp < 6; ++sp) {
    VS a = line(sp < 3 ? "sol_train" : "lsol_c", {Opt("show", 's', l.group)}, {}, sp % 3, 0); vp::describe(join(a)); vp::sample(join(a)); Ran r = run_cmd(a); if (r.rc != 0) { bad(a, "show", vp::fmt("ends with %d", r.rc)); continue; }
    VS got; for (auto& x : lines_of(r.out)) got.push_back(x.substr(0, x.find(':')));
    for (auto& n : l.names) if (std::count(got.begin(), got.end(), n) != 1) bad(a, "show", "does not list " + n + " once");
  }
}
static void run() { info(); ill_formed(); trains(); tests(); data_tools(); }
VP_MAIN(run)
