// C16: the learned model depends only on the sequence of examples.
#include "rec.h"
#include "datafile.h"
#include <sol/c_api.h>
#include <sol/model/model.h>
#include <sol/model/online_model.h>
#include <list>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
using sol::model::Model; using sol::model::OnlineModel; using sol::pario::DataIter;
static const char* ALGOS[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw", "eccw", "arow", "sofs", "stg", "fobos-l1", "pet", "rda", "rda-l1", "erda-l1", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static const char* FORMATS[] = {"svm", "bin", "csv", "numpy", "csr_matrix", "svm-shuffled"};
static void quiet_cb(void*, long long, long long, long long, double) {}
struct Conf { std::string a; int C; int k; std::string show() const { return a + vp::fmt(" %d classes, settings %d", C, k); } };
static Model* make(const Conf& c, bool capi = false) {
  Model* m = capi ? (Model*)sol_CreateModel(c.a.c_str(), c.C) : Model::Create(c.a, c.C); 
  auto set = [&](const char* n, const char* v) { if (capi) sol_SetModelParameter(m, n, v); else m->SetParameter(n, v); };
  if (capi) sol_InspectOnlineIteration(m, quiet_cb, nullptr); else dynamic_cast<OnlineModel*>(m)->set_iterate_callback(quiet_cb, nullptr);
  if (c.k) { set("bias_eta", "0.5"); if (c.a != "alma2") set("norm", "L2"); }
  bool pick = c.a == "sofs" || c.a == "pet" || c.a.find("ofs") != std::string::npos;
  if (pick) set("B", "2"); if (c.a == "fofs") set("lambda", "0.1"); if (c.a == "stg" || c.a.find("-l1") != std::string::npos) set("lambda", "0.02"); if (c.a == "stg" && c.k) set("k", "2");
  if (c.k == 2) set("lazy_update", "true");
  return m;
}
static std::string params(const Conf& c) {
  std::string s = "step_show=1000000"; auto set = [&](const char* n, const char* v) { s += std::string(";") + n + "=" + v; };
  if (c.k) { set("bias_eta", "0.5"); if (c.a != "alma2") set("norm", "L2"); }
  bool pick = c.a == "sofs" || c.a == "pet" || c.a.find("ofs") != std::string::npos;
  if (pick) set("B", "2"); if (c.a == "fofs") set("lambda", "0.1"); if (c.a == "stg" || c.a.find("-l1") != std::string::npos) set("lambda", "0.02"); if (c.a == "stg" && c.k) set("k", "2");
  if (c.k == 2) set("lazy_update", "true");
  return s;
}
static std::vector<Rec> alphabet(int C) {
  std::vector<Rec> a; std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, -0.5f}}, {{2, 1.f}, {3, 0.25f}, {5, 1.f}}, {{1, -1.f}, {3, 2.f}}, {}, {{1, 0.5f}, {2, 1.f}, {4, -1.5f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.f = xs[i]; r.label = C == 2 ? (i % 2 ? -1 : 1) : (int)(i % C); a.push_back(r); }
  return a;
}
// what a model is: scores of probes bit by bit, and its saved form
struct Obs { std::vector<float> s; std::string file; float err; size_t updates; int iters; };
static Obs observe(Model* m, float err, bool save) {
  Obs o; o.err = err; o.updates = m->update_num(); o.iters = dynamic_cast<OnlineModel*>(m)->cur_iter_num();
  if (m->model_updated()) m->EndTrain();
  std::vector<float> s(m->clf_num()); sol::pario::DataPoint dp;
  for (uint32_t i = 0; i < 8; ++i) { Rec r; r.label = 1; if (i) r.f.push_back({i, 1.f}); to_dp(r, dp); m->Predict(dp, s.data()); o.s.insert(o.s.end(), s.begin(), s.end()); }
  if (save) { std::string f = vp::tmp("m"); if (m->Save(f) != 0) o.file = "cannot be saved"; else o.file = vp::read_file(f); }
  return o;
}
static bool bits(const std::vector<float>& a, const std::vector<float>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (memcmp(&a[i], &b[i], 4) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
static Obs reference(const Conf& c, const std::vector<Rec>& d) {       // example by example, no iterator
  std::unique_ptr<Model> m(make(c)); auto* om = dynamic_cast<OnlineModel*>(m.get()); om->BeginTrain(); std::vector<float> s(m->clf_num()); sol::pario::DataPoint dp; size_t e = 0;
  for (auto& r : d) { to_dp(r, dp); m->PreProcess(dp); if (om->Iterate(dp, s.data()) != dp.label()) ++e; vp::step(); }
  m->EndTrain(); return observe(m.get(), float(double(e) / d.size()), true);
}
// one source in one of the formats; arrays live in the list
struct Store { std::list<std::vector<double>> d; std::list<std::vector<int>> i; };
static bool add(DataIter& it, const std::string& fmt, const std::vector<Rec>& d, int passes, int nr, bool capi, Store& st) {
  std::string f = vp::tmp(vp::fmt("src%d", nr));
  if (fmt == "numpy" || fmt == "csr_matrix") {
    if (d.empty()) return true;
    std::vector<double> x, y; std::vector<int> ind, ptr(1, 0);
    for (auto& r : d) { y.push_back(r.label); if (fmt == "numpy") { size_t b = x.size(); x.resize(b + 6, 0.0); for (auto& q : r.f) x[b + q.first - 1] = q.second; } else { for (size_t k = r.f.size(); k-- > 0;) { ind.push_back((int)r.f[k].first - 1); x.push_back(r.f[k].second); } ptr.push_back((int)ind.size()); } }
    x.push_back(0); ind.push_back(0); st.d.push_back(x); double* px = st.d.back().data(); st.d.push_back(y); double* py = st.d.back().data(); st.i.push_back(ind); int* pi = st.i.back().data(); st.i.push_back(ptr); int* pp = st.i.back().data();
    std::string path = fmt == "numpy" ? vp::fmt("%lld;%lld;%zu;6;48", (long long)px, (long long)py, d.size()) : vp::fmt("%lld;%lld;%lld;%lld;%zu", (long long)pi, (long long)pp, (long long)px, (long long)py, d.size());
    return (capi ? sol_LoadData(&it, path.c_str(), fmt.c_str(), passes) : it.AddReader(path, fmt, passes)) == 0;
  }
  std::string type = fmt;
  if (fmt == "svm-shuffled") { type = "svm"; std::string t; for (auto& r : d) { t += vp::fmt("%d", r.label); for (size_t k = r.f.size(); k-- > 0;) t += vp::fmt(" %u:%.9g", r.f[k].first, r.f[k].second); t += "\n"; } vp::write_file(f, t); }
  else if (fmt == "csv") { std::string t = "class,a,b,c,d,e,f\n"; for (auto& r : d) { float v[6] = {0}; for (auto& q : r.f) v[q.first - 1] = q.second; t += vp::fmt("%d", r.label); for (float x : v) t += vp::fmt(",%.9g", x); t += "\n"; } vp::write_file(f, t); }
  else put_data(f, type, d);
  return (capi ? sol_LoadData(&it, f.c_str(), type.c_str(), passes) : it.AddReader(f, type, passes)) == 0;
}
struct Way { std::string fmt; int batch, buf; std::vector<size_t> calls, sources; int passes; bool capi; 
  std::string show() const { std::string s = fmt + vp::fmt(", batches of %d, %d buffers, %d passes%s, calls", batch, buf, passes, capi ? ", C interface" : ""); for (size_t x : calls) s += vp::fmt(" %zu", x); s += ", sources"; for (size_t x : sources) s += vp::fmt(" %zu", x); return s; } };
// train in this way; cuts are positions in the sequence (ends of calls; ends of sources)
static bool train(const Conf& c, const std::vector<Rec>& d, const Way& w, Obs& o, bool save) {
  std::unique_ptr<Model> m(make(c, w.capi)); float err = 0; size_t lo = 0; vp::progress();
  for (size_t hi : w.calls) {
    Store st; DataIter* it = w.capi ? (DataIter*)sol_CreateDataIter(w.batch, w.buf) : new DataIter(w.batch, w.buf); int nr = 0; size_t a = lo; bool ok = true;
    for (size_t s : w.sources) { size_t b = std::min(std::max(s, a), hi); if (b > a) { ok = ok && add(*it, w.fmt, std::vector<Rec>(d.begin() + a, d.begin() + b), w.passes, nr++, w.capi, st); a = b; } }
    if (a < hi) ok = ok && add(*it, w.fmt, std::vector<Rec>(d.begin() + a, d.begin() + hi), w.passes, nr++, w.capi, st);
    if (ok) err = w.capi ? sol_Train(m.get(), it) : m->Train(*it);
    if (w.capi) sol_ReleaseDataIter((void**)&it); else delete it;
    if (!ok) return false; vp::step(hi - lo); lo = hi;
  }
  o = observe(m.get(), err, save); vp::trace(); return true;
}
static bool compare(const Conf& c, const std::string& way, const std::vector<Rec>& d, const Obs& got, const Obs& want, bool save) {
  auto bad = [&](const std::string& k, const std::string& m) { vp::fail("C16:" + c.a + ":" + k, c.show() + " on " + ::show(d).substr(0, 300) + " (" + way + "): " + m); return false; };
  if (!bits(got.s, want.s)) { size_t i = 0; while (i < got.s.size() && got.s[i] == want.s[i]) ++i; return bad("model", vp::fmt("the learned model differs: %.9g instead of %.9g", got.s[i], want.s[i])); }
  if (std::fabs(got.err - want.err) > 1e-6) return bad("error", vp::fmt("the training error is %g instead of %g", got.err, want.err));
  if (got.updates != want.updates || got.iters != want.iters) return bad("counters", vp::fmt("%zu updates in %d steps instead of %zu in %d", got.updates, got.iters, want.updates, want.iters));
  if (save && got.file != want.file) return bad("file", "the saved model differs");
  return true;
}
static std::vector<Conf> confs() { std::vector<Conf> c; for (const char* a : ALGOS) for (int C : {2, 3}) for (int k = 0; k < 3; ++k) c.push_back({a, C, k}); return c; }
static void deliveries() {
  for (auto& c : confs()) for (int part = 0; part < 2; ++part) {
    if (!vp::take()) continue;
    vp::describe(c.show()); vp::sample(c.show() + ": all sequences of up to 3 examples in every delivery");
    auto al = alphabet(c.C); bool ok = true; int nr = part;
    vp::sequences((int)al.size(), 1, vp::thorough() ? 4 : vp::shallow() ? 1 : 3, [&](const std::vector<int>& q) {
      if (!ok || (q.size() > 1 && q.back() % 2 != part) || (q.size() == 1 && part)) return;
      std::vector<Rec> d; for (int k : q) d.push_back(al[k]); size_t n = d.size();
      Obs want = reference(c, d); uint64_t h = vp::hash(c.show()); for (float x : want.s) { uint32_t b; memcpy(&b, &x, 4); h = vp::mix(h, b); } vp::state(h);
      // every split into calls and into sources
      for (size_t cm = 0; cm < (size_t(1) << (n - 1)) && ok; ++cm) for (size_t sm = 0; sm < (size_t(1) << (n - 1)) && ok; ++sm) {
        Way w; for (size_t i = 1; i < n; ++i) { if (cm >> (i - 1) & 1) w.calls.push_back(i); if (sm >> (i - 1) & 1) w.sources.push_back(i); } w.calls.push_back(n);
        ++nr; w.fmt = FORMATS[nr % 6]; w.batch = nr / 6 % 4 == 3 ? 256 : 1 + nr / 6 % 4; w.buf = 1 + nr % 3; w.passes = 1; w.capi = nr % 7 == 0; Obs got;
        if (!train(c, d, w, got, nr % 4 == 0)) { vp::fail("C16:" + c.a + ":refused", c.show() + ": training fails (" + w.show() + ")"); ok = false; break; }
        ok = compare(c, w.show(), d, got, want, nr % 4 == 0);
      }
    });
  }
}
// longer data: every format x batch size x buffers, passes against copies
static void longer() {
  for (auto& c : confs()) {
    if (!vp::take()) continue;
    vp::describe(c.show() + ", longer data"); vp::sample(c.show() + ": 9 examples in every format, batch size and buffer count; passes against copies");
    auto al = alphabet(c.C); std::vector<Rec> d; for (int i = 0; i < 9; ++i) { Rec r = al[(i * i + 2 * i) % al.size()]; for (auto& f : r.f) f.second *= (float)(1 + i % 3); if (i % 4 == 3) r.label = c.C == 2 ? -r.label : (r.label + 1) % c.C; d.push_back(r); }
    Obs one = reference(c, d); std::vector<Rec> d3; for (int i = 0; i < 3; ++i) d3.insert(d3.end(), d.begin(), d.end()); Obs three = reference(c, d3); bool ok = true;
    for (const char* f : FORMATS) for (int batch : {1, 2, 3, 4, 9, 10, 256}) for (int buf : {1, 2, 5}) for (int capi = 0; capi < 2 && ok; ++capi) {
      if (vp::shallow() && (batch != 2 || buf != 2)) continue;
      Way w{f, batch, buf, {9}, {}, 1, capi != 0}; Obs got;
      if (!train(c, d, w, got, true)) { vp::fail("C16:" + c.a + ":refused", c.show() + ": training fails (" + w.show() + ")"); ok = false; break; }
      ok = compare(c, w.show(), d, got, one, true); if (!ok) break;
      w.passes = 3; if (buf == 2 || vp::thorough()) { train(c, d, w, got, false); ok = compare(c, w.show(), d3, got, three, false); }
      w.passes = 1; w.calls = {9, 18, 27}; if (batch == 4 && ok) { train(c, d3, w, got, false); ok = compare(c, w.show(), d3, got, three, false); }
      w.calls = {27}; w.sources = {9, 18}; if (batch == 4 && ok) { train(c, d3, w, got, false); ok = compare(c, w.show(), d3, got, three, false); }
    }
    // the executable
    if (ok && !vp::shallow()) for (int v = 0; v < (vp::thorough() ? 6 : 2); ++v) {
      std::string f = vp::tmp("cli"), m = vp::tmp("cli.model"); const char* ty = v % 3 == 0 ? "svm" : v % 3 == 1 ? "bin" : "csv"; put_data(f, ty, d); unlink(m.c_str()); vp::step(); vp::trace(); vp::progress();
      int r = system((std::string(getenv("VP_BIN")) + "/sol_train -f " + ty + vp::fmt(" -c %d -p %d -b %d --bufsize %d -a ", c.C, v % 2 ? 3 : 1, 1 + v * 3, 1 + v % 3) + c.a + " --params '" + params(c) + "' " + f + " " + m + " >/dev/null 2>&1").c_str());
      if (r != 0 || vp::read_file(m) != (v % 2 ? three : one).file) { vp::fail("C16:" + c.a + ":tool", c.show() + ": sol_train learns another model"); break; }
    }
  }
}
// more data than any batch
static void volume() {
  int nr = 0;
  for (auto& c : confs()) {
    if (c.k == 2) continue;
    ++nr; if (vp::shallow()) continue;
    if (!vp::take()) continue;
    vp::describe(c.show() + ", 1100 examples"); vp::sample(c.show() + ": 1100 examples in batches of 1 to 2000, several calls and sources");
    auto al = alphabet(c.C); std::vector<Rec> d; for (int i = 0; i < 1100; ++i) { Rec r = al[(i * 7 + i / 5) % al.size()]; for (auto& f : r.f) f.second *= (float)(1 + (i * 13) % 11) / 4; if (i % 9 == 4) r.label = c.C == 2 ? -r.label : (r.label + 1) % c.C; d.push_back(r); }
    std::vector<Rec> half(d.begin(), d.begin() + 550), two = half; two.insert(two.end(), half.begin(), half.end());
    Obs all = reference(c, d), twice = reference(c, two), got; bool ok = true; int k = nr;
    struct V { int batch, buf; std::vector<size_t> calls, sources; };
    for (auto& v : std::vector<V>{{256, 2, {1100}, {}}, {1, 3, {1100}, {}}, {2000, 1, {1100}, {}}, {64, 2, {256, 512, 1100}, {}}, {256, 2, {1, 257, 1100}, {255, 700}}, {100, 4, {1100}, {256, 257, 600}}, {256, 1, {1100}, {1099}}}) {
      Way w{FORMATS[++k % 6], v.batch, v.buf, v.calls, v.sources, 1, k % 5 == 0};
      if (!train(c, d, w, got, true)) { vp::fail("C16:" + c.a + ":refused", c.show() + ": training fails (" + w.show() + ")"); ok = false; break; }
      Obs want = all; if (v.calls.size() > 1) want.err = got.err;      // the error of the last call only
      if (!(ok = compare(c, w.show(), d, got, want, true))) break;
    }
    if (ok) for (int b : {256, 550, 551, 3}) { Way w{FORMATS[++k % 6], b, 2, {550}, {}, 2, k % 2 == 0}; if (!train(c, half, w, got, true) || !compare(c, w.show(), two, got, twice, true)) break; }
  }
}
// models trained side by side
static void together() {
  for (const char* a : ALGOS) for (int C : {2, 3}) {
    if (!vp::take()) continue;
    Conf c{a, C, 1}; vp::describe(c.show() + " beside every other algorithm"); vp::sample(c.show() + " beside every other algorithm, their training interleaved");
    auto al = alphabet(C), al2 = alphabet(5 - C); std::vector<Rec> d, e; for (int i = 0; i < 6; ++i) { d.push_back(al[(i * 3 + 1) % al.size()]); e.push_back(al2[(i * 2) % al2.size()]); }
    Obs want = reference(c, d);
    for (const char* b : ALGOS) for (int mode = 0; mode < 2; ++mode) {
      Conf c2{b, 5 - C, mode}; std::unique_ptr<Model> m(make(c)), n(make(c2)), same(make(c)); float err = 0; vp::progress(); vp::trace();
      std::string f = vp::tmp("da"), g = vp::tmp("db");
      for (int i = 0; i < 3; ++i) {
        put_data(f, "bin", std::vector<Rec>(d.begin() + 2 * i, d.begin() + 2 * i + 2)); put_data(g, "bin", std::vector<Rec>(e.begin() + 2 * i, e.begin() + 2 * i + 2));
        { DataIter it(1, 2); it.AddReader(g, "bin", 1); n->Train(it); } { put_data(vp::tmp("dc"), "bin", {d[(i * 2 + 3) % 6], d[i]}); DataIter it(1, 2); it.AddReader(vp::tmp("dc"), "bin", 1); same->Train(it); }
        { DataIter it(1, 2); it.AddReader(f, "bin", 1); err = m->Train(it); } vp::step(6);
        if (i == 1) { n->EndTrain(); { DataIter it(1, 2); it.AddReader(g, "bin", 1); n->Test(it, nullptr); } if (mode) { n.reset(make(c2)); same.reset(make(c)); } }
      }
      n.reset(); Obs got = observe(m.get(), err, false); if (!compare(c, "beside " + c2.show(), d, got, want, false)) break;
    }
  }
}
// nothing stays behind in the process: the model is the same in a fresh process and in one where
// other models, with other settings, were made, trained, tested, saved and restored before
static void others(const Conf& c, int j) {
  auto al = alphabet(c.C); std::string f = vp::tmp("od"), mf = vp::tmp("om");
  std::unique_ptr<Model> m(Model::Create(c.a, c.C)); dynamic_cast<OnlineModel*>(m.get())->set_iterate_callback(quiet_cb, nullptr);
  static const char* sets[][2] = {{"eta", "0.3"}, {"bias_eta", "0.25"}, {"lambda", "0.3"}, {"B", "4"}, {"C", "0.2"}, {"a", "2"}, {"alpha", "0.5"}, {"delta", "0.7"}, {"r", "0.5"}, {"rou", "0.3"}, {"k", "5"}, {"norm", "L1"}, {"power_t", "0.7"}, {"t0", "7"}, {"gamma", "0.3"}, {"phi", "0.4"}, {"cost_margin", "2"}};
  for (auto& s : sets) try { m->SetParameter(s[0], s[1]); } catch (std::exception&) {}
  if (j & 1) try { m->SetParameter("loss", c.C == 2 ? "squared-hinge" : "uniform-squared-hinge"); } catch (std::exception&) {}
  std::vector<Rec> d; for (int i = 0; i < 5; ++i) { Rec r = al[(i + j) % al.size()]; for (auto& q : r.f) q.second *= 3; r.f.push_back({40u + i, 2.f}); d.push_back(r); }
  put_data(f, "svm", d); { DataIter it(2, 2); it.AddReader(f, "svm", 2); m->Train(it); } m->EndTrain(); { DataIter it(2, 2); it.AddReader(f, "svm", 1); m->Test(it, nullptr); }
  if (m->Save(mf) == 0) { std::unique_ptr<Model> r(Model::Load(mf)); if (r) { DataIter it(2, 2); it.AddReader(f, "svm", 1); dynamic_cast<OnlineModel*>(r.get())->set_iterate_callback(quiet_cb, nullptr); r->Train(it); r->EndTrain(); } }
}
static std::string in_child(const std::function<std::string()>& fn) {
  std::string f = vp::tmp("child"); unlink(f.c_str()); fflush(stdout);
  pid_t p = fork(); if (p == 0) { std::string o; try { o = fn(); } catch (std::exception& e) { o = std::string("exception ") + e.what(); } vp::write_file(f, o); _exit(0); }
  int st = 0; waitpid(p, &st, 0); vp::progress(); if (st != 0) return vp::fmt("the process ended with status %d", st); return vp::read_file(f);
}
static void isolated() {
  for (const char* a : ALGOS) for (int C : {2, 3}) for (int k = 0; k < 2; ++k) {
    if (!vp::take()) continue;
    Conf c{a, C, k}; vp::describe(c.show() + " after other models"); vp::sample(c.show() + " in a fresh process, and in one that made other models first");
    auto al = alphabet(C); std::vector<Rec> d; for (int i = 0; i < 8; ++i) d.push_back(al[(i * 3 + 1) % al.size()]);
    auto obs = [&]() { Obs o = reference(c, d); std::string t = o.file + vp::fmt("|%zu|%d|", o.updates, o.iters); for (float x : o.s) { uint32_t b; memcpy(&b, &x, 4); t += vp::fmt("%08x ", b); } return t; };
    std::string want = in_child(obs); vp::state(vp::hash(want)); vp::step(8); vp::trace();
    for (int j = 0; j < 5; ++j) {
      if (vp::shallow() && j) break;
      std::string got = in_child([&]() { if (j < 2) others(c, j); else if (j == 2) { Conf o = c; o.C = 5 - C; others(o, 0); } else for (const char* b : ALGOS) others(Conf{b, j == 3 ? 2 : 3, 0}, j); return obs(); });
      vp::step(8); vp::trace();
      if (got != want) { vp::fail("C16:" + c.a + ":process", c.show() + vp::fmt(": learns another model when other models were trained before in the process (history %d)", j)); break; }
    }
  }
}
static void run() { isolated(); deliveries(); longer(); volume(); together(); }
VP_MAIN(run)
