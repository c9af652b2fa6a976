// C09: a damaged model file is rejected, or restores exactly the model that was saved.
#include "reflearn.h"
#include "datafile.h"
#include <sol/c_api.h>
#include <json/json.h>
using sol::model::Model;
static void quiet_cb(void*, long long, long long, long long, double) {}
static std::vector<Cfg> configs() {
  std::vector<Cfg> out;
  std::vector<std::pair<std::string, Params>> base = {
    {"perceptron", {{"bias_eta", "0.5"}}}, {"ogd", {{"bias_eta", "0.5"}, {"eta", "0.3"}}}, {"pa", {}}, {"pa1", {{"C", "0.3"}}}, {"pa2", {{"C", "0.3"}}}, {"alma2", {{"alpha", "0.5"}}}, {"sop", {{"a", "2"}, {"bias_eta", "1"}}}, {"cw", {{"bias_eta", "1"}}}, {"eccw", {{"a", "2"}}}, {"arow", {{"r", "0.5"}, {"bias_eta", "0.5"}}}, {"sofs", {{"B", "3"}}}, {"stg", {{"lambda", "0.05"}, {"k", "2"}}}, {"fobos-l1", {{"lambda", "0.05"}}}, {"pet", {{"B", "3"}}}, {"rda", {}}, {"rda-l1", {{"lambda", "0.02"}, {"bias_eta", "1"}}}, {"erda-l1", {{"rou", "0.01"}}}, {"ada-fobos", {{"delta", "0.5"}}}, {"ada-fobos-l1", {{"delta", "0.5"}, {"lambda", "0.01"}}}, {"adafobos-ofs", {{"delta", "0.5"}, {"B", "3"}}}, {"ada-rda", {{"delta", "0.5"}}}, {"ada-rda-l1", {{"delta", "0.5"}, {"lambda", "0.01"}}}, {"adarda-ofs", {{"delta", "0.5"}, {"B", "3"}}}, {"fofs", {{"eta", "0.3"}, {"lambda", "0.2"}, {"B", "3"}}}};
  for (auto& b : base) for (int c : {2, 3}) out.push_back({b.first, c, b.second});
  out.push_back({"ogd", 2, {{"loss", "logistic"}, {"norm", "L1"}, {"lazy_update", "true"}, {"active_smoothness", "1e9"}}});
  out.push_back({"ogd", 2, {{"cost_margin", "2.5"}}});
  out.push_back({"arow", 4, {{"loss", "uniform-hinge"}}});
  // models that have seen nothing, or no feature
  for (auto& b : base) for (const char* how : {"_new", "_bare"}) { Params p = b.second; p[how] = ""; out.push_back({b.first, b.second.size() % 2 ? 2 : 3, p}); }
  return out;
}
static std::unique_ptr<Model> train(const Cfg& cfg) {
  std::unique_ptr<Model> m(Model::Create(cfg.algo, cfg.classes));
  for (auto& k : cfg.p) if (k.first[0] != '_') m->SetParameter(k.first, k.second);
  if (cfg.p.count("_new")) return m;
  bool bare = cfg.p.count("_bare") > 0;
  auto* om = dynamic_cast<sol::model::OnlineModel*>(m.get()); om->set_iterate_callback(quiet_cb, nullptr);
  m->BeginTrain();
  std::vector<float> s(m->clf_num()); sol::pario::DataPoint dp;
  std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, 0.5f}}, {{1, 0.5f}, {3, -1.25f}}, {{2, -0.75f}, {4, 2.f}}, {{1, 1.f}}, {{3, 1.5f}, {4, 0.3f}}};
  for (size_t i = 0; i < xs.size(); ++i) { Rec r; r.label = cfg.classes == 2 ? (i % 2 ? -1 : 1) : (int)(i * 2 % cfg.classes); if (!bare) r.f = xs[i]; to_dp(r, dp); m->PreProcess(dp); om->Iterate(dp, s.data()); }
  m->EndTrain(); return m;
}
// the numbers of the parameter section, vector by vector; false if it is not well formed
static bool vectors(const std::string& text, std::vector<std::vector<float>>& out) {
  out.clear(); size_t p = text.find("model parameters:\n"); if (p == std::string::npos) return false;
  std::istringstream is(text.substr(p + 18)); std::string tok; bool in = false;
  while (is >> tok) {
    if (!in) { if (tok == "[") { in = true; out.push_back({}); } continue; }
    if (tok == "]") { in = false; continue; }
    char* e; float v = strtof(tok.c_str(), &e); if (*e || e == tok.c_str()) return false; out.back().push_back(v);
  }
  return !in;
}
static bool header(const std::string& text, Json::Value& root) {
  if (text.compare(0, 12, "model info:\n") != 0) return false;
  size_t p = text.find("model parameters:\n"); if (p == std::string::npos) return false;
  Json::Reader rd; return rd.parse(text.substr(12, p - 12), root);
}
// leaf by leaf: what the file says and the model reports
static bool agrees(const Json::Value& file, const Json::Value& model, std::string& why) {
  if (!file.isObject() || !model.isObject()) { why = "section"; return false; }
  for (Json::Value::const_iterator i = file.begin(); i != file.end(); ++i) {
    std::string n = i.name(); if (n == "lazy_update") continue;
    if (!model.isMember(n)) { why = n + " is in the file, not in the model"; return false; }
    const Json::Value& v = model[n];
    if (i->isObject()) { if (!agrees(*i, v, why)) return false; continue; }
    if (v.isObject()) { why = n; return false; }
    if (v.isNumeric()) {
      std::string t = i->asString(); char* e; float f = strtof(t.c_str(), &e);
      if (f != (float)v.asDouble()) { why = n + " is " + t + " in the file, " + v.asString() + " in the model"; return false; }
    } else if (i->asString() != v.asString()) { why = n + " is " + i->asString() + " in the file, " + v.asString() + " in the model"; return false; }
  }
  return true;
}
struct Case {
  const Cfg& cfg; std::string text, info; std::vector<std::vector<float>> vecs; std::string path, again; int api = 0;
  Case(const Cfg& c) : cfg(c) {
    auto m = train(c); path = vp::tmp("m"); again = vp::tmp("again");
    if (m->Save(path) != 0) { bad("save", "the model cannot be saved"); return; }
    text = vp::read_file(path); info = m->model_info(); if (!vectors(text, vecs)) bad("save", "the saved model is not well formed");
  }
  void bad(const std::string& key, const std::string& msg) { vp::fail("C09:" + cfg.algo + ":" + key, cfg.show() + ": " + msg); }
  std::unique_ptr<Model> load(const std::string& t) {
    vp::progress(); vp::step(); vp::trace(); vp::write_file(path, t);
    try { return std::unique_ptr<Model>((api ^= 1) ? Model::Load(path) : (Model*)sol_RestoreModel(path.c_str())); }
    catch (std::exception& e) { bad("exception", std::string("restoring ended in an exception: ") + e.what()); return nullptr; }
  }
  bool unchanged(Model& m) { return m.model_info() == info && m.Save(again) == 0 && vp::read_file(again) == text; }   // the model that was saved
  void reject(const std::string& t, const std::string& what) {
    auto m = load(t); vp::state(vp::mix(vp::hash(cfg.show()), vp::hash(what)));
    if (m && !unchanged(*m)) bad("accepted", what + " was restored, it reports " + m->model_info());
  }
  // must be refused or be the same model
  void same_or_reject(const std::string& t, const std::string& what) {
    auto m = load(t); vp::state(vp::mix(vp::mix(vp::hash(cfg.show()), vp::hash(what)), m != nullptr));
    vp::extra(m ? "restored" : "refused", 1);
    if (!m) return;
    if (m->model_info() != info) { bad("half", what + " was restored, but reports " + m->model_info() + " instead of " + info); return; }
    if (m->Save(again) != 0 || vp::read_file(again) != text) { bad("half", what + " was restored with other contents than were saved"); return; }
  }
  // must be refused or be exactly what the file then says
  void faithful_or_reject(const std::string& t, const std::string& what) {
    auto m = load(t); vp::state(vp::mix(vp::mix(vp::hash(cfg.show()), vp::hash(what)), m != nullptr));
    vp::extra(m ? "restored" : "refused", 1);
    if (!m) return;
    if (unchanged(*m)) return;
    Json::Value f, r; std::string why = "the header"; m->model_info(r);
    if (!header(t, f)) { if (m->model_info() != info) bad("header", what + " was restored although its header is damaged"); }
    else if (!agrees(f, r, why)) { bad("header", what + " was restored, but " + why); return; }
    std::vector<std::vector<float>> want, got;
    if (m->Save(again) != 0) { bad("save", "restored but cannot be saved"); return; }
    vectors(vp::read_file(again), got);
    if (got == vecs || (vectors(t, want) && got == want)) return;
    bad("values", what + " was restored with other values than the file has");
  }
};
static std::string replace1(const std::string& s, const std::string& a, const std::string& b) { size_t p = s.find(a); return p == std::string::npos ? std::string() : s.substr(0, p) + b + s.substr(p + a.size()); }
static void run() {
  vp::hang_seconds() = 12;
  for (auto& cfg : configs()) for (int part = 0; part < 10; ++part) {
    if (!vp::take()) continue;
    vp::describe(cfg.show() + vp::fmt(" part %d", part));
    Case c(cfg); if (c.text.empty()) continue;
    const std::string& t = c.text; size_t n = t.size(), split = t.find("model parameters:\n") + 18;
    if (part == 0) vp::sample(cfg.show() + vp::fmt(": file of %zu bytes cut at every byte", n));
    if (part <= 3) {        // cut at every byte, three kinds of what follows
      for (size_t k = part == 3 ? n : 0; k < n; ++k) {
        if (vp::shallow() && k % 7) continue;
        std::string tail = part == 0 ? "" : part == 1 ? std::string(n - k, '\0') : std::string("\n");
        c.same_or_reject(t.substr(0, k) + tail, vp::fmt("the file cut at byte %zu of %zu%s", k, n, part == 1 ? " (zero bytes follow)" : part == 2 ? " (line end follows)" : ""));
      }
      if (part == 3) {      // blocks lost or zeroed
        for (size_t bs : {16, 64, 256}) for (size_t k = 0; k < n; k += bs) {
          std::string z = t; for (size_t i = k; i < std::min(n, k + bs); ++i) z[i] = 0;
          c.same_or_reject(z, vp::fmt("the file with bytes %zu-%zu zeroed", k, std::min(n, k + bs) - 1));
        }
        c.same_or_reject("", "an empty file"); c.same_or_reject("\n\n\n", "a file of empty lines");
        c.same_or_reject(t, "the intact file"); { auto m = c.load(t); if (!m) c.bad("intact", "the intact file is refused"); }
      }
    } else if (part <= 7) { // one byte of the header changed
      static const char subs[] = {'x', '"', '{', '=', ',', ' ', '0', '-', '[', '\n', ':', '9'};
      for (size_t k = 0; k < split; ++k) for (int j = (part - 4) * 3; j < (part - 4) * 3 + 3; ++j) {
        if (vp::shallow() && (k + j) % 11) continue;
        if (t[k] == subs[j]) continue;
        std::string z = t; z[k] = subs[j];
        c.faithful_or_reject(z, vp::fmt("the file with byte %zu ('%c' in '%s') replaced by '%c'", k, t[k], t.substr(k > 12 ? k - 12 : 0, 24).c_str(), subs[j]));
      }
      if (part == 4) for (size_t k = 0; k < split; ++k) c.faithful_or_reject(t.substr(0, k) + t.substr(k + 1), vp::fmt("the file without byte %zu ('%c')", k, t[k]));
    } else if (part == 8) { // one byte of the parameters changed
      static const char subs[] = {'x', '[', ']', ' ', '\n', ','};
      for (size_t k = split; k < n; ++k) {
        if (vp::shallow() && k % 5) continue;
        for (char s : subs) { if (t[k] == s || ((s == ' ' || s == '\n') && !isdigit(t[k]) && t[k] != '.')) continue; if (s == ']' && (isdigit(t[k]) || t[k] == '.' || t[k] == '-')) continue; if (isspace(t[k]) && s != '\n' && s != ' ' && s != 'x') continue; std::string z = t; z[k] = s; c.faithful_or_reject(z, vp::fmt("the file with byte %zu ('%c' in '%s') replaced by '%c'", k, t[k], t.substr(k > 8 ? k - 8 : 0, 16).c_str(), s)); }
        if (!isspace(t[k])) c.faithful_or_reject(t.substr(0, k) + t.substr(k + 1), vp::fmt("the file without byte %zu ('%c')", k, t[k]));
      }
      // a value lost, added or replaced
      for (size_t k = split; k < n; ++k) if (t[k] == ' ' && k + 1 < n && (isdigit(t[k + 1]) || t[k + 1] == '-')) {
        size_t e = t.find(' ', k + 1);
        c.reject(t.substr(0, k) + t.substr(e), vp::fmt("the file without the value at byte %zu", k + 1));
        c.reject(t.substr(0, k) + " 0.5" + t.substr(k), vp::fmt("the file with a value added at byte %zu", k + 1));
        for (const char* v : {"abc", "]", "--1", ";"}) c.reject(t.substr(0, k + 1) + v + t.substr(e), vp::fmt("the file with the value at byte %zu replaced by %s", k + 1, v));
      }
      // a vector lost
      for (size_t k = split; (k = t.find("[ ", k)) != std::string::npos; ++k) { size_t e = t.find(']', k); c.reject(t.substr(0, k) + t.substr(e + 1), vp::fmt("the file without the vector at byte %zu", k)); }
    } else {                // fields
      std::string nm = "\"model\" : \"" + cfg.algo + "\"", cn = vp::fmt("\"cls_num\" : %d", cfg.classes), fn = vp::fmt("\"clf_num\" : %d", cfg.classes == 2 ? 1 : cfg.classes);
      auto alt = [&](const std::string& a, const std::string& b) { std::string z = replace1(t, a, b); if (z.empty()) { c.bad("format", "the saved file has no " + a); return; } c.reject(z, "the file with " + a + " changed to " + b); };
      for (const char* v : {"\"model\" : \"nosuch\"", "\"model\" : \"\"", "\"model\" : 3", "\"model\" : null", "\"model\" : {}", "\"model\" : []", "\"nodel\" : \"ogd\"", "\"model\" : \"hinge\"", "\"model\" : \"svm\""}) alt(nm, v);
      for (int v : {-2147483647, -1, 0, 1, 2, 3, 4, 5, 100}) { if (v != cfg.classes) { alt(cn, vp::fmt("\"cls_num\" : %d", v)); } if (v != (cfg.classes == 2 ? 1 : cfg.classes)) alt(fn, vp::fmt("\"clf_num\" : %d", v)); }
      for (const char* v : {"\"x\" : 2", "\"cls_num\" : \"two\"", "\"cls_num\" : null", "\"cls_num\" : {}", "\"cls_num\" : 1e30"}) alt(cn, v);
      for (const char* v : {"\"x\" : 2", "\"clf_num\" : \"two\"", "\"clf_num\" : null", "\"clf_num\" : []"}) alt(fn, v);
      size_t lp = t.find("\"loss\" : \""); std::string ls = t.substr(lp, t.find('"', lp + 10) + 1 - lp);
      for (const char* v : {"\"loss\" : \"nosuch\"", "\"loss\" : \"\"", "\"loss\" : null", "\"loss\" : 3", "\"xoss\" : \"hinge\"", "\"loss\" : {}"}) alt(ls, v);
      alt(ls, cfg.classes == 2 ? "\"loss\" : \"maxscore-hinge\"" : "\"loss\" : \"hinge\"");
      size_t np = t.find("\"norm\" : "); std::string ns = t.substr(np, t.find_first_of(",\n", np) - np);
      for (const char* v : {"\"norm\" : 77", "\"norm\" : \"x\"", "\"norm\" : -1", "\"xorm\" : 0", "\"norm\" : {}", "\"norm\" : 99999999999"}) alt(ns, v);
      alt("\"online\" :", "\"onlime\" :");
      { // whole sections lost, emptied or of another type
        Json::Value root; if (!header(t, root)) c.bad("format", "the header of the saved file cannot be parsed");
        else {
          auto with = [&](const Json::Value& r, const std::string& what) { Json::StyledWriter w; c.reject("model info:\n" + w.write(r) + "model parameters:\n" + t.substr(split), "the file " + what); };
          for (auto& nme : root.getMemberNames()) {
            if (nme == "lazy_update") continue;
            Json::Value r = root; r.removeMember(nme); with(r, "without \"" + nme + "\"");
            r = root; r[nme] = Json::Value(); with(r, "with \"" + nme + "\" set to null");
            if (!root[nme].isObject()) r = root, r[nme] = Json::Value(Json::arrayValue), with(r, "with \"" + nme + "\" set to []");
            if (root[nme].isObject()) { 
              r = root; r[nme] = 3; with(r, "with \"" + nme + "\" set to 3"); r = root; r[nme] = "x"; with(r, "with \"" + nme + "\" set to a string");
              for (auto& k2 : root[nme].getMemberNames()) { if (k2 == "lazy_update") continue; r = root; r[nme].removeMember(k2); Json::StyledWriter w; c.faithful_or_reject("model info:\n" + w.write(r) + "model parameters:\n" + t.substr(split), "the file without \"" + k2 + "\" in \"" + nme + "\""); }
            }
          }
        }
      }
      size_t op = t.find("\"bias_eta\" : "); std::string os = t.substr(op, t.find_first_of(",\n", op) - op);
      for (const char* v : {"\"bias_eta\" : \"abc\"", "\"bias_eta\" : -1", "\"bias_eta\" : null", "\"bias_eta\" : {}", "\"bias_eta\" : []", "\"bias_eta\" : \"1e999\"", "\"nosuch\" : 1", "\"loss\" : \"nosuch\""}) alt(os, v);
      size_t tp = t.find("\"t\" : "); std::string ts = t.substr(tp, t.find_first_of(",\n", tp) - tp);
      for (const char* v : {"\"t\" : -1", "\"t\" : \"abc\"", "\"t\" : 99999999999", "\"t\" : {}"}) alt(ts, v);
      size_t dp = t.find("\"dim\" : "); std::string ds = t.substr(dp, t.find_first_of(",\n", dp) - dp);
      for (int v : {0, 1, 2, 3, 4, 6, 7, 100, 1000}) if (ds != vp::fmt("\"dim\" : %d", v)) alt(ds, vp::fmt("\"dim\" : %d", v));
      alt(ds, "\"dim\" : -1"); alt(ds, "\"dim\" : \"abc\"");
      if (t.find("\"regularizer\"") != std::string::npos) { alt("\"regularizer\" :", "\"regularizex\" :"); alt("\"lambda\" :", "\"lambdx\" :"); }
      alt("model info:\n", "model infos:\n"); alt("model info:\n", ""); alt("model info:\n", "\n"); alt("model parameters:\n", "model parameter:\n"); alt("model parameters:\n", "");
      // lines lost
      for (size_t b = 0; b < n;) { size_t e = t.find('\n', b) + 1; std::string line = t.substr(b, e - b); if (line.find("[ ") != std::string::npos) c.reject(t.substr(0, b) + t.substr(e), "the file without its line " + line); b = e; }
    }
  }
}
VP_MAIN(run)
