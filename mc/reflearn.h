// Reference learners in double precision, written from the update rules: dense,
// without the library's lazy bookkeeping, and a driver that runs the real model
// and the reference side by side on one training sequence.
#ifndef VP_REFLEARN_H__
#define VP_REFLEARN_H__
#include "rec.h"
#include "refloss.h"
#include <sol/model/model.h>
#include <sol/model/online_model.h>

typedef std::map<std::string, std::string> Params;
struct Cfg {
  std::string algo; int classes; Params p;
  std::string show() const { std::string s = algo + vp::fmt(" %d classes", classes); for (auto& k : p) s += " " + k.first + "=" + k.second; return s; }
};
inline double soft(double w, double t) { if (t < 0) t = 0; return w > t ? w - t : w < -t ? w + t : 0; }

struct Ref {
  const int D = width();               // coordinates 0 (bias) .. D-1
  static int& width() { static int d = 8; return d; }
  Cfg cfg; std::string a; int C; int t = 0, t0 = 0; int dim = 1; int B = 0;
  typedef std::vector<double> V;
  std::vector<V> w, S, H, u, alt; V X; V last;
  double b = 0, eta0 = 1, power = 0.5, eta = 1, lambda = 0, Cc, alpha = 0.9, margin = 1, av = 1, phi = 0.5244, r = 1, delta = 10, sigma = 1, rou = 0, Vi = 0;
  int p_ = 2, k = 1; bool lazy = false; double cost = 0; std::string loss; int updates = 0; double ktol = 2e-5;   // distance from a kink within which the implementation is followed
  bool is(const char* n) const { return a == n; }
  double num(const char* n, double d) const { auto i = cfg.p.find(n); return i == cfg.p.end() ? d : (double)std::stof(i->second); }
  explicit Ref(const Cfg& c) : cfg(c), a(c.algo), C(c.classes == 2 ? 1 : c.classes) {
    loss = C == 1 ? "hinge" : "maxscore-hinge";
    if (is("perceptron") || is("sop")) loss = C == 1 ? "bool" : "maxscore-bool";
    if (c.p.count("loss")) loss = c.p.at("loss");
    b = num("bias_eta", 0); t = t0 = (int)num("t", 0); lazy = c.p.count("lazy_update") && c.p.at("lazy_update") == "true"; cost = num("cost_margin", 0);
    eta0 = num("eta", 1); power = num("power_t", 0.5); lambda = num("lambda", 0);
    Cc = num("C", is("alma2") ? std::sqrt(2.0) : 1); alpha = num("alpha", 0.9); p_ = (int)num("p", 2); k = (int)num("k", 1); av = num("a", 1); phi = num("phi", 0.5244f); r = num("r", 1);
    delta = num("delta", 10); sigma = num("sigma", 1); rou = num("rou", 0);
    if (is("ada-fobos") || is("ada-fobos-l1") || is("adafobos-ofs") || is("ada-rda") || is("ada-rda-l1") || is("adarda-ofs") || is("fofs")) eta = eta0;
    dim = std::max(1, (int)num("dim", 1));
    if (is("sofs") || is("pet") || is("fofs") || is("adafobos-ofs") || is("adarda-ofs")) { B = (int)num("B", 0); if (B) dim = std::max(dim, B + 1); }
    w.assign(C, V(D, 0)); u = w; alt = w; X.assign(D, 0); last.assign(D, t0);
    S.assign(C, V(D, is("cw") || is("eccw") ? av : 1)); H.assign(C, V(D, delta));
  }
  double hinge_margin() const { return is("alma2") ? (1 - alpha) / alpha * std::sqrt(p_ - 1.0) / std::sqrt((double)k) : 1; }
  bool dense_rate() const { return power == 0; }
  double eta_now() const { return eta; }
  // weights used to predict the next example (t examples processed so far)
  double weight(int c, int i, double now, const V* x) const {
    if (is("sop")) return u[c][i] / (av + X[i] + (x && i ? (*x)[i] * (*x)[i] : 0));
    if (is("rda")) return now <= 0 ? 0 : -(i ? 1 : b) * u[c][i] / (now * sigma);
    if (is("rda-l1")) return now <= 0 ? 0 : -(i ? 1 : b) * soft(u[c][i], lambda * now) / (now * sigma);
    if (is("erda-l1")) return now <= 0 ? 0 : -(i ? 1 : b) * soft(u[c][i], lambda * now + sigma * rou * std::sqrt(now)) / (std::sqrt(now) * sigma);
    if (is("ada-rda")) return -(i ? 1 : b) * eta * u[c][i] / H[c][i];
    if (is("ada-rda-l1")) return -(i ? 1 : b) * eta * soft(u[c][i], lambda * now) / H[c][i];
    return w[c][i];
  }
  // regularisation of the steps since coordinate i was last regularised
  void shrink(int i, double upto) {
    double s = upto - last[i]; if (s <= 0) return;
    for (int c = 0; c < C; ++c) {
      double amount = is("ada-fobos-l1") ? eta * lambda / H[c][i] : eta * lambda;
      w[c][i] = soft(w[c][i], s * amount * (i ? 1 : b));
    }
    last[i] = upto;
  }
  bool lazy_l1() const { return is("fobos-l1") || is("ada-fobos-l1") || is("stg"); }
  void finalise() {        // as EndTrain: everything pending is applied
    if (lazy_l1()) for (int i = 0; i < D && i < dim; ++i) shrink(i, t);
    if (is("adarda-ofs")) for (int c = 0; c < C; ++c) for (int i = 0; i < D; ++i) if (i == 0 || !B) w[c][i] = -(i ? 1 : b) * eta * u[c][i] / H[c][i];
  }
  std::vector<V> model() const { std::vector<V> m(C, V(D, 0)); for (int c = 0; c < C; ++c) for (int i = 0; i < D; ++i) m[c][i] = weight(c, i, t, nullptr); return m; }
  std::vector<double> predict(const V& x) {          // begins iteration t+1
    ++t;
    if (lazy_l1()) for (int i = 0; i < D; ++i) {
      if (is("stg") && i) { double s = t - 1 - last[i]; if (s < k) continue; s -= std::fmod(s, k); if (dense_rate() || x[i] != 0 || present[i]) shrink(i, last[i] + s); }
      else if (i == 0 || is("ada-fobos-l1") || dense_rate() || present[i]) shrink(i, t - 1);
    }
    std::vector<double> s(C);
    for (int c = 0; c < C; ++c) { s[c] = weight(c, 0, t - 1, &x); for (int i = 1; i < D; ++i) s[c] += weight(c, i, t - 1, &x) * x[i]; }
    return s;
  }
  std::vector<char> present = std::vector<char>(D, 0);   // indices listed in the example, with zero values too
  // returns loss (before deciding whether to update); fills g
  LossVal lossval(const V& x, int y, const std::vector<double>& scores, int predicted) {
    double m = hinge_margin();
    if (cost > 0) m = y == 1 ? cost : 1;
    LossVal l;
    if (is("cw") || is("eccw")) {
      l = ref_loss(loss, scores, y, predicted, 1e18);    // the gradient's shape
      Vi = 0;
      for (int c = 0; c < C; ++c) { double q = 0; for (int i = 1; i < D; ++i) q += S[c][i] * x[i] * x[i]; if (b != 0) q += S[c][0]; Vi += q * l.g[c] * l.g[c]; }
      double z = C == 1 ? -scores[0] * y : 0;
      if (C > 1) for (int c = 0; c < C; ++c) z += l.g[c] * scores[c];
      l.loss = std::max(0.0, phi * Vi + z);
      l.tie = std::fabs(phi * Vi + z) < ktol * (1 + std::fabs(z));
      return l;
    }
    l = ref_loss(loss, scores, y, predicted, m);
    if (loss.find("hinge") != std::string::npos) {
      LossVal e = ref_loss(loss, scores, y, predicted, m + ktol), f = ref_loss(loss, scores, y, predicted, m - ktol);
      if ((e.loss > 0) != (f.loss > 0)) { l.tie = true; l.g = e.g; }
    }
    return l;
  }
  // alt: a second acceptable value of each weight (adarda-ofs recomputes only classes with a gradient)
  void update(const V& x, int y, const LossVal& L) { update_(x, y, L); if (!is("adarda-ofs")) alt = w; }
  void update_(const V& x, int y, const LossVal& L) {
    const std::vector<double>& g = L.g; double n2 = 0; for (int i = 1; i < D; ++i) n2 += x[i] * x[i];
    alt = w;
    auto sgd = [&](int c, double e) { for (int i = 1; i < D; ++i) w[c][i] -= e * g[c] * x[i]; w[c][0] -= b * e * g[c]; };
    if (is("perceptron")) { eta = 1; for (int c = 0; c < C; ++c) sgd(c, 1); }
    else if (is("ogd") || is("stg") || is("fobos-l1") || is("pet")) { eta = eta0 / std::pow((double)t, power); for (int c = 0; c < C; ++c) sgd(c, eta); }
    else if (is("pa") || is("pa1") || is("pa2")) {
      double q = (C == 1 ? 1 : 2) * n2;
      if (is("pa")) { if (q == 0) return; eta = L.loss / q; }
      else if (is("pa1")) eta = q == 0 ? (L.loss > 0 ? Cc : 0) : std::min(Cc, L.loss / q);
      else eta = L.loss / (q + 0.5 / Cc);
      for (int c = 0; c < C; ++c) sgd(c, eta);
    } else if (is("alma2")) {
      eta = Cc / (std::sqrt(p_ - 1.0) * std::sqrt((double)k));
      for (int c = 0; c < C; ++c) if (g[c] != 0) { sgd(c, eta); double n = 0; for (double v : w[c]) n += v * v; n = std::sqrt(n); if (n > 1) for (double& v : w[c]) v /= n; }
      ++k;
    } else if (is("sop")) {
      for (int c = 0; c < C; ++c) { for (int i = 1; i < D; ++i) u[c][i] -= g[c] * x[i]; u[c][0] -= b * g[c]; }
      for (int i = 1; i < D; ++i) X[i] += x[i] * x[i];
    } else if (is("cw") || is("eccw")) {
      if (Vi == 0) return;
      double M = phi * Vi - L.loss, al, d;
      if (is("cw")) { double q = 1 + 2 * phi * M; al = (-q + std::sqrt(q * q - 8 * phi * (M - phi * Vi))) / (4 * phi * Vi); d = 2 * al * phi; }
      else {
        double psi = 1 + phi * phi / 2, xi = 1 + phi * phi;
        al = (-M * psi + std::sqrt(M * M * phi * phi * phi * phi / 4 + Vi * phi * phi * xi)) / (Vi * xi);
        double su = 0.5 * (-al * Vi * phi + std::sqrt(al * al * Vi * Vi * phi * phi + 4 * Vi));
        d = al * phi * su;
      }
      for (int c = 0; c < C; ++c) if (g[c] != 0) {
        for (int i = 0; i < D; ++i) { double xx = i ? x[i] : 1; w[c][i] -= (i ? 1 : b) * al * g[c] * S[c][i] * xx; S[c][i] /= 1 + d * S[c][i] * xx * xx; }
      }
    } else if (is("arow") || is("sofs")) {
      double be = r; for (int c = 0; c < C; ++c) { for (int i = 1; i < D; ++i) be += S[c][i] * x[i] * x[i] * g[c] * g[c]; if (b != 0) be += S[c][0] * g[c] * g[c]; }
      double al = L.loss / be;
      for (int c = 0; c < C; ++c) for (int i = 0; i < D; ++i) { double xx = i ? x[i] : 1; w[c][i] -= (i ? 1 : b) * al * g[c] * S[c][i] * xx; S[c][i] /= 1 + S[c][i] * xx * xx * g[c] * g[c] / r; }
    } else if (is("rda") || is("rda-l1") || is("erda-l1")) {
      for (int c = 0; c < C; ++c) { for (int i = 0; i < D; ++i) u[c][i] += g[c] * (i ? x[i] : 1); }
    } else if (is("ada-fobos") || is("ada-fobos-l1") || is("adafobos-ofs") || is("ada-rda") || is("ada-rda-l1") || is("adarda-ofs")) {
      bool rda = a.find("rda") != std::string::npos;
      for (int c = 0; c < C; ++c) for (int i = 0; i < D; ++i) {
        double xx = i ? x[i] : 1, h = H[c][i] - delta; H[c][i] = std::sqrt(h * h + g[c] * g[c] * xx * xx) + delta;
        if (!rda) w[c][i] -= (i ? 1 : b) * eta * g[c] * xx / H[c][i];
        else { u[c][i] += g[c] * xx; if (is("adarda-ofs") && (i == 0 || present[i])) { double v = -(i ? 1 : b) * eta * u[c][i] / H[c][i]; alt[c][i] = g[c] == 0 ? w[c][i] : v; w[c][i] = v; } }
      }
    } else if (is("fofs")) {
      double mom = 1 - lambda * eta;
      for (int c = 0; c < C; ++c) if (g[c] != 0) {
        for (double& v : w[c]) v *= mom;
        sgd(c, eta);
        double n = 0; for (double v : w[c]) n += v * v; n = std::sqrt(n); double lim = 1 / std::sqrt(lambda);
        if (n > lim) for (double& v : w[c]) v *= lim / n;
      }
    }
  }
  // the feature-selection criterion: larger is better
  double crit(int i) const {
    double s = 0;
    for (int c = 0; c < C; ++c) s += is("sofs") ? -S[c][i] : is("pet") || is("fofs") ? std::fabs(w[c][i]) : H[c][i];
    return s;
  }
};

struct Seq { std::vector<int> ops; };    // indices into the example alphabet; -1 = finalise (as testing does)

inline std::string show_seq(const std::vector<Rec>& A, const std::vector<int>& q) { std::string s; for (int i : q) s += i == -1 ? "[finalise] " : i == -2 ? "[save, restore] " : i == -3 ? "[save] " : "{" + ::show(A[i]) + "} "; return s; }

struct Run {
  const char* id; Cfg cfg; const std::vector<Rec>& A; const std::vector<int>& q; size_t at = 0;
  Run(const char* id_, const Cfg& c, const std::vector<Rec>& A_, const std::vector<int>& q_) : id(id_), cfg(c), A(A_), q(q_) {}
  double stol(double v) const { return 1e-5 * std::max(1.0, std::fabs(v)); }
  std::vector<char> ever = std::vector<char>(Ref::width(), 0);
  double tol(double v) const { return 1e-4 * std::max(1.0, std::fabs(v)); }
  void bad(const std::string& key, const std::string& m) {
    std::vector<int> pre(q.begin(), q.begin() + std::min(at + 1, q.size()));
    vp::fail(std::string(id) + ":" + cfg.algo + ":" + key, cfg.show() + " :: " + show_seq(A, pre) + ":: " + m);
  }
  // weights of the real model, through Predict
  bool observe(sol::model::Model* m, int C, std::vector<std::vector<double>>& out) {
    std::vector<float> s(C); sol::pario::DataPoint dp;
    out.assign(C, std::vector<double>(Ref::width(), 0));
    Rec e; e.label = 1; to_dp(e, dp); m->Predict(dp, s.data());
    for (int c = 0; c < C; ++c) out[c][0] = s[c];
    for (uint32_t i = 1; i < Ref::width(); ++i) {
      Rec o; o.label = 1; o.f.push_back({i, 1.f}); to_dp(o, dp); m->Predict(dp, s.data());
      for (int c = 0; c < C; ++c) out[c][i] = (double)s[c] - out[c][0];
    }
    for (auto& v : out) for (double d : v) if (!std::isfinite(d)) { bad("not-finite", "the model contains a value that is not finite"); return false; }
    return true;
  }
  bool compare(sol::model::Model* m, Ref& ref, const char* when) {
    std::vector<std::vector<double>> got; if (!observe(m, ref.C, got)) return false;
    auto want = ref.model();
    for (int c = 0; c < ref.C; ++c) for (int i = 0; i < Ref::width(); ++i) {
      double lim = tol(want[c][i]) + 1e-6 * std::fabs(want[c][0]) + 2e-6;
      if (std::fabs(got[c][i] - want[c][i]) > lim) { bad(i ? "weight" : "bias", vp::fmt("%s, class %d %s is %.7g, the update rule gives %.7g", when, c, i ? vp::fmt("weight %d", i).c_str() : "bias", got[c][i], want[c][i])); return false; }
    }
    return true;
  }
  // feature selection: which features were kept must be a best choice; the reference adopts it
  bool select(sol::model::Model* m, Ref& ref, const char* when) {
    std::vector<std::vector<double>> got; if (!observe(m, ref.C, got)) return false;
    std::vector<int> kept, dropped; int nz = 0;
    for (int i = 0; i < Ref::width(); ++i) {
      bool zero = true, cand0 = true, eqc = true;
      for (int c = 0; c < ref.C; ++c) {
        double lim = stol(ref.w[c][i]) + 1e-6 * std::fabs(ref.w[c][0]);
        if (std::fabs(got[c][i]) > 2e-6 + 1e-6 * std::fabs(got[c][0])) zero = false;
        if (std::fabs(ref.w[c][i]) > 2 * lim || std::fabs(ref.alt[c][i]) > 2 * lim) cand0 = false;
        if (std::fabs(got[c][i] - ref.w[c][i]) > lim && std::fabs(got[c][i] - ref.alt[c][i]) > lim) eqc = false;
      }
      if (i && !zero) ++nz;
      if (eqc && !zero) { if (i) kept.push_back(i); continue; }
      if (zero && i) { if (!cand0 && !eqc) dropped.push_back(i); continue; }
      if (zero && cand0) continue;
      std::string d; for (int c = 0; c < ref.C; ++c) d += vp::fmt(" %.7g (%.7g)", got[c][i], ref.w[c][i]);
      bad(i ? "weight" : "bias", vp::fmt("%s, feature %d has weights", when, i) + d + " (by the update rule)"); return false;
    }
    if (ref.B == 0) { if (!dropped.empty()) { bad("dropped", vp::fmt("%s, feature %d dropped although selection is off", when, dropped[0])); return false; } return true; }
    if (nz > ref.B) { bad("too-many", vp::fmt("%s, %d features have weights, %d are allowed", when, nz, ref.B)); return false; }
    for (int d : dropped) {
      int better = 0; double cd = ref.crit(d);
      for (int i = 1; i < Ref::width() && i < ref.dim; ++i) if (i != d && ref.crit(i) >= cd - tol(cd)) ++better;
      if (better < ref.B) { bad("wrong-drop", vp::fmt("%s, feature %d (criterion %.6g) dropped though only %d others rank as high", when, d, cd, better)); return false; }
    }
    for (int kx : kept) {
      int better = 0; double ck = ref.crit(kx);
      for (int i = 1; i < Ref::width() && i < ref.dim; ++i) if (i != kx && ref.crit(i) > ck + tol(ck)) ++better;
      if (better >= ref.B) { bad("wrong-keep", vp::fmt("%s, feature %d (criterion %.6g) kept though %d others rank higher", when, kx, ck, better)); return false; }
    }
    for (int c = 0; c < ref.C; ++c) for (int i = 1; i < Ref::width(); ++i) {
      if (std::find(dropped.begin(), dropped.end(), i) != dropped.end()) ref.w[c][i] = 0;
      else if (std::fabs(got[c][i] - ref.w[c][i]) > stol(ref.w[c][i])) ref.w[c][i] = ref.alt[c][i];
    }
    return true;
  }
  std::string file;       // if set, the algorithm's state vectors are read from the saved model
  bool state_vectors(sol::model::Model* m, Ref& ref) {
    if (m->Save(file) != sol::Status_OK) { bad("save", "the model cannot be saved"); return false; }
    std::string text = vp::read_file(file);
    for (size_t pos = 0; (pos = text.find("Sigma[", pos)) != std::string::npos; ) {
      int c = atoi(text.c_str() + pos + 6);
      size_t open = text.find('[', pos + 6), close = text.find(']', open == std::string::npos ? pos : open);
      if (open == std::string::npos || close == std::string::npos) { bad("save", "a variance vector is missing from the saved model"); return false; }
      std::istringstream vs(text.substr(open + 1, close - open - 1)); std::vector<double> v; double d; while (vs >> d) v.push_back(d);
      pos = close;
      vp::extra("variances", (long long)v.size());
      if (c < 0 || c >= ref.C) continue;
      for (int i = 0; i < Ref::width() && i < (int)v.size(); ++i) {
        if (!(v[i] > 0)) { bad("variance", vp::fmt("variance %d of class %d is %.7g", i, c, v[i])); return false; }
        if (std::fabs(v[i] - ref.S[c][i]) > 2e-4 * ref.S[c][i]) { bad("variance", vp::fmt("variance %d of class %d is %.7g, the update rule gives %.7g", i, c, v[i], ref.S[c][i])); return false; }
      }
      vp::extra("variance_vectors", 1);
    }
    return true;
  }
  // saving: nothing changes; restore: the same model from the file, which then replaces the one in training
  bool save_point(std::unique_ptr<sol::model::Model>& m, Ref& ref, bool restore) {
    std::string f1 = vp::tmp("save1"), f2 = vp::tmp("save2");
    std::vector<std::vector<double>> before, after;
    if (!observe(m.get(), ref.C, before)) return false;
    std::string info = m->model_info(); float sp = ref.dim > 1 ? m->model_sparsity() : 0;
    unlink(f1.c_str()); unlink(f2.c_str());
    if (m->Save(f1) != sol::Status_OK) { bad("save", "the model cannot be saved"); return false; }
    if (!observe(m.get(), ref.C, after)) return false;
    if (before != after) { bad("save-changes", "predictions differ after saving"); return false; }
    if (m->model_info() != info) { bad("save-changes", "the reported parameters differ after saving"); return false; }
    vp::step();
    if (!restore) return true;
    std::unique_ptr<sol::model::Model> r(sol::model::Model::Load(f1));
    if (!r) { bad("restore", "the saved model cannot be restored"); return false; }
    std::string rinfo = r->model_info();
    if (rinfo != info) { bad("info", "the restored model reports " + rinfo + " instead of " + info); return false; }
    if (!observe(r.get(), ref.C, after)) return false;
    for (int c = 0; c < ref.C; ++c) for (int i = 0; i < Ref::width(); ++i) {
      double lim = 6e-6 * std::fabs(before[c][i]) + 3e-6 * std::fabs(before[c][0]) + 1e-9;
      if (std::fabs(after[c][i] - before[c][i]) > lim) { bad("restored-weight", vp::fmt("class %d coordinate %d is %.9g in the model, %.9g restored", c, i, before[c][i], after[c][i])); return false; }
    }
    if (ref.dim > 1 && r->model_sparsity() != sp) { bad("restored-sparsity", vp::fmt("sparsity is %.9g, restored %.9g", sp, r->model_sparsity())); return false; }
    if (r->Save(f2) != sol::Status_OK) { bad("save", "the restored model cannot be saved"); return false; }
    if (vp::read_file(f1) != vp::read_file(f2)) { bad("resave", "saving the restored model gives another file"); return false; }
    vp::extra("restores", 1);
    if (ref.B > 0) {   // a feature kept and one dropped with equal criteria: the restored model may rank them either way
      for (int i = 1; i < Ref::width() && i < ref.dim; ++i) for (int j = 1; j < Ref::width() && j < ref.dim; ++j) {
        bool zi = true, zj = true; for (int c = 0; c < ref.C; ++c) { if (ref.w[c][i] != 0) zi = false; if (ref.w[c][j] != 0) zj = false; }
        if (!zi && (zj || i != j) && i != j && std::fabs(ref.crit(i) - ref.crit(j)) < 1e-3 * (1 + std::fabs(ref.crit(i)))) { vp::extra("equal_rank_stops", 1); return false; }
      }
    }
    m = std::move(r); ref.ktol = 3e-4;
    try { m->BeginTrain(); } catch (std::exception& e) { bad("begin", std::string("the restored model cannot be trained: ") + e.what()); return false; }
    if (ref.lazy_l1() && !ref.is("ada-fobos-l1")) ref.eta = ref.eta0 / std::pow((double)std::max(ref.t, 1), ref.power);
    std::fill(ref.last.begin(), ref.last.end(), (double)ref.t);
    return true;
  }
  static void norm(Rec& r) { double n = 0; for (auto& f : r.f) n += (double)f.second * f.second; if (n > 0) for (auto& f : r.f) f.second = (float)(f.second / std::sqrt(n)); }
  void go(bool sparsity) {
    std::unique_ptr<sol::model::Model> m(sol::model::Model::Create(cfg.algo, cfg.classes));
    if (!m) { bad("create", "cannot be created"); return; }
    auto* om = dynamic_cast<sol::model::OnlineModel*>(m.get());
    Ref ref(cfg);
    try { for (auto& k : cfg.p) m->SetParameter(k.first, k.second); m->BeginTrain(); }
    catch (std::exception& e) { bad("parameter", std::string("refused: ") + e.what()); return; }
    bool sel = cfg.algo == "sofs" || cfg.algo == "pet" || cfg.algo == "fofs" || cfg.algo == "adafobos-ofs" || cfg.algo == "adarda-ofs";
    std::vector<float> sc(ref.C); uint64_t h = vp::hash(cfg.show());
    bool skip_active = cfg.p.count("active_smoothness") > 0;
    for (at = 0; at < q.size(); ++at) {
      vp::step();
      if (q[at] < 0) {
        m->EndTrain(); ref.finalise();
        if (sel) { if (ref.is("adarda-ofs") && ref.B) { for (int c = 0; c < ref.C; ++c) { ref.alt[c] = ref.w[c]; for (int i = 1; i < Ref::width(); ++i) ref.w[c][i] = -ref.eta * ref.u[c][i] / ref.H[c][i]; } ref.alt = ref.w; } if (!select(m.get(), ref, "finalised")) return; }
        else if (!compare(m.get(), ref, "finalised")) return;
        if (q[at] < -1) { if (!save_point(m, ref, q[at] == -2)) return; om = dynamic_cast<sol::model::OnlineModel*>(m.get()); }
        continue;
      }
      Rec rec = A[q[at]]; sol::pario::DataPoint dp; to_dp(rec, dp); m->PreProcess(dp);
      if (cfg.algo == "alma2" || (cfg.p.count("norm") && cfg.p["norm"] == "L2")) norm(rec);
      else if (cfg.p.count("norm") && cfg.p["norm"] == "L1") { double n = 0; for (auto& f : rec.f) n += std::fabs((double)f.second); if (n > 0) for (auto& f : rec.f) f.second = (float)(f.second / n); }
      int y = ref.C == 1 ? (rec.label == 1 ? 1 : -1) : rec.label;
      Ref::V x(Ref::width(), 0); std::fill(ref.present.begin(), ref.present.end(), 0); for (auto& f : rec.f) { x[f.first] += f.second; ref.present[f.first] = 1; ever[f.first] = 1; ref.dim = std::max(ref.dim, (int)f.first + 1); }
      size_t before = m->update_num(); int iter = om->cur_iter_num();
      int label = om->Iterate(dp, sc.data());
      auto want = ref.predict(x);
      std::vector<double> got(sc.begin(), sc.end());
      for (int c = 0; c < ref.C; ++c) {
        if (!std::isfinite(got[c])) { bad("not-finite", vp::fmt("score of class %d is %g", c, got[c])); return; }
        if (std::fabs(got[c] - want[c]) > tol(want[c])) { bad("score", vp::fmt("score of class %d before the update is %.7g, the weights so far give %.7g", c, got[c], want[c])); return; }
      }
      int pl = ref_label(got);
      if (label != pl) { bad("label", vp::fmt("predicted label %d though the scores give %d", label, pl)); return; }
      for (float s : sc) h = vp::mix(h, (uint64_t)(int64_t)std::llround(s * 1e3));
      size_t done = m->update_num() - before;
      if (skip_active && om->cur_iter_num() == iter) { --ref.t; if (done || ref.cfg.p.at("active_smoothness") == "1e9") { bad("active", "an example that was not queried was learned"); return; } vp::extra("not_queried", 1); continue; }
      if (om->cur_iter_num() != iter + 1) { bad("iteration", vp::fmt("iteration counter went from %d to %d", iter, om->cur_iter_num())); return; }
      LossVal L = ref.lossval(x, y, got, pl);
      bool upd = ref.lazy ? pl != y : L.loss > 0;
      if (ref.lazy && upd && L.tie) { vp::extra("lazy_kinks_stopped", 1); return; }   // a mistake exactly at the kink: either subgradient will do
      if (!ref.lazy && (L.tie || (L.loss > 0 && L.loss < 1e-6))) { upd = done > 0; vp::extra("kinks_followed", 1); }
      if (done > 1 || (done == 1) != upd) { bad("update-count", vp::fmt("%zu updates counted, %d expected (loss %.7g)", done, (int)upd, L.loss)); return; }
      if (upd) ref.update(x, y, L); else ref.alt = ref.w;
      if (sel && !select(m.get(), ref, "after the example")) return;
    }
    at = q.size();
    m->EndTrain(); ref.finalise(); vp::step(); vp::trace();
    if (sel) {
      if (ref.is("adarda-ofs") && ref.B) { for (int c = 0; c < ref.C; ++c) for (int i = 1; i < Ref::width(); ++i) ref.w[c][i] = -ref.eta * ref.u[c][i] / ref.H[c][i]; }
      ref.alt = ref.w;
      if (!select(m.get(), ref, "at the end")) return;
    } else if (!compare(m.get(), ref, "at the end")) return;
    if (!file.empty() && !state_vectors(m.get(), ref)) return;
    if (sparsity && ref.dim > 1) {
      auto mw = sel ? ref.w : ref.model(); double lo = 0, hi = 0;
      for (auto& v : mw) for (int i = 1; i < ref.dim && i < Ref::width(); ++i) { double z = std::fabs(v[i]); if (z > 1e-4) ++lo, ++hi; else if (z > 1e-8 || ((sel || cfg.p.count("norm")) && ever[i])) ++hi; }
      double tot = ref.C * (ref.dim - 1.0), s = m->model_sparsity();
      if (s < 1 - hi / tot - 1e-6 || s > 1 - lo / tot + 1e-6) { bad("sparsity", vp::fmt("reported sparsity %.7g, the weights give %.7g", s, 1 - lo / tot)); return; }
    }
    vp::state(h);
  }
};

// the examples the sequences are made of
inline std::vector<Rec> binary_alphabet(bool wide) {
  std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}}, {{1, 0.5f}, {2, 1.f}}, {{2, -2.f}}, {{1, 1.f}, {4, -1.5f}}, {}, {{2, 0.f}, {3, 0.75f}}};
  std::vector<Rec> A;
  size_t n = wide ? xs.size() : 2;
  for (size_t i = 0; i < n; ++i) for (int y : {1, -1}) { Rec r; r.label = y; r.f = xs[i]; A.push_back(r); }
  if (!wide) { Rec r; r.label = 1; r.f = xs[3]; A.push_back(r); }
  return A;
}
inline std::vector<Rec> multi_alphabet(int classes, bool wide) {
  std::vector<std::vector<std::pair<uint32_t, float>>> xs = {{{1, 1.f}, {2, 0.5f}}, {{2, -2.f}, {3, 1.f}}, {{1, 1.f}, {4, -1.5f}}, {}};
  std::vector<Rec> A;
  for (size_t i = 0; i < xs.size(); ++i) for (int y = 0; y < classes; ++y) {
    if (!wide && (i > 2 || (i == 1 && y != 1) || (i == 2 && y != 2))) continue;
    if (i == 3 && y > 1) continue;
    Rec r; r.label = y; r.f = xs[i]; A.push_back(r);
  }
  return A;
}
// every sequence of up to the given length, one case per configuration and first example
inline void explore(const char* id, const std::vector<Cfg>& cfgs, int wide_len, int narrow_len, bool finalise, bool sparsity, bool save) {
  if (vp::shallow()) { wide_len = 2; narrow_len = 3; }
  for (auto& cfg : cfgs) for (int narrow = 0; narrow < 2; ++narrow) {
    auto A = cfg.classes == 2 ? binary_alphabet(!narrow) : multi_alphabet(cfg.classes, !narrow);
    int lo = finalise && narrow ? -1 : 0, k = (int)A.size() - lo, len = narrow ? narrow_len : wide_len;
    for (int first = 0; first < (int)A.size(); ++first) {
      if (!vp::take()) continue;
      vp::describe(cfg.show()); vp::sample(cfg.show() + vp::fmt(", all sequences of up to %d of %d examples%s starting with {%s}", len, (int)A.size(), lo < 0 ? " and finalisations" : "", ::show(A[first]).c_str()));
      vp::sequences(k, 0, len - 1, [&](const std::vector<int>& s) {
        std::vector<int> q = {first}; for (int i : s) q.push_back(i + lo);
        if (q.back() < 0) return;
        vp::progress();
        Run r(id, cfg, A, q); if (save && (int)q.size() == len) r.file = vp::tmp("m"); r.go(sparsity);
      });
    }
  }
}
// long training: (1) every period of up to 3 (thorough: 4) examples repeated, (2) wide examples, many classes
inline std::vector<Rec> wide_examples(int classes, int form) {
  std::vector<Rec> A;
  for (int e = 0; e < 12; ++e) {
    Rec r; r.label = classes == 2 ? ((e * 7 + form) % 3 ? 1 : -1) : (e * 5 + form) % classes;
    for (int i = 1; i < 70; ++i) {
      bool in = form == 0 ? (i * 7 + e * 3) % 11 == 0 : form == 1 ? (i + e) % 6 < 2 && i < 20 + 5 * e : i % 12 == e || i == 69 - e || i == 64;
      if (in) r.f.push_back({(uint32_t)i, (float)(((i * 5 + e * 3 + form) % 9 - 4) * 0.125)});
    }
    A.push_back(r);
  }
  return A;
}
inline void explore_long(const char* id, const std::vector<Cfg>& cfgs, bool sparsity, bool save) {
  if (vp::shallow()) return;
  const int N = 40;
  for (auto& cfg : cfgs) {
    auto A = cfg.classes == 2 ? binary_alphabet(false) : multi_alphabet(cfg.classes, false);
    if (vp::take()) {
      vp::describe(cfg.show()); vp::sample(cfg.show() + vp::fmt(", %d examples: every period of up to 3 of %d examples", N, (int)A.size()));
      vp::sequences((int)A.size(), 1, vp::thorough() ? 4 : 3, [&](const std::vector<int>& s) {
        std::vector<int> q; for (int i = 0; i < N; ++i) q.push_back(s[i % s.size()]);
        vp::progress();
        Run r(id, cfg, A, q); if (save) r.file = vp::tmp("m"); r.go(sparsity);
      });
    }
    for (int cls : {2, 3, 4, 7}) {
      if ((cfg.classes == 2) != (cls == 2)) continue;
      if (!vp::take()) continue;
      Ref::width() = 70;
      for (int form = 0; form < 3; ++form) for (int order = 0; order < 3; ++order) for (int more = 0; more < 2; ++more) {
        Cfg c2 = cfg; c2.classes = cls; if (more) { if (!c2.p.count("B") || c2.p["B"] != "2") continue; c2.p["B"] = "20"; } auto W = wide_examples(cls, form);
        std::vector<int> q; for (int i = 0; i < 72; ++i) q.push_back(order == 0 ? i % 12 : order == 1 ? (i * 5 + i / 12) % 12 : (i / 6) % 12);
        vp::describe(c2.show()); vp::progress();
        Run r(id, c2, W, q); if (save) r.file = vp::tmp("m"); r.go(sparsity);
      }
      Ref::width() = 8;
    }
  }
}
// every combination of a few values of every parameter, on a few sequences (with a save and restore in C08)
typedef std::vector<std::pair<std::string, std::vector<std::string>>> Space;   // "" = not set
inline std::vector<std::pair<std::string, Space>> spaces(int group) {
  std::vector<std::string> lam = {"", "0.1", "0.02"}, eta = {"", "0.3"}, del = {"1", "0.2"}, bs = {"", "1", "2", "3"};
  if (group == 10) return {{"perceptron", {}}, {"ogd", {{"eta", eta}, {"power_t", {"", "0", "1", "0.25"}}}}, {"pa", {}}, {"pa1", {{"C", {"", "0.2", "5"}}}}, {"pa2", {{"C", {"", "0.2", "5"}}}},
    {"alma2", {{"alpha", {"", "0.5", "1"}}, {"C", {"", "0.4"}}, {"p", {"", "4"}}, {"k", {"", "3"}}}}};
  if (group == 11) return {{"sop", {{"a", {"", "3", "0.25"}}}}, {"cw", {{"a", {"", "2", "0.5"}}, {"phi", {"", "1.2", "0.3"}}}}, {"eccw", {{"a", {"", "2", "0.5"}}, {"phi", {"", "1.2", "0.3"}}}}, {"arow", {{"r", {"", "0.2", "5"}}}}};
  if (group == 12) return {{"stg", {{"lambda", lam}, {"eta", eta}, {"power_t", {"", "0"}}, {"k", {"", "3"}}}}, {"fobos-l1", {{"lambda", lam}, {"eta", eta}, {"power_t", {"", "0"}}}}, {"rda", {{"sigma", {"", "3"}}}}, {"rda-l1", {{"lambda", lam}, {"sigma", {"", "3"}}}},
    {"erda-l1", {{"lambda", lam}, {"sigma", {"", "3"}}, {"rou", {"", "0.2"}}}}, {"ada-fobos", {{"delta", del}, {"eta", eta}}}, {"ada-fobos-l1", {{"delta", del}, {"eta", eta}, {"lambda", {"0.1", "0.02"}}}}, {"ada-rda", {{"delta", del}, {"eta", eta}}}, {"ada-rda-l1", {{"delta", del}, {"eta", eta}, {"lambda", {"0.1", "0.02"}}}}};
  return {{"sofs", {{"B", bs}, {"r", {"", "0.3", "4"}}}}, {"pet", {{"B", bs}, {"eta", eta}, {"power_t", {"", "0"}}}}, {"fofs", {{"B", bs}, {"eta", {"0.2", "0.5"}}, {"lambda", {"0.01", "0.4"}}}}, {"adafobos-ofs", {{"B", bs}, {"delta", del}, {"eta", eta}}}, {"adarda-ofs", {{"B", bs}, {"delta", del}, {"eta", eta}}}};
}
inline void explore_products(const char* id, const std::vector<std::pair<std::string, Space>>& algos, bool sparsity, bool restore) {
  if (vp::shallow()) return;
  static const std::vector<std::vector<int>> SEQ = {{0, 1, 2, 3, 4, 0, 1, 4, 3, 2}, {4, 4, 0, 3, 1, 2, 2, 0}, {3, 0, 3, 0, 4, 1}, {1, 2, 0, 4, 1, 3, 0, 0, 0, 4, 2, 1, 3, 3}};
  for (auto& al : algos) for (int classes : {2, 3}) {
    const std::string& a = al.first; bool bo = a == "perceptron" || a == "sop", cw = a == "cw" || a == "eccw", hi = a == "alma2" || cw || a == "arow" || a == "sofs";
    Space sp = al.second;
    sp.push_back({"bias_eta", {"", "0.5"}}); sp.push_back({"lazy_update", {"", "true"}}); sp.push_back({"t", {"", "3"}}); sp.push_back({"dim", {"", "7"}});
    std::vector<std::string> losses = {""};
    if (classes == 2) { if (!bo && !hi) { losses.push_back("logistic"); losses.push_back("bool"); } }
    else if (bo) losses.push_back("uniform-bool");
    else if (!cw) { losses.push_back("uniform-hinge"); if (!hi) { losses.push_back("maxscore-logistic"); losses.push_back("uniform-logistic"); losses.push_back("maxscore-bool"); } }
    sp.push_back({"loss", losses}); if (a != "alma2") sp.push_back({"norm", {"", "L1", "L2"}});
    if (classes == 2 && !bo && !cw && a != "alma2") sp.push_back({"cost_margin", {"", "2.5"}});
    size_t total = 1; for (auto& d : sp) total *= d.second.size();
    auto A = classes == 2 ? binary_alphabet(false) : multi_alphabet(3, false);
    for (size_t block = 0; block < total; block += 16) {
      if (!vp::take()) continue;
      vp::describe(a + vp::fmt(" %d classes, %zu combinations", classes, total)); vp::sample(a + vp::fmt(" %d classes: %zu combinations of parameters", classes, total));
      for (size_t n = block; n < std::min(total, block + 16); ++n) {
        Cfg c{a, classes, {}}; size_t r = n; for (auto& d : sp) { const std::string& v = d.second[r % d.second.size()]; r /= d.second.size(); if (!v.empty()) c.p[d.first] = v; }
        if (c.p.count("cost_margin") && c.p.count("loss")) continue;      // the cost is a margin of the hinge loss
        vp::progress(); vp::extra("parameter_combinations", 1);
        for (size_t k = 0; k < SEQ.size(); ++k) {
          std::vector<int> q = SEQ[k]; if (restore) q.insert(q.begin() + q.size() / 2, -2);
          Run run(id, c, A, q); run.go(sparsity);
        }
      }
    }
  }
}
#endif
