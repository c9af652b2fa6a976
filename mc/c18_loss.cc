// C18: loss functions return the defined loss and its gradient.
#include "rec.h"
#include "refloss.h"
#include <sol/loss/loss.h>
#include <sol/loss/hinge_loss.h>
using sol::loss::Loss;

static bool close(double a, double b, double scale) { return std::fabs(a - b) <= 2e-6 * std::max({1.0, std::fabs(a), std::fabs(b), scale}); }

static void one(Loss* L, const std::string& name, const std::vector<float>& s, int y, float margin) {
  int n = (int)s.size();
  std::vector<double> d(s.begin(), s.end());
  int predicted = ref_label(d);
  sol::pario::DataPoint dp; dp.set_label(y);
  LossVal want = ref_loss(name, d, y, predicted, margin);
  auto* hb = dynamic_cast<sol::loss::HingeBase*>(L);
  double scale = 0; for (float v : s) scale = std::max(scale, std::fabs((double)v));
  if (name == "uniform-logistic" && scale > 1e6) {   // z itself is rounded away
    int k = 0; for (float v : s) if (std::fabs(v) > 1e6) ++k;
    if (k > 1) { vp::extra("skipped_rounded", 1); return; }
  }
  std::string what = name + vp::fmt(" label %d margin %g scores", y, margin); for (float v : s) what += vp::fmt(" %.9g", v);
  std::unique_ptr<float[]> p(new float[n]), g(new float[n]);
  for (int rep = 0; rep < 2; ++rep) {
    if (hb) hb->set_margin(margin);
    for (int i = 0; i < n; ++i) { p[i] = s[i]; g[i] = 77.f; }
    float a = L->loss(dp, p.get(), predicted, n);
    for (int i = 0; i < n; ++i) if (!bits_eq(p[i], s[i])) vp::fail("C18:scores", what + ": loss() changed the scores");
    float b = L->gradient(dp, p.get(), predicted, g.get(), n);
    for (int i = 0; i < n; ++i) if (!bits_eq(p[i], s[i])) vp::fail("C18:scores", what + ": gradient() changed the scores");
    vp::step(2); vp::trace();
    vp::state(vp::mix(vp::hash(name), vp::hash_bytes(&b, 4, vp::hash_bytes(g.get(), 4 * n))));
    if (!(a >= 0) || !close(a, want.loss, scale)) vp::fail("C18:loss:" + name, what + vp::fmt(": loss() is %.9g, defined as %.9g", a, want.loss));
    if (!(b >= 0) || !close(b, want.loss, scale)) vp::fail("C18:loss:" + name, what + vp::fmt(": gradient() returns loss %.9g, defined as %.9g", b, want.loss));
    // a small slope is a slope: where a loss is suffered, its gradient is its gradient
    if (b > 0 && want.loss <= 1e-6 && name.find("logistic") != std::string::npos && scale <= 60) {
      for (int i = 0; i < n; ++i) if (std::fabs(want.g[i]) > 1e-12 && !(std::fabs(g[i] - want.g[i]) <= 0.01 * std::fabs(want.g[i])))
        vp::fail("C18:gradient:" + name, what + vp::fmt(": loss %.9g, gradient %.9g, truly %.9g", b, g[i], want.g[i]));
    }
    if (b > 0 && want.loss > 1e-6) {
      double sum = 0; std::string gs;
      bool bad = false;
      for (int i = 0; i < n; ++i) { sum += g[i]; gs += vp::fmt(" %.9g (%.9g)", g[i], want.g[i]); if (!(std::fabs(g[i] - want.g[i]) <= 3e-6)) bad = true; }
      if (name == "square" && std::fabs(g[0] - want.g[0]) <= 2e-6 * (1 + scale)) bad = false;
      if (bad) vp::fail("C18:gradient:" + name, what + ": gradient (true)" + gs);
      if (n > 1 && std::fabs(sum) > 3e-6) vp::fail("C18:sum:" + name, what + vp::fmt(": gradient sums to %.9g", sum));
    }
  }
}

static void run() {
  bool T = vp::thorough();
  std::vector<float> grid = {-1e30f, -200.f, -100.5f, -100.f, -95.f, -87.f, -10.f, -1.5f, -1.f, -0.5f, -1e-3f, 0.f, 1e-3f, 0.25f, 1.f, 1.0000001f, 2.f, 10.f, 87.f, 89.5f, 99.75f, 100.f, 100.5f, 300.f, 1e30f};
  std::vector<float> small = T ? std::vector<float>{-120.f, -2.f, -1.f, 0.f, 0.25f, 1.f, 95.f, 250.f} : std::vector<float>{-120.f, -1.f, 0.f, 0.25f, 1.f, 95.f};
  std::vector<float> margins = {1.f, 0.25f, 3.f};
  std::vector<std::string> names = {"bool", "hinge", "logistic", "square"};
  std::vector<std::string> mc = {"maxscore-bool", "uniform-bool", "maxscore-hinge", "uniform-hinge", "maxscore-logistic", "uniform-logistic"};
  for (auto& n : names) for (int y : {1, -1}) {
    if (!vp::take()) continue;
    vp::describe(n); vp::sample(n + vp::fmt(" label %d", y));
    std::unique_ptr<Loss> L(Loss::Create(n)); if (!L) { vp::fail("C18:missing", n); continue; }
    for (float m : margins) {
      for (float s : grid) if (!(n == "square" && std::fabs(s) > 1e18f)) one(L.get(), n, {s}, y, m);
      for (int i = -1100; i <= 1100; ++i) one(L.get(), n, {i * 0.1f}, y, m);
    }
  }
  for (auto& n : mc) for (int cls = 3; cls <= (T ? 6 : 5); ++cls) for (int y = 0; y < cls; ++y) for (size_t first = 0; first < (cls <= 4 ? grid.size() : small.size()); ++first) {
    if (!vp::take()) continue;
    vp::describe(n); vp::sample(n + vp::fmt(", %d classes, label %d", cls, y));
    std::unique_ptr<Loss> L(Loss::Create(n)); if (!L) { vp::fail("C18:missing", n); continue; }
    const std::vector<float>& v = cls == 3 ? grid : small;
    vp::sequences((int)v.size(), cls - 1, cls - 1, [&](const std::vector<int>& q) {
      std::vector<float> s = {cls <= 4 ? grid[first] : small[first]}; for (int i : q) s.push_back(v[i]);
      std::vector<float> r(s.begin() + 1, s.end()); r.insert(r.begin() + (y % cls), s[0]);   // the label's score is the finest
      if (n.find("hinge") == std::string::npos) one(L.get(), n, r, y, 1.f);
      else for (float m : margins) one(L.get(), n, r, y, m);
    });
  }
}
VP_MAIN(run)
