// Reference loss functions, in double precision, written from the definitions.
#ifndef VP_REFLOSS_H__
#define VP_REFLOSS_H__
#include <vector>
#include <string>
#include <cmath>
#include <algorithm>
struct LossVal { double loss; std::vector<double> g; bool tie = false; };
inline double softplus(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
inline double sigmoid(double z) { return z >= 0 ? 1 / (1 + std::exp(-z)) : std::exp(z) / (1 + std::exp(z)); }
inline int ref_label(const std::vector<double>& s) {
  if (s.size() == 1) return s[0] >= 0 ? 1 : -1;
  return (int)(std::max_element(s.begin(), s.end()) - s.begin());
}
// kind: bool, hinge, logistic, square; form: "" (binary), maxscore, uniform
inline LossVal ref_loss(const std::string& name, const std::vector<double>& s, int y, int predicted, double margin) {
  LossVal r; r.g.assign(s.size(), 0); r.loss = 0;
  auto kind = name.substr(name.find('-') == std::string::npos ? 0 : name.find('-') + 1);
  if (s.size() == 1) {
    double m = s[0] * y;
    if (kind == "bool") { r.loss = predicted == y ? 0 : 1; r.g[0] = r.loss > 0 ? -y : 0; }
    else if (kind == "hinge") { r.loss = std::max(0.0, margin - m); r.g[0] = r.loss > 0 ? -y : 0; }
    else if (kind == "logistic") { r.loss = softplus(-m); r.g[0] = -y * sigmoid(-m); }
    else if (kind == "square") { r.loss = 0.5 * (s[0] - y) * (s[0] - y); r.g[0] = s[0] - y; }
    return r;
  }
  bool uniform = name.compare(0, 7, "uniform") == 0;
  std::vector<int> rivals;      // the classes the label competes with
  if (uniform) { for (int i = 0; i < (int)s.size(); ++i) if (i != y && s[i] >= s[y]) rivals.push_back(i); }
  else { int w = -1; for (int i = 0; i < (int)s.size(); ++i) if (i != y && (w < 0 || s[i] > s[w])) w = i; rivals.push_back(w); }
  if (rivals.empty()) return r;
  double avg = 0; for (int i : rivals) avg += s[i] / rivals.size();
  double z = avg - s[y], slope = 0;
  if (kind == "bool") { r.loss = predicted == y ? 0 : 1; slope = r.loss; if (!uniform) { rivals[0] = predicted; } }
  else if (kind == "hinge") { r.loss = std::max(0.0, margin + z); slope = r.loss > 0; }
  else { r.loss = softplus(z); slope = sigmoid(z); }
  if (slope != 0) { for (int i : rivals) r.g[i] += slope / rivals.size(); r.g[y] -= slope; }
  return r;
}
#endif
