// Exact responses of the baffled rectangular and circular piston: the arc of
// the circle of points at one distance that lies inside the aperture.
#pragma once
#include "enumr.h"
#include "ref.h"
#include <math.h>
#include <algorithm>
namespace sir2 {
using en::Ctx; using std::string; using std::vector;
static const double PI = ref::PI;

// fraction of the circle of radius s around (x,y) that is inside the rectangle
static double frac_rect(double x, double y, double a, double b, double s) {
  if (s <= 0) s = 0;
  vector<double> th = {0, 2 * PI};
  auto put = [&](double t) { t = fmod(t + 4 * PI, 2 * PI); th.push_back(t); };
  for (double e : {a / 2, -a / 2}) { double q = (e - x) / s; if (fabs(q) <= 1) { put(acos(q)); put(-acos(q)); } }
  for (double e : {b / 2, -b / 2}) { double q = (e - y) / s; if (fabs(q) <= 1) { put(asin(q)); put(PI - asin(q)); } }
  std::sort(th.begin(), th.end());
  double sum = 0;
  for (size_t i = 0; i + 1 < th.size(); i++) {
    double m = (th[i] + th[i + 1]) / 2, X = x + s * cos(m), Y = y + s * sin(m);
    if (fabs(X) <= a / 2 && fabs(Y) <= b / 2) sum += th[i + 1] - th[i];
  }
  return sum / (2 * PI);
}
static double frac_circ(double rc, double r, double s) {
  if (s <= 0) s = 0;
  if (s + rc <= r) return 1;                 // wholly inside
  if (s >= rc + r || s <= rc - r) return 0;
  double q = (s * s + rc * rc - r * r) / (2 * s * rc);
  q = std::max(-1.0, std::min(1.0, q));
  return acos(q) / PI;
}
template <class F> static void exact(F f, double ct, double z, double amp, double &v, double &tol) {
  auto g = [&](double c) { return c < z || c < 0 ? 0.0 : f(sqrt(std::max(0.0, (c - z) * (c + z)))); };
  double e = 2e-11 * (fabs(ct) + z) + 1e-15, lo = g(ct - e), hi = g(ct + e);
  v = amp * g(ct);
  tol = fabs(amp) * (2e-7 + 1.01 * std::max(fabs(lo - g(ct)), fabs(hi - g(ct))));
}
static void compare(Ctx &c, const string &cls, const double *h, const vector<double> &want, const vector<double> &tol) {
  c.state(want.data(), want.size() * 8);
  for (size_t i = 0; i < want.size(); i++) {
    c.values++; if (want[i] != 0) c.triv = false;
    if (!(fabs(h[i] - want[i]) <= tol[i])) { c.fail(cls, "sample " + std::to_string(i) + " is " + en::S(h[i]) + ", should be " + en::S(want[i])); return; }
  }
}
} // namespace sir2
