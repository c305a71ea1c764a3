// Reference models: the documented definition of every response, written
// independently of the code under test (plain loops, no early exits, no
// threads).  Samples whose value depends on how a rounding tie is broken are
// marked ambiguous and are not compared.
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "driver.h"

namespace ref {

const double PI = 3.14159265358979323846;
const double TIE = 1e-6;                 // samples closer than this to a tie are ambiguous

struct Contrib { double r; double pos; double amp; };   // distance [mm], real-valued sample position, amplitude

struct Col {
  std::vector<double> h;
  std::vector<char> amb;
  bool oob = false, oob_amb = false;     // something outside the window / undecidable at rounding precision
  bool grid_amb = false;                 // the cell grid itself depends on rounding
  long cells = 0;
};

// Sample grid along one dimension: centres lo+d/2 + i*d that lie inside [lo,hi].
inline std::vector<double> grid(double lo, double hi, double d, bool &amb) {
  std::vector<double> g;
  for (long i = 0;; i++) {
    double x = lo + d / 2 + i * d;
    if (std::fabs(x - hi) < 1e-9 * (1 + std::fabs(hi))) amb = true;
    if (x > hi) break;
    g.push_back(x);
    if (i > 100000) { amb = true; break; }
  }
  return g;
}

enum { F_NONE, F_X, F_NEGX, F_Y, F_NEGY, F_XY, F_X_Y, F_UD };
enum { S_NONE, S_X, S_Y, S_XY };
enum { A_TRI, A_GAUSS, A_RAISED, A_HANN, A_HAMMING, A_SIMPLY, A_CLAMPED, A_UD };

// [us], positive = emitted later
inline double focus_law(int met, double f, double x, double y, double xref, double yref, double rref, double cp) {
  double d = 0;
  if (met == F_X) d = std::hypot(xref, f) - std::hypot(x, f);
  else if (met == F_Y) d = std::hypot(yref, f) - std::hypot(y, f);
  else if (met == F_XY) d = std::hypot(rref, f) - std::sqrt(x * x + y * y + f * f);
  else if (met == F_X_Y) d = std::hypot(rref, f) - (std::hypot(x, f) + std::hypot(y, f));
  return d / cp * 1000.0;
}
inline double steer_law(int met, double th, double ph, double x, double y, double xmax, double ymax, double cp) {
  double d = 0;
  if (met == S_X || met == S_XY) d += (xmax + x) * std::sin(th / 180.0 * PI);
  if (met == S_Y || met == S_XY) d += (ymax + y) * std::sin(ph / 180.0 * PI);
  return d / cp * 1000.0;
}
inline double apod_law(int met, double u, double par, double udw) {     // u = r / r_max
  switch (met) {
  case A_TRI: return 1 - u;
  case A_GAUSS: return std::exp(-par * u * u);
  case A_RAISED: return par + std::cos(PI * u);
  case A_HANN: return 0.5 + 0.5 * std::cos(PI * u);
  case A_HAMMING: return 25.0 / 46.0 + 21.0 / 46.0 * std::cos(PI * u);
  case A_SIMPLY: return 1 - u * u;
  case A_CLAMPED: return (1 - u * u) * (1 - u * u);
  default: return udw;
  }
}

inline Contrib contrib(const Job &j, double r, double ds, double w, double delay) {
  Contrib c;
  c.r = r;
  c.pos = (r * 1000.0 / j.cp - delay) / j.dt;
  c.amp = w * j.v * ds / (2 * PI * r) / j.dt * 1000.0;
  return c;
}

typedef std::vector<Contrib> CV;
typedef std::function<double(double, double)> XY;      // extra delay per cell, [us]
inline void flat_rect(const Job &j, double xo, double yo, double zo, double delay, double w, const XY &fd, CV &out, bool &amb) {
  for (double y : grid(-j.b / 2, j.b / 2, j.dy, amb))
    for (double x : grid(-j.a / 2, j.a / 2, j.dx, amb))
      out.push_back(contrib(j, std::sqrt((xo - x) * (xo - x) + (yo - y) * (yo - y) + zo * zo), j.dx * j.dy, w, delay - (fd ? fd(x, y) : 0)));
}
inline void disc(const Job &j, double R, double xo, double yo, double zo, double delay, double w, const XY &fd, const XY &depth, CV &out, bool &amb) {
  for (double y : grid(-R, R, j.dy, amb)) {
    double q = R * R - y * y;
    if (q < 0) { amb = true; continue; }
    double half = std::sqrt(q);
    for (double x : grid(-half, half, j.dx, amb)) {
      double zs = depth ? depth(x, y) : 0;
      out.push_back(contrib(j, std::sqrt((xo - x) * (xo - x) + (yo - y) * (yo - y) + (zo - zs) * (zo - zs)), j.dx * j.dy, w, delay - (fd ? fd(x, y) : 0)));
    }
  }
}
inline void cylinder(const Job &j, double xo, double yo, double zo, double delay, double w, CV &out, bool &amb) {
  double R = std::fabs(j.Rcurv), sgn = j.Rcurv >= 0 ? 1 : -1;
  double half = std::asin(j.b / 2 / R), dphi = std::asin(j.dy / R);
  for (double phi : grid(-half, half, dphi, amb)) {
    double y = R * std::sin(phi), zs = sgn * (R - R * std::cos(phi));
    for (double x : grid(-j.a / 2, j.a / 2, j.dx, amb))
      out.push_back(contrib(j, std::sqrt((xo - x) * (xo - x) + (yo - y) * (yo - y) + (zo - zs) * (zo - zs)), R * j.dx * dphi, w, delay));
  }
}

// Documented lossy Green's function, inverse transform by direct summation.
// "Arrival sample" it, distance r [mm].
inline std::vector<double> att_filter(double alpha, double dt_us, long n, double r_mm, long it) {
  std::vector<double> x(n, 0.0);
  double al = alpha / (8.686 * 10000.0), dt = dt_us * 1e-6, r = r_mm * 1e-3;
  std::vector<double> A(n / 2 + 1), P(n / 2 + 1);
  for (long k = 1; k <= n / 2; k++) {
    double f = (double)k / n / dt, w = 2 * PI * f;
    A[k] = std::exp(-r * al * f);
    P[k] = -w * r * al / (PI * PI) * std::log(PI / (0.95 * dt * w)) - 2 * PI * (double)((k * it) % n) / n;
  }
  for (long i = 0; i < n; i++) {
    double s = 1;
    for (long k = 1; k <= n / 2; k++) {
      double c = A[k] * std::cos(P[k] + 2 * PI * (double)((k * i) % n) / n);
      if (2 * k == n) s += A[k] * std::cos(P[k]) * ((i & 1) ? -1 : 1);
      else s += 2 * c;
    }
    x[i] = s / n;
  }
  return x;
}

inline Col place(const Job &j, const CV &cs) {
  Col c;
  c.h.assign(j.nt, 0.0);
  c.amb.assign(j.nt, 0);
  c.cells = cs.size();
  for (const Contrib &q : cs) {
    double fl = std::floor(q.pos + 0.5), d = std::fabs(q.pos + 0.5 - std::rint(q.pos + 0.5));
    long it = (long)fl;
    bool tie = d < TIE;
    if (tie) {
      long lo = (long)std::rint(q.pos + 0.5) - 1, hi = lo + 1;
      for (long t : {lo, hi}) { if (t >= 0 && t < j.nt) c.amb[t] = 1; }
      bool li = lo >= 0 && lo < j.nt, hin = hi >= 0 && hi < j.nt;
      if (li != hin) c.oob_amb = true; else if (!li) c.oob = true;
      if (j.alpha > 0) std::fill(c.amb.begin(), c.amb.end(), 1);
    } else if (it < 0 || it >= j.nt) c.oob = true;
    else if (j.alpha > 2.220446049250313e-16) {
      std::vector<double> f = att_filter(j.alpha, j.dt, j.nt, q.r, it);
      for (long i = 0; i < j.nt; i++) c.h[i] += q.amp * f[i];
    } else c.h[it] += q.amp;
  }
  if (c.oob) c.oob_amb = false;
  return c;
}

struct ArrGeom { double xmax = 0, ymax = 0, rmax = 0; };
inline ArrGeom arr_geom(const double *G, long n) {
  ArrGeom g;
  for (long i = 0; i < n; i++) { g.xmax = std::max(g.xmax, std::fabs(G[i])); g.ymax = std::max(g.ymax, std::fabs(G[n + i])); }
  g.rmax = std::hypot(g.xmax, g.ymax);
  return g;
}

inline void array_contribs(const std::string &el, const Job &j, double xo, double yo, double zo, double delay, CV &cs, bool &amb) {
  long N = j.num_elements;
  ArrGeom g = arr_geom(j.G, N);
  for (long e = 0; e < N; e++) {
    double x = j.G[e], y = j.G[N + e], z = j.G[2 * N + e];
    double fd = j.foc_met == F_UD ? j.focal[e] : focus_law(j.foc_met, j.focal ? j.focal[0] : 1, x, y, g.xmax, g.ymax, g.rmax, j.cp);
    double sd = steer_law(j.steer_met, j.theta, j.phi, x, y, g.xmax, g.ymax, j.cp);
    double w = 1;
    if (j.do_apod) w = apod_law(j.apod_met, g.rmax > 0 ? std::hypot(x, y) / g.rmax : 0.0, j.apod_par, j.apod ? j.apod[e] : 0);
    double d = delay - fd - sd;
    if (el == "arr_rect") flat_rect(j, xo - x, yo - y, zo - z, d, w, nullptr, cs, amb);
    else if (el == "arr_circ") disc(j, j.R, xo - x, yo - y, zo - z, d, w, nullptr, nullptr, cs, amb);
    else cylinder(j, xo - x, yo - y, zo - z, d, w, cs, amb);
  }
}

// Annular array: ring n = disc(radius 2n) - disc(radius 2n-1), shifted as a whole.
inline Col annular(const Job &j, double xo, double yo, double zo, double delay) {
  Col out;
  out.h.assign(j.nt, 0.0);
  out.amb.assign(j.nt, 0);
  long nr = j.num_elements, ne = (nr + 1) / 2;
  std::vector<double> mid(ne, 0.0);
  for (long e = 1; e < ne; e++) mid[e] = (j.G[2 * e - 1] + j.G[2 * e]) / 2;
  double rm = mid[ne - 1];
  std::vector<Col> d(nr);
  for (long k = 0; k < nr; k++) {
    CV cs;
    bool amb = false;
    if (!(k == 0 && j.G[k] <= 2.220446049250313e-16)) disc(j, j.G[k], xo, yo, zo, delay, 1.0, nullptr, nullptr, cs, amb);
    d[k] = place(j, cs);
    out.cells += cs.size();
    out.grid_amb |= amb;
    out.oob |= d[k].oob;
    out.oob_amb |= d[k].oob_amb;
  }
  for (long e = 0; e < ne; e++) {
    double fd = 0;
    if (j.foc_met == F_UD) fd = j.focal[e];
    else if (j.foc_met != F_NONE) fd = (std::hypot(rm, j.focal[0]) - std::hypot(mid[e], j.focal[0])) / j.cp * 1000.0;
    double w = 1;
    if (j.do_apod) w = apod_law(j.apod_met, rm > 0 ? mid[e] / rm : 0.0, j.apod_par, j.apod ? j.apod[e] : 0);
    double q = fd / j.dt;
    bool tie = std::fabs(q + 0.5 - std::rint(q + 0.5)) < TIE;
    long s = (long)std::floor(q + 0.5);
    for (long i = 0; i < j.nt; i++) {
      double x = d[2 * e].h[i] - (e ? d[2 * e - 1].h[i] : 0.0);
      bool am = d[2 * e].amb[i] || (e && d[2 * e - 1].amb[i]);
      for (long t : {i + s - 1, i + s, i + s + 1}) if ((tie || am) && t >= 0 && t < j.nt && (tie || t == i + s)) out.amb[t] = 1;
      long t = i + s;
      if (t >= 0 && t < j.nt) { if (!tie) out.h[t] += w * x; }
    }
  }
  if (out.oob) out.oob_amb = false;
  return out;
}

inline CV contribs(const std::string &fam, const Job &j, long n, bool &amb) {
  double xo = j.Ro[n], yo = j.Ro[j.No + n], zo = j.Ro[2 * j.No + n];
  double delay = j.delay[j.delay_multi ? n : 0];
  CV cs;
  if (fam == "line") {
    for (double x : grid(-j.a / 2, j.a / 2, j.dx, amb))
      cs.push_back(contrib(j, std::sqrt((xo - x) * (xo - x) + yo * yo + zo * zo), j.dx * j.dy, 1.0, delay));
  } else if (fam == "rect") flat_rect(j, xo, yo, zo, delay, 1, nullptr, cs, amb);
  else if (fam == "rect_f")
    flat_rect(j, xo, yo, zo, delay, 1, [&](double x, double y) { return focus_law(j.foc_met, j.focal[0], x, y, j.a, j.b, std::hypot(j.a, j.b), j.cp); }, cs, amb);
  else if (fam == "circ") disc(j, j.R, xo, yo, zo, delay, 1, nullptr, nullptr, cs, amb);
  else if (fam == "circ_f")
    disc(j, j.R, xo, yo, zo, delay, 1, [&](double x, double y) { return focus_law(j.foc_met, j.focal[0], x, y, j.R, j.R, j.R, j.cp); }, nullptr, cs, amb);
  else if (fam == "sphere")
    disc(j, j.R, xo, yo, zo, delay, 1, nullptr, [&](double x, double y) {
      double Rc = std::fabs(j.Rcurv);
      return (j.Rcurv >= 0 ? 1 : -1) * (Rc - std::sqrt(Rc * Rc - x * x - y * y)); }, cs, amb);
  else if (fam == "cylind") cylinder(j, xo, yo, zo, delay, 1, cs, amb);
  else array_contribs(fam, j, xo, yo, zo, delay, cs, amb);
  return cs;
}

inline Col column(const std::string &fam, const Job &j, long n) {
  if (fam == "arr_annu")
    return annular(j, j.Ro[n], j.Ro[j.No + n], j.Ro[2 * j.No + n], j.delay[j.delay_multi ? n : 0]);
  bool amb = false;
  CV cs = contribs(fam, j, n, amb);
  Col c = place(j, cs);
  c.grid_amb = amb;
  return c;
}

// Delay-and-sum: value and out-of-record flag of image point n.
struct Pix { double v = 0; bool oob = false, amb = false, edge = false; double mag = 0; };
template <class T> Pix das_pixel(const Job &j, long n, double tie) {
  const T *Y = (const T *)j.Y, *Gt = (const T *)j.Gt, *Gr = (const T *)j.Gr, *Ro = (const T *)j.Rof, *dl = (const T *)j.delayf;
  double x = Ro[n], y = Ro[j.No + n], z = Ro[2 * j.No + n], d = dl[j.delay_multi ? n : 0];
  long Nt = j.nt_el, Nr = j.nr_el;
  int type = Nr == 0 ? 0 : j.das_type;
  Pix p;
  auto add = [&](double t_us, long scan) {
    double q = t_us / j.dtf;
    if (std::fabs(q - std::rint(q)) < tie * (1 + std::fabs(q))) p.amb = true;
    if (q < 0 && q > -1) { p.amb = true; return; }         // the sign of truncation is not documented
    if (std::fabs(q - std::rint(q)) < tie * (1 + std::fabs(q)) && (std::fabs(q) < 0.5 || std::fabs(q - j.a_scan_len) < 0.5)) { p.edge = true; return; }
    long k = (long)std::floor(q);
    if (k < 0 || k >= j.a_scan_len) p.oob = true;
    else { p.v += Y[scan * j.a_scan_len + k]; p.mag += std::fabs((double)Y[scan * j.a_scan_len + k]); }
  };
  auto dist = [](double a, double b, double c) { return std::sqrt(a * a + b * b + c * c); };
  if (type == 0) {                                          // SAFT: the same element transmits and receives
    for (long e = 0; e < Nt; e++)
      add(2 * (dist(Gt[e] - x, Gt[Nt + e] - y, Gt[2 * Nt + e] - z) / j.cpf * 1000.0 + d), e);
  } else if (type == 1) {                                   // TFM
    for (long t = 0; t < Nt; t++) for (long r = 0; r < Nr; r++)
      add((dist(Gt[t] - x, Gt[Nt + t] - y, Gt[2 * Nt + t] - z) + dist(Gr[r] - x, Gr[Nr + r] - y, Gr[2 * Nr + r] - z)) / j.cpf * 1000.0 + d, t * Nr + r);
  } else {                                                  // row-column array: columns at Gt (x), rows at Gr (y)
    double ymin = Gr[Nr], ymax = Gr[Nr + Nr - 1], xmin = Gt[0], xmax = Gt[Nt - 1];
    double py = y < ymin ? ymin : y > ymax ? ymax : y;      // nearest point of a column stripe
    double px = x < xmin ? xmin : x > xmax ? xmax : x;      // nearest point of a row stripe
    for (long c = 0; c < Nt; c++) for (long r = 0; r < Nr; r++) {
      double t = (dist(Gt[c] - x, py - y, Gt[2 * Nt + c] - z) + dist(px - x, Gr[Nr + r] - y, Gr[2 * Nr + r] - z)) / j.cpf * 1000.0 + d;
      add(t, type == 2 ? c * Nr + r : r * Nt + c);
    }
  }
  return p;
}

} // namespace ref
