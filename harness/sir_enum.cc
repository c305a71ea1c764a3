// Bounded-exhaustive comparison of the transducer/array responses with ref.h.
//   sir_enum DIR PROP TIER [enumr.h options]
#include "enumr.h"
#include "jobs.h"
#include <array>
#include <math.h>
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;

static string g_dir; static bool thorough;
static Driver *drv(const string &f) { static std::map<string, Driver *> m; auto &d = m[f]; if (!d) d = load_family(g_dir, f); return d; }
typedef std::array<double, 3> P3;

static const vector<vector<P3>> &point_sets() {
  static vector<vector<P3>> s = {
    {{0.013, -0.021, 5}, {3.1, 0.07, 9.3}, {-3.1, 0.07, 9.3}, {-2.2, -4.1, 7.7}, {2.2, 4.1, 7.7}},     // general, with mirror images
    {{0.003, 0.002, 0.31}, {0.52, -0.33, 0.04}, {1.7, 0.9, 0.6}},                                     // close to the surface
    {{4.37, 0.0, 0.0}, {0.0, -6.13, 0.0}, {-3.3, -5.1, 0.0}},                                         // in the plane of the aperture
    {{0.4, 0.3, -6.1}, {-1.9, 2.7, -3.3}},                                                            // behind it
    {{0, 0, 143.7}, {57.3, -31.1, 88.8}, {-0.7, 93.1, 21.2}},                                         // far
    {{0.77, 1.23, 11.9}},
  };
  return s;
}
static void set_points(JobBuf &b, const vector<P3> &p) {
  long N = p.size(); b.j.No = N; b.Ro.assign(3 * N, 0);
  for (long n = 0; n < N; n++) for (int k = 0; k < 3; k++) b.Ro[k * N + n] = p[n][k];
}
static double first_arrival(const JobBuf &b0, long n) {
  JobBuf b = b0; vector<double> z(b.j.No, 0.0); b.delay = z; b.j.delay_multi = 1; b.bind();
  bool amb = false; double m = 1e300;
  if (b.fam == "arr_annu") { ref::CV cs; ref::disc(b.j, b.j.G[b.j.num_elements - 1], b.Ro[n], b.Ro[b.j.No + n], b.Ro[2 * b.j.No + n], 0, 1, nullptr, nullptr, cs, amb); for (auto &c : cs) m = std::min(m, c.pos); }
  else for (auto &c : ref::contribs(b.fam, b.j, n, amb)) m = std::min(m, c.pos);
  return m > 1e299 ? 0 : m * b.j.dt;
}
// how the time window is placed; the odd fractions keep the arrivals off the rounding ties
enum { D_ZERO, D_COMMON, D_PER_POINT, D_LATE, D_NEG, D_N };
static void set_delay(JobBuf &b, int mode) {
  Job &j = b.j; b.bind(); j.delay_multi = mode == D_PER_POINT || mode == D_LATE;
  vector<double> d;
  if (mode == D_ZERO) d = {0};
  else if (mode == D_COMMON) { double m = 1e300; for (long n = 0; n < j.No; n++) m = std::min(m, first_arrival(b, n)); d = {m - 1.37 * j.dt}; }
  else if (mode == D_NEG) d = {-2.613 * j.dt};
  else for (long n = 0; n < j.No; n++) d.push_back(first_arrival(b, n) + (mode == D_LATE ? (1.29 + 0.7 * n) : -(0.61 + 0.83 * n)) * j.dt);
  b.delay = d; b.bind();
}
// One call of the code; every column against the reference.
static void check(Ctx &c, JobBuf &b, double rel = 1e-9, const char *cls = "response") {
  b.bind();
  const Job &j = b.j;
  vector<ref::Col> cols;
  for (long n = 0; n < j.No; n++) { cols.push_back(ref::column(b.fam, j, n)); if (cols.back().grid_amb) return c.skip(); }
  vector<double> H(j.nt * j.No, 0.0);
  b.run(drv(b.fam), H.data()); c.calls++;
  for (long n = 0; n < j.No; n++) {
    c.steps += cols[n].cells;
    if (!c.cmp(b.fam + " " + cls, &H[n * j.nt], cols[n].h.data(), j.nt, rel, cols[n].amb.data())) return;
  }
}
struct Ap { double a, b; };
static const vector<Ap> APS = {{1.0, 0.8}, {0.17, 0.13}, {7.3, 1.1}, {1.9, 8.3}, {4.3, 6.1}, {11.2, 9.7}};
struct St { double dx, dy; };
static const vector<St> STS = {{0.52, 0.52}, {0.31, 0.47}, {0.73, 0.22}, {1.61, 0.39}, {0.11, 3.07}};
struct Ti { double dt; long nt; };
static const vector<Ti> TIS = {{0.04, 64}, {0.013, 257}, {0.1, 17}, {0.05, 1}, {0.37, 2}, {0.0041, 700}};
static const vector<double> VS = {1.0, -2.37, 0.0031};
static const vector<double> CPS = {1500, 343.7, 5910};
static const vector<double> RCS = {12.3, -12.3, 9.1, -31.0, 4000.0, -4000.0};

static JobBuf mk(const string &fam, const Ap &a, const St &s, const Ti &t, double v, double cp, double alpha = 0) {
  JobBuf b; b.fam = fam; Job &j = b.j;
  j.a = a.a; j.b = a.b; j.R = a.a / 2 + 0.013; j.dx = s.dx; j.dy = s.dy; j.dt = t.dt; j.nt = t.nt; j.v = v; j.cp = cp; j.alpha = alpha; j.err_level = 1;
  b.focal = {20};
  return b;
}

static vector<Space> p05() {
  vector<Space> r;
  for (string fam : {"line", "rect", "circ"})
    r.push_back({"flat " + fam, {{"aperture", (int)APS.size()}, {"step", (int)STS.size()}, {"time", (int)TIS.size()}, {"delay", D_N}, {"v", 3}, {"cp", thorough ? 3 : 2}, {"points", (int)point_sets().size()}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk(fam, APS[i[0]], STS[i[1]], TIS[i[2]], VS[i[4]], CPS[i[5]]);
        set_points(b, point_sets()[i[6]]); set_delay(b, i[3]); check(c, b);
      }});
  return r;
}
static vector<Space> p06() {
  vector<Space> r;
  static const vector<double> FOC = {20, 3.7, 0.9, 151.0, 1e6};
  for (string fam : {"rect_f", "circ_f"})
    r.push_back({"focused " + fam, {{"aperture", (int)APS.size()}, {"step", (int)STS.size()}, {"time", thorough ? 6 : 3}, {"delay", thorough ? D_N : 3}, {"v", thorough ? 3 : 2}, {"cp", thorough ? 3 : 2}, {"method", 5}, {"focal", (int)FOC.size()}, {"points", (int)point_sets().size()}},
      [=](Ctx &c, const Idx &i) {
        static const int M[] = {ref::F_NONE, ref::F_X, ref::F_Y, ref::F_XY, ref::F_X_Y};
        JobBuf b = mk(fam, APS[i[0]], STS[i[1]], TIS[i[2]], VS[i[4]], CPS[i[5]]);
        b.j.foc_met = M[i[6]]; b.focal = {FOC[i[7]]};
        set_points(b, point_sets()[i[8]]); set_delay(b, i[3]); check(c, b, 1e-9, "focused response");
        // focusing off is the flat piston
        if (b.j.foc_met == ref::F_NONE && !c.failed && !c.skipped) { JobBuf f = b; f.fam = fam == "rect_f" ? "rect" : "circ"; f.bind(); 
          vector<double> H(b.j.nt * b.j.No, 0.0), G(H); b.run(drv(b.fam), H.data()); f.run(drv(f.fam), G.data()); c.calls += 2; c.cmp(fam + " unfocused equals flat", H.data(), G.data(), H.size(), 1e-12); }
      }});
  return r;
}
static vector<Space> p07() {
  vector<Space> r;
  for (string fam : {"sphere", "cylind"})
    r.push_back({"curved " + fam, {{"aperture", (int)APS.size()}, {"step", (int)STS.size()}, {"time", (int)TIS.size()}, {"delay", D_N}, {"v", thorough ? 3 : 2}, {"cp", thorough ? 3 : 2}, {"Rcurv", (int)RCS.size()}, {"points", (int)point_sets().size()}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk(fam, APS[i[0]], STS[i[1]], TIS[i[2]], VS[i[4]], CPS[i[5]]);
        b.j.Rcurv = RCS[i[6]];
        if (fabs(b.j.Rcurv) <= b.j.b / 2 || fabs(b.j.Rcurv) <= b.j.R || b.j.dy >= fabs(b.j.Rcurv)) return c.skip();
        set_points(b, point_sets()[i[7]]); set_delay(b, i[3]); check(c, b, 1e-9, "curved response");
      }});
  // a very large radius of curvature is the flat piston
  for (string fam : {"sphere", "cylind"})
    r.push_back({"flat limit " + fam, {{"aperture", (int)APS.size()}, {"step", (int)STS.size()}, {"sign", 2}, {"points", (int)point_sets().size()}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk(fam, APS[i[0]], STS[i[1]], TIS[0], 1, 1500);
        b.j.Rcurv = i[2] ? -3e9 : 3e9;
        set_points(b, point_sets()[i[3]]); set_delay(b, D_PER_POINT);
        JobBuf f = b; f.fam = fam == "sphere" ? "circ" : "rect"; f.bind();
        vector<double> H(b.j.nt * b.j.No, 0.0), G(H);
        vector<char> amb;
        for (long n = 0; n < b.j.No; n++) { ref::Col q = ref::column(f.fam, f.j, n); if (q.grid_amb) return c.skip(); amb.insert(amb.end(), q.amb.begin(), q.amb.end()); c.steps += q.cells; }
        b.run(drv(b.fam), H.data()); f.run(drv(f.fam), G.data()); c.calls += 2;
        c.cmp(fam + " with a huge radius equals flat", H.data(), G.data(), H.size(), 1e-5, amb.data());
      }});
  return r;
}
// array layouts: rows of (x, y, z)
static const vector<vector<P3>> &layouts() {
  static vector<vector<P3>> s = {
    {{0, 0, 0}},
    {{-1.3, 0, 0}, {1.1, 0, 0}},
    {{-2.1, 0.3, 0}, {0.17, -0.9, 0}, {1.9, 1.4, 0}},
    {{0, -3.1, 0.2}, {0, 0.8, -0.4}, {0, 2.2, 0.6}, {0, 2.9, -1.1}},
    {{-1.7, -1.1, 0}, {1.7, -1.1, 0}, {-1.7, 1.1, 0}, {1.7, 1.1, 0}, {0.05, 0.02, 0.3}},
    {{2.3, 0.4, 0}},                                                       // a single element off the centre
    {{1.1, 2.0, 0}, {3.3, 1.2, 0}, {2.2, 0.7, 0}},                         // one quadrant only
    {{-4.4, -0.2, 0}, {-3.3, 0.1, 0}, {-2.2, 0.2, 0}, {-1.1, 0.3, 0}, {0.3, -0.3, 0}, {1.1, 0, 0}, {2.2, 0.15, 0}, {3.1, -0.1, 0}},
    {{0.9, 1.2, 0}, {-0.4, -2.7, 0}, {1.3, 0.6, 0}},                       // outermost element in the middle, on the negative side
    {{0.4, 0.9, 0}, {1.2, -0.3, 0}, {-2.6, 1.1, 0.2}},                     // outermost element last
  };
  return s;
}
static void set_layout(JobBuf &b, const vector<P3> &p) { long N = p.size(); b.j.num_elements = N; b.G.assign(3 * N, 0); for (long n = 0; n < N; n++) for (int k = 0; k < 3; k++) b.G[k * N + n] = p[n][k]; }
static const int FM[] = {ref::F_NONE, ref::F_X, ref::F_Y, ref::F_XY, ref::F_X_Y, ref::F_UD};
static void set_foc(JobBuf &b, int k, double focal) {
  b.j.foc_met = FM[k];
  if (FM[k] == ref::F_UD) { b.focal.clear(); for (long e = 0; e < b.j.num_elements; e++) b.focal.push_back(0.31 * ((e * 5 + 2) % 7) - 0.4); }
  else b.focal = {focal};
}
static void set_apod(JobBuf &b, int k, double par) {     // 0: off, 1..8: ApodMet k-1
  b.j.do_apod = k > 0; b.j.apod_met = k > 0 ? k - 1 : ref::A_GAUSS; b.j.apod_par = par;
  b.apod.clear(); for (long e = 0; e < b.j.num_elements; e++) b.apod.push_back(0.3 + 0.9 * ((e * 3 + 1) % 5) * (e & 1 ? -1 : 1));
}
static void set_steer(JobBuf &b, int k) {
  static const struct { int m; double t, p; } Q[] = {{ref::S_NONE, 20, 10}, {ref::S_X, 13, 40}, {ref::S_Y, 25, -17}, {ref::S_XY, -21, 8}, {ref::S_XY, 33, 27}};
  b.j.steer_met = Q[k].m; b.j.theta = Q[k].t; b.j.phi = Q[k].p;
}
static JobBuf mk_arr(const string &fam, int lay, int elem, int time, double v, double cp, double alpha) {
  static const vector<Ap> EA = {{0.9, 1.1}, {0.21, 0.3}, {2.1, 0.7}};
  JobBuf b = mk(fam, EA[elem], STS[elem == 1 ? 4 : elem], TIS[time], v, cp, alpha);
  b.j.R = EA[elem].a / 2 + 0.019;
  if (elem == 1) { b.j.dx = 0.15; b.j.dy = 0.19; }
  b.j.Rcurv = elem == 2 ? -7.7 : 8.3;
  set_layout(b, layouts()[lay]);
  return b;
}
static vector<Space> p08() {
  vector<Space> r;
  for (string fam : {"arr_rect", "arr_circ", "arr_cylind"}) {
    r.push_back({"array " + fam, {{"layout", (int)layouts().size()}, {"element", thorough ? 3 : 2}, {"focus", 6}, {"steer", 5}, {"apod", 9}, {"time", thorough ? 4 : 2}, {"delay", thorough ? D_N : 3}, {"medium", 2}, {"points", thorough ? 6 : 3}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk_arr(fam, i[0], i[1], i[5], i[7] ? -1.7 : 1.0, i[7] ? 2713 : 1500, 0);
        set_foc(b, i[2], i[7] ? 6.1 : 31.0); set_steer(b, i[3]); set_apod(b, i[4], i[7] ? 0.4 : 2.3);
        set_points(b, point_sets()[i[8]]);
        set_delay(b, i[6]); check(c, b, 1e-9, "array response");
      }});
    // element order: every permutation of up to 4 (5) elements gives the same sum
    r.push_back({"order " + fam, {{"layout", (int)layouts().size()}, {"focus", 6}, {"steer", 3}, {"apod", 9}, {"perm", thorough ? 120 : 24}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk_arr(fam, i[0], 0, 0, 1, 1500, 0);
        long N = b.j.num_elements; int lim = thorough ? 5 : 4, nf = 1;
        for (int k = 2; k <= std::min<long>(N, lim); k++) nf *= k;
        if (i[4] >= nf) return c.skip();
        set_foc(b, i[1], 31); set_steer(b, i[2] * 2); set_apod(b, i[3], 0.7); set_points(b, point_sets()[0]); set_delay(b, D_COMMON);
        vector<int> p(N); for (long k = 0; k < N; k++) p[k] = k;
        int q = i[4]; vector<int> pool(p.begin(), p.begin() + std::min<long>(N, lim)), out;
        while (!pool.empty()) { int f = pool.size(); out.push_back(pool[q % f]); pool.erase(pool.begin() + q % f); q /= f; }
        for (size_t k = 0; k < out.size(); k++) p[k] = out[k];
        JobBuf s = b;
        for (long k = 0; k < N; k++) { for (int d = 0; d < 3; d++) s.G[d * N + k] = b.G[d * N + p[k]]; s.apod[k] = b.apod[p[k]]; if (s.j.foc_met == ref::F_UD) s.focal[k] = b.focal[p[k]]; }
        s.bind(); b.bind();
        vector<double> H(b.j.nt * b.j.No, 0.0), G(H);
        b.run(drv(fam), H.data()); s.run(drv(fam), G.data()); c.calls += 2; c.steps += N;
        c.cmp(fam + " depends on the order of the elements", G.data(), H.data(), H.size(), 1e-9);
      }});
  }
  return r;
}
static const vector<vector<double>> RINGS = {
  {2.03}, {0.61, 0.83, 1.57}, {0.0, 0.93, 1.83}, {1.07, 1.11, 2.03, 2.11, 3.05}, {0.52, 0.94, 1.31, 1.52, 1.93, 2.31, 2.44}, {0.0}, {0.31, 2.9, 2.97}};
static vector<Space> p09() {
  vector<Space> r;
  r.push_back({"annular array", {{"rings", (int)RINGS.size()}, {"step", (int)STS.size()}, {"time", (int)TIS.size()}, {"delay", D_N}, {"focus", 6}, {"focal", 2}, {"apod", 9}, {"medium", 2}, {"points", thorough ? 6 : 2}},
    [=](Ctx &c, const Idx &i) {
      JobBuf b = mk("arr_annu", APS[0], STS[i[1]], TIS[i[2]], i[7] ? -1.7 : 1.0, i[7] ? 2713 : 1500);
      b.G = RINGS[i[0]]; b.j.num_elements = b.G.size();
      if (b.j.num_elements == 1 && b.G[0] == 0) return c.skip();
      set_foc(b, i[4], i[5] ? 4.1 : 37.0);
      if (b.j.foc_met == ref::F_UD) {   // moved by a little / out of the window at either end
        double s = i[5] ? b.j.dt * b.j.nt : 1;
        for (double &f : b.focal) f *= s;
      }
      set_apod(b, i[6], i[7] ? 0.4 : 2.3);
      set_points(b, point_sets()[i[8]]); set_delay(b, i[3]); check(c, b, 1e-9, "annular response");
    }});
  // one ring shifted by every number of samples, beyond both ends of the window
  r.push_back({"ring shift", {{"rings", (int)RINGS.size()}, {"shift", 2 * 24 + 1}, {"ring", 4}, {"weight", 2}, {"nt", 3}},
    [=](Ctx &c, const Idx &i) {
      static const long NT[] = {20, 7, 1};
      JobBuf b = mk("arr_annu", APS[0], STS[1], {0.1, NT[i[4]]}, 1, 1500);
      b.G = RINGS[i[0]]; b.j.num_elements = b.G.size();
      long ne = (b.j.num_elements + 1) / 2;
      if (i[2] >= ne || (b.j.num_elements == 1 && b.G[0] == 0)) return c.skip();
      b.j.foc_met = ref::F_UD; b.focal.assign(ne, 0.0); b.focal[i[2]] = (i[1] - 24 + 0.19) * b.j.dt;
      set_apod(b, i[3] ? 8 : 0, 0);
      set_points(b, {{0.3, 0.2, 6}, {-0.4, 0.9, 7.1}}); set_delay(b, D_PER_POINT); check(c, b, 1e-9, "shifted ring");
    }});
  // one disc, no focusing: the circular piston
  r.push_back({"one disc", {{"step", (int)STS.size()}, {"time", (int)TIS.size()}, {"delay", D_N}, {"v", 3}, {"cp", 3}, {"points", 6}},
    [=](Ctx &c, const Idx &i) {
      JobBuf b = mk("arr_annu", APS[0], STS[i[0]], TIS[i[1]], VS[i[3]], CPS[i[4]]);
      b.G = {2.03}; b.j.num_elements = 1; b.apod = {1}; set_points(b, point_sets()[i[5]]); set_delay(b, i[2]);
      JobBuf f = b; f.fam = "circ"; f.j.R = 2.03; f.bind();
      vector<double> H(b.j.nt * b.j.No, 0.0), G(H);
      b.run(drv("arr_annu"), H.data()); f.run(drv("circ"), G.data()); c.calls += 2; c.steps++;
      c.cmp("arr_annu with one disc equals circ", H.data(), G.data(), H.size(), 1e-9);
    }});
  return r;
}
// P10: the delay and the weight of one element, measured: only its weight is non-zero,
// it has a single cell, and the sampling is fine.
static vector<Space> p10() {
  vector<Space> r;
  static const vector<double> FOC = {20, 3.7, 0.9, 151.0};
  for (string fam : {"arr_rect", "arr_circ", "arr_cylind"}) {
    r.push_back({"element delay " + fam, {{"layout", (int)layouts().size()}, {"element", 8}, {"focus", 6}, {"focal", (int)FOC.size()}, {"steer", 5}, {"cp", 3}, {"alpha", 2}, {"points", thorough ? 3 : 1}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk(fam, {0.2, 0.2}, {0.2001, 0.2001}, {0.0005, i[6] ? 96 : 33}, 1, CPS[i[5]], i[6] ? 1e-7 : 0);
        b.j.a = b.j.b = 0.21; b.j.R = 0.1026; b.j.Rcurv = 50;
        set_layout(b, layouts()[i[0]]);
        long N = b.j.num_elements;
        if (i[1] >= N) return c.skip();
        set_foc(b, i[2], FOC[i[3]]); set_steer(b, i[4]);
        b.j.do_apod = 1; b.j.apod_met = ref::A_UD; b.apod.assign(N, 0.0); b.apod[i[1]] = 1.0;
        static const vector<P3> PT = {{0.3, -0.2, 20}, {-4.1, 3.3, 31}, {7, 7, 14}};
        set_points(b, {PT[i[7]]});
        // window centred on the arrival of this element
        b.delay = {0}; b.bind();
        bool amb = false; double t = 0; for (auto &q : ref::contribs(fam, b.j, 0, amb)) if (q.amp > 0) t = q.pos;
        if (amb) return c.skip();
        // keep this element's arrival off the tie
        b.delay = {(std::floor(t) - b.j.nt / 2 + (t - std::floor(t)) - 0.2) * b.j.dt}; b.j.delay_multi = 0; b.bind();
        ref::Col col = ref::column(fam, b.j, 0); c.steps += col.cells;
        vector<double> H(b.j.nt, 0.0); b.run(drv(fam), H.data()); c.calls++;
        if (!b.j.alpha) { c.cmp(fam + " element delay", H.data(), col.h.data(), b.j.nt, 1e-9); return; }
        long wi = 0, gi = 0; for (long k = 0; k < b.j.nt; k++) { if (col.h[k] > col.h[wi]) wi = k; if (H[k] > H[gi]) gi = k; }
        c.state(&wi, sizeof wi); c.values++; c.triv = false;
        if (wi != gi) c.fail(fam + " element delay in a lossy medium", "peak at sample " + std::to_string(gi) + ", should be at " + std::to_string(wi));
      }});
    r.push_back({"element weight " + fam, {{"layout", (int)layouts().size()}, {"apod", 9}, {"par", 5}, {"alpha", 2}, {"points", 2}},
      [=](Ctx &c, const Idx &i) {
        static const double PAR[] = {0, 0.5, 1, 3.7, -0.6};
        JobBuf b = mk(fam, {0.2, 0.2}, {0.2001, 0.2001}, {0.02, 512}, 1, 1500, i[3] ? 1e-7 : 0);
        b.j.a = b.j.b = 0.21; b.j.R = 0.1026; b.j.Rcurv = 50;
        set_layout(b, layouts()[i[0]]); set_apod(b, i[1], PAR[i[2]]);
        // spread the elements in time so that each is seen on its own
        b.j.foc_met = ref::F_UD; b.focal.clear(); for (long e = 0; e < b.j.num_elements; e++) b.focal.push_back(1.0011 * e);
        set_points(b, {i[4] ? P3{1.3, -2.2, 8} : P3{0.1, 0.2, 20}}); set_delay(b, D_COMMON); check(c, b, i[3] ? 1e-6 : 1e-9, "element weight");
      }});
  }
  r.push_back({"annular delay", {{"rings", (int)RINGS.size()}, {"ring", 4}, {"focus", 6}, {"focal", (int)FOC.size()}, {"cp", 3}},
    [=](Ctx &c, const Idx &i) {
      JobBuf b = mk("arr_annu", APS[0], {0.11, 0.13}, {0.002, 2400}, 1, CPS[i[4]]);
      b.G = RINGS[i[0]]; b.j.num_elements = b.G.size(); long ne = (b.j.num_elements + 1) / 2;
      if (i[1] >= ne || (b.j.num_elements == 1 && b.G[0] == 0)) return c.skip();
      set_foc(b, i[2], FOC[i[3]]);
      b.j.do_apod = 1; b.j.apod_met = ref::A_UD; b.apod.assign(ne, 0.0); b.apod[i[1]] = 1;
      set_points(b, {{0.05, 0.02, 25}}); set_delay(b, D_COMMON); check(c, b, 1e-9, "annular ring delay");
    }});
  r.push_back({"annular weight", {{"rings", (int)RINGS.size()}, {"apod", 9}, {"par", 5}, {"focus", 2}},
    [=](Ctx &c, const Idx &i) {
      static const double PAR[] = {0, 0.5, 1, 3.7, -0.6};
      JobBuf b = mk("arr_annu", APS[0], {0.11, 0.13}, {0.01, 900}, 1, 1500);
      b.G = RINGS[i[0]]; b.j.num_elements = b.G.size(); long ne = (b.j.num_elements + 1) / 2;
      if (b.j.num_elements == 1 && b.G[0] == 0) return c.skip();
      set_apod(b, i[1], PAR[i[2]]);
      if (i[3]) { b.j.foc_met = ref::F_UD; b.focal.clear(); for (long e = 0; e < ne; e++) b.focal.push_back(1.003 * e); }
      set_points(b, {{0.05, 0.02, 25}, {1.7, -3, 11}}); set_delay(b, D_COMMON); check(c, b, 1e-9, "annular ring weight");
    }});
  return r;
}
// the laws of P05-P09 hold in an attenuating medium too (the library has a second copy of each routine for it)
static vector<Space> in_lossy(const vector<string> &fams) {
  vector<Space> r;
  static const vector<double> AL = {2.2, 1e-3, 40.0};
  static const vector<Ti> AT = {{0.05, 32}, {0.08, 21}, {0.04, 1}, {0.02, 64}};
  for (const string &fam : fams) {
    JobBuf t; t.fam = fam;
    if (t.is_arr()) r.push_back({"lossy " + fam, {{"layout", (int)layouts().size()}, {"focus", 6}, {"steer", 5}, {"apod", 9}, {"time", thorough ? 4 : 1}, {"delay", thorough ? D_N : 1}, {"alpha", thorough ? 3 : 1}, {"points", thorough ? 2 : 1}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk_arr(fam, i[0], 1, 0, 1, 1500, AL[i[6]]);
        b.j.dt = AT[i[4]].dt; b.j.nt = AT[i[4]].nt;
        set_foc(b, i[1], i[2] & 1 ? 6.1 : 31.0); set_steer(b, i[2]); set_apod(b, i[3], i[1] & 1 ? 0.4 : 2.3);
        if (i[0] & 1) { b.j.v = -1.7; b.j.cp = 2713; }
        set_points(b, point_sets()[i[7]]); set_delay(b, thorough ? i[5] : D_PER_POINT); check(c, b, 1e-7, "array response in a lossy medium");
      }});
    else if (fam == "arr_annu") r.push_back({"lossy " + fam, {{"rings", (int)RINGS.size()}, {"step", 2}, {"focus", 6}, {"apod", 9}, {"time", thorough ? 4 : 1}, {"delay", thorough ? D_N : 2}, {"alpha", thorough ? 3 : 2}, {"points", thorough ? 2 : 1}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b = mk(fam, APS[0], i[1] ? St{0.43, 0.29} : St{0.31, 0.47}, AT[i[4]], 1, 1500, AL[i[6]]);
        b.G = RINGS[i[0]]; b.j.num_elements = b.G.size();
        if (b.j.num_elements == 1 && b.G[0] == 0) return c.skip();
        set_foc(b, i[2], i[3] & 1 ? 4.1 : 37.0); set_apod(b, i[3], i[2] & 1 ? 0.4 : 2.3);
        if (i[0] & 1) { b.j.v = -1.7; b.j.cp = 2713; }
        set_points(b, point_sets()[i[7]]); set_delay(b, thorough ? i[5] : i[5] ? D_PER_POINT : D_COMMON); check(c, b, 1e-7, "annular response in a lossy medium");
      }});
    else r.push_back({"lossy " + fam, {{"aperture", (int)APS.size()}, {"step", 3}, {"time", thorough ? 4 : 2}, {"delay", thorough ? D_N : 2}, {"alpha", thorough ? 3 : 2}, {"shape", fam == "rect_f" || fam == "circ_f" ? 10 : fam == "sphere" || fam == "cylind" ? (int)RCS.size() : 1}, {"points", thorough ? (int)point_sets().size() : 2}},
      [=](Ctx &c, const Idx &i) {
        static const St LS[] = {{0.31, 0.47}, {0.43, 0.29}, {0.9, 0.7}};
        JobBuf b = mk(fam, APS[i[0]], LS[i[1]], AT[i[2]], i[0] & 1 ? -1.7 : 1, i[0] & 1 ? 2713 : 1500, AL[i[4]]);
        static const int M[] = {ref::F_NONE, ref::F_X, ref::F_Y, ref::F_XY, ref::F_X_Y};
        if (fam == "rect_f" || fam == "circ_f") { b.j.foc_met = M[i[5] % 5]; b.focal = {i[5] / 5 ? 5.3 : 31.0}; }
        if (fam == "sphere" || fam == "cylind") { b.j.Rcurv = RCS[i[5]]; if (fabs(b.j.Rcurv) <= b.j.b / 2 || fabs(b.j.Rcurv) <= b.j.R || b.j.dy >= fabs(b.j.Rcurv)) return c.skip(); }
        set_points(b, point_sets()[i[6]]); set_delay(b, thorough ? i[3] : i[3] ? D_PER_POINT : D_COMMON); check(c, b, 1e-7, "response in a lossy medium");
      }});
  }
  return r;
}
static vector<Space> operator+(vector<Space> a, const vector<Space> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static vector<Space> p11() {
  vector<Space> r;
  static const vector<double> AL = {0.5, 2.2, 20.0, 1e-3, 300.0};
  static const vector<Ti> AT = {{0.04, 16}, {0.1, 17}, {0.05, 1}, {0.05, 2}, {0.08, 3}, {0.02, 30}, {0.013, 97}, {0.04, 128}};
  for (const string &fam : all_families()) {
    JobBuf t; t.fam = fam;
    if (t.is_das() || t.is_conv() || fam == "rect_sir") continue;
    r.push_back({"lossy " + fam, {{"alpha", (int)AL.size()}, {"time", (int)AT.size()}, {"aperture", thorough ? 4 : 2}, {"delay", D_N}, {"medium", 2}, {"variant", 3}, {"points", thorough ? 5 : 3}},
      [=](Ctx &c, const Idx &i) {
        JobBuf b;
        Ap ap = i[2] == 0 ? Ap{1.0, 0.8} : i[2] == 1 ? Ap{1.9, 1.3} : i[2] == 2 ? Ap{0.4, 2.1} : Ap{3.1, 2.7};
        St st = i[2] == 3 ? St{0.61, 0.47} : St{0.31, 0.47};
        if (t.is_arr()) {
          b = mk_arr(fam, 2 + i[5], 1, 0, 1, 1500, AL[i[0]]);
          b.j.dt = AT[i[1]].dt; b.j.nt = AT[i[1]].nt; b.j.a = ap.a / 2; b.j.b = ap.b / 2; b.j.R = ap.a / 3; b.j.dx = st.dx; b.j.dy = st.dy;
          set_foc(b, i[5] == 0 ? 0 : i[5] == 1 ? 5 : 3, 30); set_steer(b, i[5]); set_apod(b, i[5] == 1 ? 8 : 0, 1);
        } else {
          b = mk(fam, ap, st, AT[i[1]], 1, 1500, AL[i[0]]);
          b.j.Rcurv = i[5] == 1 ? -9.7 : 11.3;
          static const int M[] = {ref::F_NONE, ref::F_X, ref::F_XY}; b.j.foc_met = M[i[5]]; b.focal = {17};
          if (fam == "arr_annu") { b.G = RINGS[1 + i[5]]; b.j.num_elements = b.G.size(); set_foc(b, i[5] == 0 ? 0 : i[5] == 1 ? 5 : 3, 30); set_apod(b, i[5] == 1 ? 8 : 0, 1); }
        }
        if (i[4]) { b.j.v = -1.9; b.j.cp = 3010; }
        set_points(b, point_sets()[i[6]]); set_delay(b, i[3]); check(c, b, 1e-8, "lossy response");
      }});
    // zero (and immeasurably small) attenuation is the lossless response; small changes of alpha are small changes of h
    r.push_back({"alpha limit " + fam, {{"alpha", 6}, {"points", 3}, {"nt", 3}},
      [=](Ctx &c, const Idx &i) {
        static const double A0[] = {0, 1e-18, 1e-9, 0.5, 7, 100};
        static const long NT[] = {16, 33, 64};
        JobBuf b = small_job(fam, 1, true, false, 1, {}, 0, NT[i[2]]);
        set_points(b, {point_sets()[i[1] == 2 ? 4 : i[1]][0]}); set_delay(b, D_COMMON);
        b.j.alpha = A0[i[0]];
        vector<double> H(b.j.nt, 0.0), G(b.j.nt, 0.0);
        b.run(drv(fam), H.data()); c.calls += 2; c.steps++;
        JobBuf g = b; g.j.alpha = i[0] < 3 ? 0 : A0[i[0]] * (1 + 1e-9); g.bind(); g.run(drv(fam), G.data());
        if (i[0] < 2) c.cmp(fam + " without attenuation is lossless", H.data(), G.data(), b.j.nt, 0);
        else c.cmp(fam + " is continuous in the attenuation", H.data(), G.data(), b.j.nt, 1e-5);
      }});
  }
  return r;
}

// P03 (serial part): the window slides over the whole response; every reporting level.
static vector<Space> p03() {
  vector<Space> r;
  for (const string &fam : all_families()) {
    JobBuf t; t.fam = fam;
    if (t.is_conv() || fam == "rect_sir") continue;
    r.push_back({"window " + fam, {{"level", 4}, {"slide", 40}, {"alpha", t.is_das() ? 1 : 2}, {"points", 3}, {"threads", 3}, {"variant", t.is_das() ? 4 : 2}},
      [=](Ctx &c, const Idx &i) {
        int lev = i[0] + 1; long No = i[3] + 1;
        JobBuf b = small_job(fam, No, i[2], true, lev, {}, i[5], 9);
        double span = t.is_das() ? b.j.a_scan_len * b.j.dtf : b.j.nt * b.j.dt;
        if (t.is_das()) {
          // the point n is moved; the others stay inside
          for (long n = 0; n < No; n++) { b.delay[n] = 0.413; b.Ro[2 * No + n] = 3 + n * 0.4; }
          b.delay[i[1] % No] = -10.017 + 0.61 * i[1]; (void)span;
        } else {
          b.delay.assign(No, 0.0); b.bind();
          vector<double> d;
          for (long n = 0; n < No; n++) d.push_back(first_arrival(b, n) - 1.63 * b.j.dt);
          // slide one point's window from "all too late" to "all too early"
          d[i[1] % No] += (i[1] - 25) * 0.53 * b.j.dt + 0.011 * b.j.dt;
          b.delay = d;
        }
        b.bind();
        static const char *TH[] = {"1", "2", "16"}; setenv("DREAM_NUM_THREADS", TH[i[4]], 1);
        bool oob = false, oamb = false; vector<double> want; vector<char> amb; vector<float> wf;
        for (long n = 0; n < No; n++) {
          if (t.is_das()) {
            ref::Pix p = fam == "das" ? ref::das_pixel<double>(b.j, n, 1e-9) : ref::das_pixel<float>(b.j, n, 1e-4);
            oob |= p.oob; oamb |= p.amb || p.edge; want.push_back(p.v); amb.push_back(p.amb || p.edge); c.steps += b.j.nt_el;
          } else {
            ref::Col q = ref::column(fam, b.j, n); if (q.grid_amb) { setenv("DREAM_NUM_THREADS", "2", 1); return c.skip(); }
            oob |= q.oob; oamb |= q.oob_amb; want.insert(want.end(), q.h.begin(), q.h.end()); amb.insert(amb.end(), q.amb.begin(), q.amb.end()); c.steps += q.cells;
          }
        }
        vector<char> out(b.outbytes() + 8, 0);
        int st = b.run(drv(fam), out.data()); c.calls++;
        setenv("DREAM_NUM_THREADS", "2", 1);
        int exp = 0;
        if (oob) exp = lev == 1 ? 1 : lev == 2 ? 2 : 3;   // SIRError: see below
        c.state(&exp, sizeof exp);
        static const char *NM[] = {"none", "warn_out_of_bounds", "ignore_out_of_bounds", "out_of_bounds"};
        (void)NM;
        if (!oamb || oob) {
          c.values++; if (oob) c.triv = false;
          bool nz = st != 0;
          if (nz != oob) c.fail(fam + (oob ? " does not report out of window" : " reports out of window for a response that fits"), "level " + std::to_string(lev) + " status " + std::to_string(st));
          // the status of a level is the one that level gives for a response entirely outside
          JobBuf z = small_job(fam, 1, i[2], false, lev, {1}, i[5], 9); if (!t.is_das()) { z.delay = {-1e4}; z.bind(); } else { z.delay = {1e4}; z.bind(); }
          vector<char> zo(z.outbytes() + 8, 0); int zs = z.run(drv(fam), zo.data());
          if (nz && zs != st && !c.failed) c.fail(fam + " status kind depends on what is outside", "level " + std::to_string(lev) + " status " + std::to_string(st) + " instead of " + std::to_string(zs));
        }
        if (lev <= 2 && !c.failed) {
          if (fam == "das_f") { vector<double> g(No); for (long n = 0; n < No; n++) g[n] = ((float *)out.data())[n]; c.cmp(fam + " in-window samples", g.data(), want.data(), No, 1e-5, amb.data(), 20); }
          else c.cmp(fam + " in-window samples", (double *)out.data(), want.data(), want.size(), 1e-8, amb.data());
        }
      }});
  }
  // single array elements (any of them) outside the window
  for (string fam : {"arr_rect", "arr_circ", "arr_cylind"})
    r.push_back({"outside elements " + fam, {{"level", 4}, {"late", 16}, {"early", 16}, {"alpha", 2}, {"threads", 2}},
      [=](Ctx &c, const Idx &i) {
        int lev = i[0] + 1;
        JobBuf b = small_job(fam, 2, i[3], false, lev, {}, 1, 24);
        set_layout(b, {{-0.7, -0.2, 0}, {0.1, 0.3, 0}, {0.6, 0.1, 0}, {0.2, -0.4, 0}}); b.apod = {0.5, 1, 0.25, 0.8};
        b.j.foc_met = ref::F_UD; b.focal.clear(); b.j.steer_met = 0;
        for (int e = 0; e < 4; e++) b.focal.push_back((i[1] >> e & 1) ? 50.0 : (i[2] >> e & 1) ? -50.0 : 0.013 * e);
        b.bind(); setenv("DREAM_NUM_THREADS", i[4] ? "2" : "1", 1);
        bool oob = i[1] || i[2];
        vector<double> H(24 * 2, 0.0), want; vector<char> amb;
        for (long n = 0; n < 2; n++) { ref::Col q = ref::column(fam, b.j, n); if (q.grid_amb || q.oob != oob || q.oob_amb) { setenv("DREAM_NUM_THREADS", "2", 1); return c.skip(); } want.insert(want.end(), q.h.begin(), q.h.end()); amb.insert(amb.end(), q.amb.begin(), q.amb.end()); c.steps += q.cells; }
        int st = b.run(drv(fam), H.data()); c.calls++; c.values++; setenv("DREAM_NUM_THREADS", "2", 1);
        if ((st != 0) != oob) c.fail(fam + " loses the status of some element", "level " + std::to_string(lev) + " status " + std::to_string(st));
        else if (lev <= 2) c.cmp(fam + " in-window samples", H.data(), want.data(), want.size(), 1e-8, amb.data());
      }});
  return r;
}

int main(int argc, char **argv) {
  if (argc < 4) return 3;
  g_dir = argv[1]; string prop = argv[2]; thorough = string(argv[3]) == "thorough";
  setenv("DREAM_NUM_THREADS", "2", 1);
  vector<Space> s;
  if (prop == "P03") s = p03(); else if (prop == "P05") s = p05() + in_lossy({"line", "rect", "circ"}); else if (prop == "P06") s = p06() + in_lossy({"rect_f", "circ_f"}); else if (prop == "P07") s = p07() + in_lossy({"sphere", "cylind"});
  else if (prop == "P08") s = p08() + in_lossy({"arr_rect", "arr_circ", "arr_cylind"}); else if (prop == "P09") s = p09() + in_lossy({"arr_annu"}); else if (prop == "P10") s = p10(); else if (prop == "P11") s = p11();
  else return 3;
  return en::run(argc - 3, argv + 3, s);
}
