// P21: the GPU code, host part and kernels, on the host-side OpenCL runtime of
// clrt.cc, called through the Octave front ends.   cl_enum OCTDIR CLDIR P21 TIER
#include "enumr.h"
#include "jobs.h"
#include "oct_host.h"
#include "sir2_ref.h"
#include "clrt.h"
#include <memory>
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;
using namespace sir2;

typedef vector<double> VD;
struct In { string fn; octave_value_list a; };
static OctHost *H;
struct Got { bool err = false; VD v; string why; long r = 0, c = 0; };
static Got call(const string &fn, const octave_value_list &a) {
  OctCall q = H->call(fn, a, 1);
  Got g; g.err = q.refused() || q.out.length() == 0; g.why = q.why();
  if (!g.err) { octave_value o = q.out(0); NDArray n = o.is_single_type() ? NDArray(o.float_array_value()) : o.array_value(); g.v.assign(n.data(), n.data() + n.numel()); g.r = o.rows(); g.c = o.columns(); }
  return g;
}
// One call with the work items in both orders.
static bool both(Ctx &c, const string &cls, const string &fn, const octave_value_list &a, Got &g) {
  clrt::State &s = clrt::st();
  s.bad.clear(); s.fail_at = -1; s.reverse = false;
  long live = s.live;
  g = call(fn, a); c.calls++;
  if (g.err) { c.fail(cls + " refused", "well-formed call is refused: " + g.why); return false; }
  s.reverse = true;
  Got b = call(fn, a); c.calls++;
  s.reverse = false;
  if (!s.bad.empty()) { c.fail(cls + " device", s.bad); return false; }
  if (b.err || b.v.size() != g.v.size() || memcmp(b.v.data(), g.v.data(), g.v.size() * 8)) { c.fail(cls + " order", "result depends on the order of the work items"); return false; }
  if (fn.substr(0, 3) != "das" && s.live != live) { c.fail(cls + " leak", std::to_string(s.live - live) + " device objects are not released"); return false; }
  return true;
}
static octave_value_list args(std::initializer_list<octave_value> l) { octave_value_list r; for (auto &v : l) r.append(v); return r; }
static octave_value mat(long r, long c, const VD &v, bool fl = false) { return fl ? octave_value(MF(r, c, v)) : octave_value(M(r, c, v)); }
static octave_value rowv(const VD &v, bool fl = false) { return mat(1, v.size(), v, fl); }
// the device string is only given where it is not the default
static double mix(long k) { return sin(12.9898 * k + 0.7) * 3 + (k % 11 == 0 ? 2 : 0); }

// ---- pistons
static const long NOS[] = {1, 3, 64, 130};
static void points(JobBuf &b, long No, double R, double zs) {
  Job &j = b.j; j.No = No; b.Ro.resize(3 * No);
  static const double X[] = {0, 0.31, -1.2, 4.4, -7.3}, Z[] = {10, 2.3, 31, 0.7};
  for (long n = 0; n < No; n++) { b.Ro[n] = X[n % 5] * R; b.Ro[No + n] = X[(n / 5 + 2 * n + 1) % 5] * R; b.Ro[2 * No + n] = Z[n % 4] * zs + 0.011 * n; }
}
struct Tm { double dt; long nt; };
static const Tm TM[] = {{0.05, 300}, {0.0125, 700}, {0.5, 60}, {1, 1}, {0.02, 2}};
static void delays(JobBuf &b, int k, double z) {
  Job &j = b.j; double t0 = z * 1000 / j.cp;
  j.delay_multi = k == 3; b.delay.clear();
  if (k < 3) b.delay = {k == 0 ? 0 : k == 1 ? t0 - 3.25 * j.dt : -1.75 * j.dt};
  else for (long n = 0; n < j.No; n++) b.delay.push_back((n % 3) * t0 / 2 - 2.3 * j.dt);
}
static octave_value_list piston_args(const JobBuf &b) {
  const Job &j = b.j;
  octave_value_list a;
  a.append(mat(j.No, 3, b.Ro));
  if (b.fam == "circ") a.append(octave_value(j.R)); else a.append(rowv({j.a, j.b}));
  if (b.fam == "rect_sir") a.append(rowv({j.dt, (double)j.nt})); else a.append(rowv({j.dx, j.dy, j.dt, (double)j.nt}));
  a.append(b.j.delay_multi ? mat(b.delay.size(), 1, b.delay) : octave_value(b.delay[0]));
  a.append(b.fam == "rect_sir" ? rowv({j.v, j.cp}) : rowv({j.v, j.cp, j.alpha}));
  if (b.fam != "rect_sir") a.append(octave_value("ignore"));
  a.append(octave_value("gpu"));
  return a;
}
static void piston_case(Ctx &c, JobBuf &b, const string &fn) {
  Job &j = b.j; b.bind();
  Got g;
  string cls = fn + (j.alpha > 0 ? " with attenuation" : j.delay_multi ? " with one delay per point" : "");
  if (!both(c, cls, fn, piston_args(b), g)) return;
  if (g.r != j.nt || g.c != j.No) { c.fail(cls + " shape", ""); return; }
  for (long n = 0; n < j.No && !c.failed; n++) {
    ref::Col w = ref::column(b.fam, j, n); c.steps += w.cells;
    if (w.grid_amb) continue;
    c.cmp(cls, &g.v[n * j.nt], w.h.data(), j.nt, 1e-9, w.amb.data());
  }
}

// ---- delay and sum
static const double LAY[][8] = {{-1.5, -0.5, 0.5, 1.5, 2.5, 3.5, 4.5, 5.5}, {-2.2, -0.1, 0.05, 1.9, 2.4, 2.9, 5, 5.1}, {0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1}};
static const char *TY[] = {"saft", "tfm", "rca_coltx", "rca_rowtx"};
static const double MED[][3] = {{0.5, 1500, 48}, {0.1, 1500, 200}, {1.0, 343, 60}, {0.04, 5900, 37}};
static void das_data(JobBuf &b) { Job &j = b.j; long scans = j.nt_el * (j.nr_el && j.das_type ? j.nr_el : 1); b.Yd.clear(); for (long k = 0; k < scans * j.a_scan_len; k++) b.Yd.push_back(mix(k + 7)); }
static void das_job(JobBuf &b, int type, long Nt, long Nr, int lay, int tilt, int med, long No, int del, bool fl) {
  b.fam = fl ? "das_f" : "das"; Job &j = b.j;
  j.das_type = type; j.nt_el = Nt; j.nr_el = Nr;
  j.dtf = MED[med][0]; j.cpf = MED[med][1]; j.a_scan_len = (long)MED[med][2];
  for (int w = 0; w < 2; w++) {
    long n = w ? Nr : Nt; VD x(n), y(n), z(n);
    for (long k = 0; k < n; k++) {
      double p = LAY[w ? (lay + 1) % 3 : lay][k] + (w ? 0.21 : 0);
      if (w && type >= 2) { y[k] = p; x[k] = 0; } else { x[k] = p; y[k] = 0; }
      if (tilt == 1) z[k] = 0.13 * k - 0.2;
      if (tilt == 2) { (w && type >= 2 ? x[k] : y[k]) = 0.4 * k - 0.7; z[k] = -0.3; }
    }
    VD &G = w ? b.Grd : b.Gtd;
    for (auto *v : {&x, &y, &z}) G.insert(G.end(), v->begin(), v->end());
  }
  das_data(b);
  double R = j.a_scan_len * j.dtf * j.cpf / 2000;
  static const double FX[] = {0, 0.31, -0.77, 1.9, -2.6, 0.05, 3.3}, FY[] = {0, 0.4, -0.2, 1.2, -1.8, 0, 2.7}, FZ[] = {0.3, 0.55, 0.05, 0.97, 1.05, 0.12};
  j.No = No; b.Ro.resize(3 * No);
  for (long n = 0; n < No; n++) { b.Ro[n] = FX[n % 7]; b.Ro[No + n] = FY[(n / 7 + lay + n) % 7]; b.Ro[2 * No + n] = FZ[n % 6] * R + 0.003 * n; }
  j.delay_multi = del == 3;
  if (del < 3) b.delay = {del == 0 ? 0 : del == 1 ? 2.3 * j.dtf : -3.6 * j.dtf};
  else for (long n = 0; n < No; n++) b.delay.push_back((n % 5) * 1.37 * j.dtf);
  j.err_level = 1;
}
static octave_value_list das_args(const JobBuf &b, const char *type, bool gpu) {
  const Job &j = b.j; bool fl = b.fam == "das_f";
  long scans = b.Yd.size() / j.a_scan_len;
  octave_value_list a = args({mat(j.a_scan_len, scans, b.Yd, fl), mat(j.nt_el, 3, b.Gtd, fl), j.nr_el ? mat(j.nr_el, 3, b.Grd, fl) : mat(0, 0, {}, fl), mat(j.No, 3, b.Ro, fl),
                              mat(1, 1, {j.dtf}, fl), mat(b.delay.size(), 1, b.delay, fl), mat(1, 1, {j.cpf}, fl), octave_value(type), octave_value("ignore")});
  if (gpu) a.append(octave_value("gpu"));
  return a;
}
static void das_check(Ctx &c, const string &cls, JobBuf &b, const Got &g) {
  Job &j = b.j; bool fl = b.fam == "das_f"; b.bind();
  if (g.r * g.c != j.No) { c.fail(cls + " shape", std::to_string(g.r) + "x" + std::to_string(g.c) + ", should have " + std::to_string(j.No)); return; }
  VD want(j.No); vector<char> amb(j.No);
  for (long n = 0; n < j.No; n++) { ref::Pix p = fl ? ref::das_pixel<float>(j, n, 1e-5) : ref::das_pixel<double>(j, n, 1e-10); want[n] = p.v; amb[n] = p.amb || p.edge; c.steps++; }
  c.cmp(cls, g.v.data(), want.data(), j.No, fl ? 1e-5 : 1e-12, amb.data(), 1);
}
// uniform grids: first, step, last
struct Ax { double lo, d; long n; };
static const Ax EL[] = {{-1.5, 1, 4}, {0, 0.1, 4}, {-0.35, 0.07, 11}, {0.2, 0.5, 1}, {-2.4, 0.6, 9}, {0, 0.3, 2}};
static const Ax IX[] = {{-2, 0.5, 8}, {0, 0.1, 4}, {0.3, 1, 1}, {-0.7, 0.7, 3}}, IZ[] = {{1, 2.5, 8}, {0.5, 0.1, 8}, {0.9, 0.3, 5}, {7, 1, 1}};
static void uni_job(JobBuf &b, int type, const Ax &t, const Ax &r, const Ax &x, const Ax &y, const Ax &z, int med, double dl, bool fl) {
  b.fam = fl ? "das_f" : "das"; Job &j = b.j;
  j.das_type = type; j.nt_el = t.n; j.nr_el = type ? r.n : 0;
  j.dtf = MED[med][0]; j.cpf = MED[med][1]; j.a_scan_len = (long)MED[med][2];
  auto line = [&](VD &G, const Ax &a, bool alongy) { G.assign(3 * a.n, 0.0); for (long k = 0; k < a.n; k++) G[(alongy ? a.n : 0) + k] = a.lo + k * a.d; };
  line(b.Gtd, t, false); if (type) line(b.Grd, r, type >= 2);
  das_data(b);
  j.No = x.n * y.n * z.n; b.Ro.resize(3 * j.No);
  long n = 0;
  for (long ix = 0; ix < x.n; ix++) for (long iz = 0; iz < z.n; iz++) for (long iy = 0; iy < y.n; iy++, n++) { b.Ro[n] = x.lo + ix * x.d; b.Ro[j.No + n] = y.lo + iy * y.d; b.Ro[2 * j.No + n] = z.lo + iz * z.d; }
  b.delay = {dl}; j.delay_multi = 0;
}
static octave_value_list uni_args(const JobBuf &b, const Ax &t, const Ax &r, const Ax &x, const Ax &y, const Ax &z, const VD &delay) {
  const Job &j = b.j; bool fl = b.fam == "das_f";
  auto l = [](const Ax &a) { return a.lo + (a.n - 1) * a.d; };
  return args({mat(j.a_scan_len, b.Yd.size() / j.a_scan_len, b.Yd, fl), rowv({t.lo, t.d, l(t)}, fl), j.das_type ? rowv({r.lo, r.d, l(r)}, fl) : mat(0, 0, {}, fl),
               mat(3, 3, {x.lo, y.lo, z.lo, x.d, y.d, z.d, l(x), l(y), l(z)}, fl), mat(1, 1, {j.dtf}, fl), mat(delay.size(), 1, delay, fl), mat(1, 1, {j.cpf}, fl), octave_value(TY[j.das_type])});
}

// ---- calls for histories and fault injection
struct Kind { string fn, name; std::function<octave_value_list()> a; std::function<void(Ctx &, const string &, const Got &)> check; bool gpu; };
static vector<Kind> kinds() {
  vector<Kind> k;
  auto das = [&](int type, long Nt, long Nr, int med, long No, bool fl, bool gpu, const char *ty = nullptr) {
    auto b = std::make_shared<JobBuf>(); das_job(*b, type, Nt, Nr, 1, 0, med, No, 1, fl);
    string t = ty ? ty : TY[type];
    k.push_back({"das", string(fl ? "single " : "") + t + (gpu ? " gpu " : " cpu ") + std::to_string(Nt) + "," + std::to_string(Nr) + "," + std::to_string(No), [b, t, gpu]() { return das_args(*b, t.c_str(), gpu); },
                 [b](Ctx &c, const string &cls, const Got &g) { das_check(c, cls, *b, g); }, gpu});
  };
  das(1, 3, 2, 0, 64, false, true); das(1, 3, 2, 0, 64, false, false); das(0, 3, 0, 0, 64, false, true); das(2, 3, 2, 0, 64, false, true);
  das(1, 2, 3, 0, 64, false, true); das(1, 3, 2, 0, 128, false, true); das(1, 3, 2, 0, 64, true, true); das(1, 3, 2, 1, 64, false, true);
  das(3, 3, 2, 0, 64, true, true); das(0, 3, 0, 0, 64, true, false);
  auto uni = [&](int type, int t, int r, bool fl, int med, int x = 0) {
    auto b = std::make_shared<JobBuf>(); uni_job(*b, type, EL[t], EL[r], IX[x], IX[2], IZ[0], med, 0.4, fl);
    k.push_back({"das_uni", string("uniform ") + (fl ? "single " : "") + TY[type] + std::to_string(t) + std::to_string(r) + std::to_string(med) + std::to_string(x), [b, t, r, x]() { return uni_args(*b, EL[t], EL[r], IX[x], IX[2], IZ[0], {0.4}); },
                 [b](Ctx &c, const string &cls, const Got &g) { das_check(c, cls, *b, g); }, true});
  };
  uni(1, 0, 4, false, 0); uni(1, 4, 0, false, 0); uni(0, 0, 0, false, 0); uni(3, 0, 4, true, 0); uni(1, 0, 4, false, 1); uni(1, 0, 4, true, 0); uni(2, 0, 4, false, 0, 3);
  for (const char *fn : {"dreamrect", "dreamcirc", "rect_sir"}) {
    auto b = std::make_shared<JobBuf>(); b->fam = string(fn) == "dreamrect" ? "rect" : string(fn) == "dreamcirc" ? "circ" : "rect_sir";
    Job &j = b->j; j.a = 3; j.b = 2; j.R = 2; j.dx = j.dy = 0.23; j.dt = 0.05; j.nt = 300; j.v = 1.5; j.cp = 1500;
    points(*b, 64, 2, 1); delays(*b, 0, 10); b->bind();
    string f = fn;
    k.push_back({f, f, [b]() { return piston_args(*b); }, [b, f](Ctx &c, const string &cls, const Got &g) {
      const Job &j = b->j;
      if (g.r != j.nt || g.c != j.No) { c.fail(cls + " shape", ""); return; }
      if (f == "rect_sir") return;
      for (long n = 0; n < j.No && !c.failed; n++) { ref::Col w = ref::column(b->fam, j, n); if (!w.grid_amb) c.cmp(cls, &g.v[n * j.nt], w.h.data(), j.nt, 1e-9, w.amb.data()); }
    }, true});
  }
  return k;
}

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  bool th = string(argv[4]) == "thorough";
  setenv("DREAM_CL_KERNELS", argv[2], 1);
  setenv("DREAM_NUM_THREADS", "2", 1);
  std::unique_ptr<OctHost> host;
  try { host.reset(new OctHost(argv[1])); } catch (const std::exception &e) { fprintf(stderr, "octave: %s\n", e.what()); return 3; }
  H = host.get();
  if (string(argv[3]) != "P21") return 3;
  vector<Space> s;
  static const double AP[][2] = {{3, 2}, {1, 4.03}, {0.4, 0.4}, {7, 0.3}}, ST[][2] = {{0.23, 0.17}, {0.41, 0.41}, {0.09, 0.5}}, V[] = {1, -2.5}, CP[] = {1500, 343};
  static const double ZS[] = {1, 0.2, 3.1};
  for (int circ = 0; circ < 2; circ++)
    s.push_back({circ ? "dreamcirc" : "dreamrect", {{"aperture", 4}, {"step", 3}, {"time", 5}, {"delay", 4}, {"points", 4}, {"depth", th ? 3 : 2}, {"v", 2}, {"cp", 2}, {"alpha", 2}}, [circ](Ctx &c, const Idx &i) {
      if (i[8] && (i[2] > 2 || i[4] > 1 || i[1] != 1 || i[5] || i[0] > 1)) { c.skip(); return; }
      JobBuf b; b.fam = circ ? "circ" : "rect"; Job &j = b.j;
      j.a = AP[i[0]][0]; j.b = AP[i[0]][1]; j.R = AP[i[0]][0] / 2; j.dx = ST[i[1]][0]; j.dy = ST[i[1]][1]; j.dt = TM[i[2]].dt; j.nt = TM[i[2]].nt; j.v = V[i[6]]; j.cp = CP[i[7]]; j.alpha = i[8] ? 2.5 : 0;
      if (i[8]) j.nt = std::min(j.nt, 60L);
      points(b, NOS[i[4]], j.a / 2, ZS[i[5]]);
      delays(b, i[3], b.Ro[2 * j.No]);
      piston_case(c, b, circ ? "dreamcirc" : "dreamrect");
    }});
  static const double AS[][2] = {{6, 5}, {1, 12}, {0.25, 0.25}, {16, 2}, {10, 10}}, FX[] = {0, 0.17, 0.5, 0.83, 2.9}, Z[] = {10, 0.4, 0, 73.1, 2};
  static const double SG[][2] = {{1, 1}, {-1, 1}, {1, -1}, {-1, -1}};
  static const Tm T2[] = {{0.05, 240}, {0.0125, 400}, {0.5, 60}, {1, 1}, {0.003, 2}};
  s.push_back({"rect_sir", {{"aperture", 5}, {"x", 5}, {"y", 5}, {"z", 5}, {"time", 5}, {"delay", 4}, {"v", th ? 2 : 1}, {"cp", th ? 2 : 1}}, [](Ctx &c, const Idx &i) {
    JobBuf b; b.fam = "rect_sir"; Job &j = b.j;
    j.a = AS[i[0]][0]; j.b = AS[i[0]][1]; j.dt = T2[i[4]].dt; j.nt = T2[i[4]].nt; j.v = V[1 - i[6]]; j.cp = CP[i[7]]; j.No = 4;
    b.Ro.resize(12);
    for (int k = 0; k < 4; k++) { b.Ro[k] = SG[k][0] * FX[i[1]] * j.a; b.Ro[4 + k] = SG[k][1] * FX[i[2]] * j.b; b.Ro[8 + k] = Z[i[3]]; }
    double t0 = Z[i[3]] * 1000 / j.cp;
    j.delay_multi = i[5] == 2;
    if (i[5] == 0) b.delay = {0}; else if (i[5] == 1) b.delay = {t0 - 3.25 * j.dt}; else if (i[5] == 2) for (int k = 0; k < 4; k++) b.delay.push_back(t0 + (k * 1.5 - 2) * j.dt); else b.delay = {-1.75 * j.dt};
    Got g; string cls = string("rect_sir") + (j.delay_multi ? " with one delay per point" : "");
    if (!both(c, cls, "rect_sir", piston_args(b), g)) return;
    if (g.r != j.nt || g.c != j.No) { c.fail(cls + " shape", ""); return; }
    for (int k = 0; k < 4 && !c.failed; k++) {
      VD w(j.nt), tl(j.nt);
      for (long n = 0; n < j.nt; n++) {
        double ct = (n * j.dt + b.delay[j.delay_multi ? k : 0]) * j.cp / 1000;
        exact([&](double q) { return frac_rect(b.Ro[k], b.Ro[4 + k], j.a, j.b, q); }, ct, Z[i[3]], j.v * j.cp, w[n], tl[n]); c.steps++;
      }
      compare(c, cls, &g.v[k * j.nt], w, tl);
    }
  }});
  for (int fl = 0; fl < 2; fl++)
    s.push_back({fl ? "das single" : "das", {{"type", 4}, {"Nt", th ? 7 : 4}, {"Nr", th ? 8 : 5}, {"layout", 3}, {"tilt", 3}, {"delay", 4}, {"medium", th ? 4 : 2}, {"points", th ? 4 : 3}}, [fl, th](Ctx &c, const Idx &i) {
      if (i[0] == 0 && i[2] > 1) { c.skip(); return; }
      if (i[0] > 1 && i[2] == 0) { c.skip(); return; }
      JobBuf b; das_job(b, i[0], i[1] + 1, i[2], i[3], i[4], i[6], NOS[i[7]], i[5], fl);
      Got g; string cls = string("das ") + (fl ? "single " : "") + TY[i[0]] + (b.j.nr_el == 0 && i[0] ? " without receivers" : "") + (b.j.delay_multi ? " with one delay per point" : "");
      if (!both(c, cls, "das", das_args(b, TY[i[0]], true), g)) return;
      das_check(c, cls, b, g);
    }});
  for (int fl = 0; fl < 2; fl++)
    s.push_back({fl ? "das_uni single" : "das_uni", {{"type", 7}, {"t", 6}, {"r", 6}, {"x", 4}, {"y", 4}, {"z", 4}, {"medium", th ? 4 : 1}, {"delay", th ? 4 : 3}}, [fl](Ctx &c, const Idx &i) {
      int type = i[0] < 4 ? i[0] : 0; // 4, 5, 6: the other methods without receivers
      if (type == 0 && i[2]) { c.skip(); return; }
      bool vec = i[7] == 0;
      if (vec && (i[1] + i[2]) % 3) { c.skip(); return; }
      JobBuf b; double dl = i[7] * 0.37 - 0.47; int med = (i[6] + i[3] + i[1]) % 4;
      uni_job(b, type, EL[i[1]], EL[i[2]], IX[i[3]], IX[i[4]], IZ[i[5]], med, dl, fl);
      if (vec) { b.delay.clear(); b.j.delay_multi = 1; for (long n = 0; n < b.j.No; n++) b.delay.push_back((n % 5) * 1.37 * b.j.dtf); }
      Got g; string cls = string("das_uni ") + (fl ? "single " : "") + TY[type] + (i[0] > 3 ? string(" from ") + TY[i[0] - 3] + " without receivers" : "") + (vec && b.j.No > 1 ? " with one delay per point" : "");
      octave_value_list a = uni_args(b, EL[i[1]], EL[i[2]], IX[i[3]], IX[i[4]], IZ[i[5]], b.delay);
      if (i[0] > 3) a(7) = octave_value(TY[i[0] - 3]);
      if (!both(c, cls, "das_uni", a, g)) return;
      das_check(c, cls, b, g);
    }});
  static vector<Kind> K = kinds();
  int n = K.size();
  auto hist = [](Ctx &c, const vector<int> &seq) {
    clrt::st().fail_at = -1; clrt::st().bad.clear();
    string d;
    for (int k : seq) {
      d += (d.empty() ? "" : " then ") + K[k].name;
      Got g = call(K[k].fn, K[k].a()); c.calls++;
      if (g.err) { c.fail("call in a history is refused", d + ": " + g.why); return; }
      K[k].check(c, "history", g);
      if (!clrt::st().bad.empty()) c.fail("history device", d + ": " + clrt::st().bad);
      if (c.failed) { c.fail("history", d); return; }
    }
  };
  s.push_back({"call histories", {{"first", n}, {"second", n}, {"third", n}}, [hist](Ctx &c, const Idx &i) { hist(c, {i[0], i[1], i[2]}); }});
  if (th) s.push_back({"longer call histories", {{"first", 17}, {"second", 17}, {"third", 17}, {"fourth", 17}}, [hist](Ctx &c, const Idx &i) { hist(c, {i[0], i[1], i[2], i[3]}); }});
  // one failing OpenCL call at every position, in a fresh state and after a successful call of the same kind
  s.push_back({"failing OpenCL calls", {{"kind", n}, {"position", 64}, {"warm", 2}, {"next", 2}}, [n](Ctx &c, const Idx &i) {
    const Kind &k = K[i[0]];
    if (!k.gpu) { c.skip(); return; }
    clrt::State &S = clrt::st();
    S.fail_at = -1; S.bad.clear();
    // leave the previous case's cached objects behind
    call("das", K[9].a()); call("das_uni", K[13].a());
    if (i[2]) call(k.fn, k.a());
    S.calls = 0; S.failed.clear(); S.fail_at = i[1] + 1;
    Got g = call(k.fn, k.a()); c.calls++;
    string f = S.failed; S.fail_at = -1;
    if (f.empty()) { c.skip(); return; }
    c.state(f.data(), f.size()); c.triv = false; c.values++;
    // a call whose only effect is to flush or finish may be ignored if the result is right
    if (!g.err) {
      if (f == "clFinish" || f == "clFlush") k.check(c, k.fn + " when " + f + " fails", g);
      else { c.fail(k.fn + " when " + f + " fails", "returns a result although " + f + " failed (" + k.name + ")"); return; }
    } else if (g.why.find("C++ exception") == 0) { c.fail(k.fn + " when " + f + " fails", "ends with an uncaught exception, which ends the Octave session: " + g.why); return; }
    S.bad.clear();
    const Kind &nx = i[3] ? K[(i[0] + 1) % n] : k;
    Got h = call(nx.fn, nx.a()); c.calls++;
    if (h.err) { c.fail("call after a failed call", nx.name + " is refused after " + f + " failed in " + k.name + ": " + h.why); return; }
    nx.check(c, "call after a failed call", h);
    if (!S.bad.empty()) c.fail("call after a failed call", S.bad);
  }});
  // what the uniform-grid front end must refuse
  s.push_back({"refused", {{"type", 4}, {"what", 6}, {"single", 2}}, [](Ctx &c, const Idx &i) {
    JobBuf b; uni_job(b, i[0], EL[0], EL[4], IX[0], IX[2], IZ[0], 0, 0.4, i[2]);
    octave_value_list a = uni_args(b, EL[0], EL[4], IX[0], IX[2], IZ[0], {0.4});
    long scans = b.Yd.size() / b.j.a_scan_len;
    string w;
    auto Y = [&](long n) { VD y(b.j.a_scan_len * n, 1.0); a(0) = mat(b.j.a_scan_len, n, y, i[2]); };
    if (i[1] == 0) { Y(scans - 1); w = "too few data columns"; }
    if (i[1] == 1) { Y(scans + 1); w = "too many data columns"; }
    if (i[1] == 2) { Y(1); w = "one data column"; }
    if (i[1] == 3) { a(5) = mat(3, 1, {0.1, 0.2, 0.3}, i[2]); w = "three delays"; }
    if (i[1] == 4) { a(1) = rowv({0, 1}, i[2]); w = "two element numbers"; }
    if (i[1] == 5) { a(7) = octave_value("nope"); w = "unknown method"; }
    Got g = call("das_uni", a); c.calls++; c.triv = false; c.values++;
    c.state(w.data(), w.size());
    if (!g.err) { c.fail(string("das_uni accepts ") + w, TY[i[0]]); return; }
    if (g.why.find("C++ exception") == 0) { c.fail(string("das_uni exception for ") + w, g.why); return; }
    octave_value_list good = uni_args(b, EL[0], EL[4], IX[0], IX[2], IZ[0], {0.4});
    Got h = call("das_uni", good); c.calls++;
    if (h.err) c.fail("call after a refused call", h.why); else das_check(c, "call after a refused call", b, h);
  }});
  int rc = en::run(argc - 4, argv + 4, s);
  fflush(stdout);
  _exit(rc);
}
