// Helper functions of m_files in the embedded Octave, bounded-exhaustive.   m_enum MDIR PROP TIER ...
#include "enumr.h"
#include "oct_host.h"
#include <memory>
using std::string; using std::vector; using en::Ctx; using en::Idx; using en::Space;
typedef vector<double> Vec;

// Del Grosso 1974, pressure in kg/cm2; *slack: what the printed digits of the unit factors can move
static double del_grosso(double T, double P, double S, double *slack) {
  double pterms[] = {0.156059257041 * P, 0.244998688441e-4 * P * P, -0.883392332513e-8 * P * P * P, 0.635191613389e-2 * T * P, 0.265484716608e-7 * T * T * P * P, -0.159349479045e-5 * T * P * P,
                     0.522116437235e-9 * T * P * P * P, -0.438031096213e-6 * T * T * T * P, -0.161674495909e-8 * S * S * P * P, 0.485639620015e-5 * T * S * S * P, -0.340597039004e-3 * T * S * P};
  double c = 1402.392 + 5.01109398873 * T - 0.0550946843172 * T * T + 0.000221535969240 * T * T * T + 1.32952290781 * S + 0.000128955756844 * S * S - 0.0127562783426 * T * S + 0.968403156410e-4 * T * T * S;
  *slack = 1e-9;
  for (double p : pterms) { c += p; *slack += fabs(p) * 1.2e-4; }
  return c;
}
static string cased(const string &s, int how) { string o = s; for (size_t i = 0; i < o.size(); i++) o[i] = how == 0 ? o[i] : how == 1 ? toupper(o[i]) : how == 2 ? tolower(o[i]) : i % 2 ? toupper(o[i]) : tolower(o[i]); return o; }

int main(int argc, char **argv) {
  if (argc < 4) return 3;
  bool th = string(argv[3]) == "thorough";
  std::unique_ptr<OctHost> host;
  try { host.reset(new OctHost(argv[1])); } catch (const std::exception &e) { fprintf(stderr, "octave: %s\n", e.what()); return 3; }
  OctHost *h = host.get();
  static const char *UN[] = {"Pa", "bar", "at", "atm", "mmHg", "psi"};
  static const double KG[] = {1.0 / 98066.5, 1e5 / 98066.5, 1, 101325 / 98066.5, 133.322387415 / 98066.5, 6894.757293168 / 98066.5};
  vector<Space> s;
  int NT = th ? 14 : 8, NP = th ? 9 : 6, NS = th ? 7 : 5;
  // units 0-5 spelled in four ways, 6: no unit (Pa), 7: no pressure (1 atm), 8: unknown unit (announced, then Pa)
  s.push_back({"h2o_soundspeed", {{"T", NT}, {"P", NP}, {"unit", 9}, {"spelling", 4}, {"S", NS + 1}, {"shape", 7}}, [=](Ctx &c, const Idx &i) {
    static const double TT[] = {0, 4, 20, 25.5, 37, 60, 95, 0.01, 10, 15, 50, 80, 100, 30}, PP[] = {1.0332, 0, 2, 10, 100, 1000, 0.5, 500, 50}, SS[] = {35, 0, 1, 10, 42, 20, 5};
    int u = i[2], sh = i[5];
    bool noS = i[4] == NS;
    if ((u >= 6 && i[3]) || (u == 7 && i[1]) || (u >= 6 && u <= 7 && !noS)) { c.skip(); return; }
    long r = sh == 0 || sh >= 4 ? 1 : sh == 1 ? 1 : sh == 2 ? 3 : 2, q = sh == 0 || sh >= 4 ? 1 : sh == 1 ? 3 : sh == 2 ? 1 : 3;
    // shapes 0-3: scalar, row, column, matrix temperatures (everything else scalar); 4: T and S rows; 5: T and P columns; 6: all of them matrices
    if (sh >= 4) { r = sh == 4 ? 1 : sh == 5 ? 3 : 2; q = sh == 4 ? 3 : sh == 5 ? 1 : 2; }
    if ((sh == 4 || sh == 6) && noS) { c.skip(); return; }
    if ((sh == 5 || sh == 6) && u == 7) { c.skip(); return; }
    long n = r * q;
    double factor = u < 6 ? KG[u] : KG[0];
    Vec T(n), S(n), P(n), want(n), slack(n);
    for (long k = 0; k < n; k++) {
      T[k] = TT[(i[0] + 3 * k) % NT]; S[k] = noS ? 0 : SS[(i[4] + (sh == 4 || sh == 6 ? 2 * k : 0)) % NS];
      double kg = u == 7 ? 101325 / 98066.5 : PP[(i[1] + (sh == 5 || sh == 6 ? k : 0)) % NP];
      P[k] = kg / factor;
      want[k] = del_grosso(T[k], kg, S[k], &slack[k]);
    }
    auto arg = [&](const Vec &v, bool vec) { return vec && n > 1 ? octave_value(M(r, q, v)) : octave_value(v[0]); };
    octave_value_list a;
    a(0) = arg(T, true);
    if (u != 7) a(1) = arg(P, sh == 5 || sh == 6);
    if (u < 6) a(2) = cased(UN[u], i[3]);
    if (u == 8) a(2) = "furlong";
    if (!noS) a(3) = arg(S, sh == 4 || sh == 6);
    OctCall o = h->call("h2o_soundspeed", a, 1);
    c.calls++; c.steps++;
    string who = "h2o_soundspeed" + string(noS ? "" : " with salinity") + (u < 6 ? string(" in ") + UN[u] : u == 8 ? " unknown unit" : " default");
    if (o.error || o.out.length() != 1) { c.fail(who + " fails", o.msg); return; }
    if (u == 8 && o.text.size() < 5) { c.fail(who + " not announced", ""); return; }
    if (u != 8 && o.text.size()) { c.fail(who + " prints", o.text); return; }
    Matrix m = o.out(0).matrix_value();
    if (m.rows() != r || m.cols() != q) { c.fail(who + " returns the wrong size", std::to_string(m.rows()) + "x" + std::to_string(m.cols())); return; }
    c.triv = false; c.validated++;
    for (long k = 0; k < n; k++) {
      c.values++;
      if (!(fabs(m.data()[k] - want[k]) <= slack[k])) { c.fail(who, "T=" + en::S(T[k]) + " P=" + en::S(P[k]) + " S=" + en::S(S[k]) + ": " + en::S(m.data()[k]) + " instead of " + en::S(want[k])); return; }
    }
    c.state(want.data(), n * sizeof(double));
  }});
  s.push_back({"arr_focus_delays", {{"elements", 8}, {"layout", 5}, {"focus", th ? 12 : 8}, {"angle", th ? 11 : 7}, {"cp", 3}, {"column", 2}}, [=](Ctx &c, const Idx &i) {
    static const double FO[] = {20, -20, 3, -3, 150, -150, 0.1, -1, 55, -55, 1e4, -1e4}, AN[] = {0, 10, -10, 45, -45, 60, -72, 1, -1, 85, 30}, CP[] = {1500, 343, 6000};
    long L = i[0] + 1;
    Vec gx(L);
    for (long n = 0; n < L; n++) gx[n] = i[1] == 0 ? (n - (L - 1) / 2.0) * 0.7 : i[1] == 1 ? 5 + 0.4 * n : i[1] == 2 ? -(n * n) * 0.3 : i[1] == 3 ? ((n * 5) % 8) * 1.1 - 3 : -40 + 13.0 * n;
    double foc = FO[i[2]], ang = AN[i[3]], cp = CP[i[4]], x = foc * tan(ang * M_PI / 180);
    octave_value_list a;
    a(0) = i[5] ? M(L, 1, gx) : row(gx); a(1) = cp; a(2) = foc; a(3) = ang;
    OctCall o = h->call("arr_focus_delays", a, 1);
    c.calls++; c.steps++;
    string who = string("arr_focus_delays ") + (foc < 0 ? "with a virtual source" : "focused");
    if (o.error || o.out.length() != 1) { c.fail(who + " fails", o.msg); return; }
    Matrix m = o.out(0).matrix_value();
    if (m.numel() != L || m.cols() != 1) { c.fail(who + " returns the wrong size", ""); return; }
    Vec r(L); double mx = 0, mn = 1e300;
    for (long n = 0; n < L; n++) { r[n] = hypot(x - gx[n], foc); mx = std::max(mx, r[n]); mn = std::min(mn, r[n]); }
    Vec want(L);
    for (long n = 0; n < L; n++) want[n] = (foc < 0 ? r[n] - mn : mx - r[n]) * 1000 / cp;
    c.triv = false; c.validated++;
    for (long n = 0; n < L; n++) {
      c.values++;
      if (!(fabs(m.data()[n] - want[n]) <= 1e-9 * (mx * 1000 / cp) + 1e-12)) { c.fail(who, "element " + std::to_string(n + 1) + " of " + std::to_string(L) + ": " + en::S(m.data()[n]) + " instead of " + en::S(want[n])); return; }
    }
    c.state(want.data(), L * sizeof(double));
  }});
  int rc = en::run(argc - 3, argv + 3, s);
  fflush(stdout);
  _exit(rc);
}
