// Analytic responses against the exact angle of the arc inside the aperture.
//   sir2_enum DIR P12 TIER
#include "enumr.h"
#include "jobs.h"
#include "sir2_ref.h"
#include <math.h>
#include <algorithm>
#include "circ_sir.h"
#include "scirc_sir.h"
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;
using namespace sir2;

struct Tm { double dt; long nt; };
int main(int argc, char **argv) {
  if (argc < 4) return 3;
  bool th = string(argv[3]) == "thorough";
  setenv("DREAM_NUM_THREADS", "2", 1);
  Driver *rs = load_family(argv[1], "rect_sir");
  vector<Space> s;
  static const double AS[][2] = {{6, 5}, {1, 12}, {0.25, 0.25}, {16, 2}, {10, 10}};
  static const double FX[] = {0, 0.17, 0.5, 0.83, 2.9}, Z[] = {10, 0.4, 0, 73.1, 2};
  static const Tm TM[] = {{0.05, 240}, {0.0125, 400}, {0.5, 60}, {1, 1}, {0.003, 2}};
  static const double VS[] = {1, -2.5, 0.01}, CP[] = {1500, 343, 5900};
  static const double SG[][2] = {{1, 1}, {-1, 1}, {1, -1}, {-1, -1}};
  s.push_back({"rect_sir", {{"aperture", 5}, {"x", 5}, {"y", 5}, {"z", 5}, {"time", 5}, {"delay", 4}, {"v", th ? 3 : 2}, {"cp", th ? 3 : 2}}, [&](Ctx &c, const Idx &i) {
    JobBuf b; b.fam = "rect_sir"; Job &j = b.j;
    j.a = AS[i[0]][0]; j.b = AS[i[0]][1]; j.dt = TM[i[4]].dt; j.nt = TM[i[4]].nt; j.v = VS[i[6]]; j.cp = CP[i[7]]; j.No = 4;
    b.Ro.resize(12);
    for (int k = 0; k < 4; k++) { b.Ro[k] = SG[k][0] * FX[i[1]] * j.a; b.Ro[4 + k] = SG[k][1] * FX[i[2]] * j.b; b.Ro[8 + k] = Z[i[3]]; }
    double t0 = Z[i[3]] * 1000 / j.cp;
    j.delay_multi = i[5] == 2;
    if (i[5] == 0) b.delay = {0}; else if (i[5] == 1) b.delay = {t0 - 3.25 * j.dt}; else if (i[5] == 2) for (int k = 0; k < 4; k++) b.delay.push_back(t0 + (k * 1.5 - 2) * j.dt); else b.delay = {-1.75 * j.dt};
    b.bind();
    vector<double> H(j.nt * 4, 0.0);
    b.run(rs, H.data()); c.calls++;
    for (int k = 0; k < 4 && !c.failed; k++) {
      vector<double> w(j.nt), tl(j.nt);
      for (long n = 0; n < j.nt; n++) {
        double ct = (n * j.dt + b.delay[j.delay_multi ? k : 0]) * j.cp / 1000;
        exact([&](double q) { return frac_rect(b.Ro[k], b.Ro[4 + k], j.a, j.b, q); }, ct, Z[i[3]], j.v * j.cp, w[n], tl[n]); c.steps++;
      }
      compare(c, "rect_sir", &H[k * j.nt], w, tl);
    }
  }});
  static const double RR[] = {5, 0.5, 12.5}, RC[] = {0, 0.3, 1, 1.6, 0.97, 5};
  static const double ANG[] = {0, 0.7, 3.9, 1.5707963267948966};
  auto circ = [&](Ctx &c, const Idx &i, bool sampled, long int_len) {
    double r = RR[i[0]], rc = RC[i[1]] * r, z = Z[i[2]], dt = TM[i[3]].dt, v = VS[i[5]], cp = CP[i[6]];
    long nt = TM[i[3]].nt;
    double x = rc * cos(ANG[i[7]]), y = rc * sin(ANG[i[7]]);
    if (i[7] == 0) y = 0; if (i[7] == 3) x = 0;
    double rce = sqrt(x * x + y * y);
    double t0 = z * 1000 / cp, delay = i[4] == 0 ? 0 : i[4] == 1 ? t0 - 3.25 * dt : i[4] == 2 ? t0 + 2.6 * dt : -1.75 * dt;
    vector<double> h(nt + 2, 777.0);
    if (sampled) scirc_sir(x, y, z, r, dt, nt, delay, v, cp, int_len, h.data() + 1); else circ_sir(x, y, z, r, dt, nt, delay, v, cp, h.data() + 1);
    c.calls++;
    if (h[0] != 777 || h[nt + 1] != 777) { c.fail("circ_sir writes outside", ""); return; }
    vector<double> w(nt), tl(nt);
    auto f = [&](double q) { return frac_circ(rce, r, q); };
    for (long n = 0; n < nt; n++) {
      double t = n * dt + delay;
      if (!sampled) { exact(f, t * cp / 1000, z, v * cp, w[n], tl[n]); c.steps++; continue; }
      // average over [t-dt/2, t+dt/2] by adaptive subdivision at the corner times
      vector<double> kn = {t - dt / 2, t + dt / 2};
      for (double q : {z, hypot(z, r - rce), hypot(z, r + rce)}) { double tq = q * 1000 / cp; if (tq > t - dt / 2 && tq < t + dt / 2) kn.push_back(tq); }
      std::sort(kn.begin(), kn.end());
      double sum = 0;
      for (size_t k = 0; k + 1 < kn.size(); k++) {
        // substitution t = a + (b-a)*(3u^2-2u^3) removes the square-root ends
        double A = kn[k], L = kn[k + 1] - kn[k]; const int M = 64;
        for (int m = 0; m < M; m++) { double u = (m + 0.5) / M, tt = A + L * u * u * (3 - 2 * u), ct = tt * cp / 1000; c.steps++;
          if (ct >= z && ct >= 0) sum += f(sqrt(std::max(0.0, (ct - z) * (ct + z)))) * 6 * u * (1 - u) / M * L; }
      }
      w[n] = v * cp * sum / dt; tl[n] = fabs(v) * cp * (0.53 / int_len + 1e-4);   // trapezoid bound: variation of the integrand * step / 2
    }
    compare(c, sampled ? "scirc_sir" : "circ_sir", h.data() + 1, w, tl);
  };
  s.push_back({"circ_sir", {{"radius", 3}, {"offset", 6}, {"z", 5}, {"time", 5}, {"delay", 4}, {"v", th ? 3 : 2}, {"cp", 3}, {"angle", 4}}, [&](Ctx &c, const Idx &i) { circ(c, i, false, 0); }});
  static const long IL[] = {1000, 1, 10, 100};
  s.push_back({"scirc_sir", {{"radius", th ? 3 : 2}, {"offset", 6}, {"z", 5}, {"time", 5}, {"delay", 4}, {"v", th ? 3 : 2}, {"cp", 1}, {"angle", th ? 4 : 2}, {"steps", 4}}, [&](Ctx &c, const Idx &i) { circ(c, i, true, IL[i[8]]); }});
  return en::run(argc - 3, argv + 3, s);
}
