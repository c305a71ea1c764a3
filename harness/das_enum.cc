// P16: delay-and-sum against the definition.   das_enum DIR P16 TIER
#include "enumr.h"
#include "jobs.h"
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;

struct Arr { const char *n; vector<double> p; };     // positions along one axis
static const double LAY[][8] = {{-1.5, -0.5, 0.5, 1.5, 2.5, 3.5, 4.5, 5.5}, {-2.2, -0.1, 0.05, 1.9, 2.4, 2.9, 5, 5.1}, {0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1}};

int main(int argc, char **argv) {
  if (argc < 4) return 3;
  bool th = string(argv[3]) == "thorough";
  vector<Space> s;
  static const char *TY[] = {"saft", "tfm", "rca_coltx", "rca_rowtx"};
  for (int fl = 0; fl < 2; fl++) {
    string fam = fl ? "das_f" : "das";
    Driver *d = load_family(argv[1], fam);
    s.push_back({fam, {{"type", 4}, {"Nt", th ? 7 : 5}, {"Nr", th ? 8 : 6}, {"layout", 3}, {"tilt", 3}, {"grid", th ? 4 : 3}, {"delay", 5}, {"medium", 4}, {"threads", 2}}, [d, fam, fl](Ctx &c, const Idx &i) {
      JobBuf b; b.fam = fam; Job &j = b.j;
      j.das_type = i[0]; j.nt_el = i[1] + 1; j.nr_el = i[2];
      if (i[0] == 0 && i[2] > 1) { c.skip(); return; }          // SAFT has no receive elements
      if (i[0] > 1 && i[2] == 0) { c.skip(); return; }
      setenv("DREAM_NUM_THREADS", i[8] ? "3" : "1", 1);
      static const double MED[][3] = {{0.5, 1500, 48}, {0.1, 1500, 200}, {1.0, 343, 60}, {0.04, 5900, 37}};
      j.dtf = MED[i[7]][0]; j.cpf = MED[i[7]][1]; j.a_scan_len = (long)MED[i[7]][2];
      // tilt: flat along one axis / tilted in depth / off axis
      for (int w = 0; w < 2; w++) {
        long n = w ? j.nr_el : j.nt_el; vector<double> x(n), y(n), z(n);
        for (long k = 0; k < n; k++) {
          double p = LAY[w ? (i[3] + 1) % 3 : i[3]][k] + (w ? 0.21 : 0);
          if (w && i[0] >= 2) { y[k] = p; x[k] = 0; } else { x[k] = p; y[k] = 0; }
          if (i[4] == 1) z[k] = 0.13 * k - 0.2;
          if (i[4] == 2) { (w && i[0] >= 2 ? x[k] : y[k]) = 0.4 * k - 0.7; z[k] = -0.3; }
        }
        vector<double> &G = w ? b.Grd : b.Gtd;
        for (auto *v : {&x, &y, &z}) G.insert(G.end(), v->begin(), v->end());
      }
      long scans = j.nt_el * (j.nr_el && i[0] ? j.nr_el : 1);
      for (long k = 0; k < scans * j.a_scan_len; k++) b.Yd.push_back(mix(k + 7) );
      double R = j.a_scan_len * j.dtf * j.cpf / 2000;            // depth the record reaches
      static const double FX[] = {0, 0.31, -0.77, 1.9, -2.6, 0.05, 3.3}, FY[] = {0, 0.4, -0.2, 1.2, -1.8, 0, 2.7};
      static const double FZ[][4] = {{0.3, 0.55, 0.8, 0.12}, {0.05, 0.97, 1.05, 0.9}, {0, 0.01, 0.5, 2}, {0.33, 0.66, 0.99, 1.32}};
      j.No = 28; b.Ro.resize(3 * j.No);
      for (long n = 0; n < j.No; n++) { b.Ro[n] = FX[n % 7]; b.Ro[j.No + n] = FY[(n + i[3]) % 7]; b.Ro[2 * j.No + n] = FZ[i[5]][n / 7] * R + 0.003 * (n % 7); }
      j.delay_multi = i[6] >= 3;
      double dd = j.dtf;
      if (i[6] < 3) b.delay = {i[6] == 0 ? 0 : i[6] == 1 ? 2.3 * dd : -3.6 * dd};
      else for (long n = 0; n < j.No; n++) b.delay.push_back(i[6] == 3 ? (n % 5) * 1.37 * dd : (n % 7 - 3) * 0.83 * dd);
      j.err_level = 1;
      b.bind();
      vector<char> out(b.outbytes() + 16, 0x55);
      // Y, geometry etc. must not change
      vector<double> y0 = b.Yd, g0 = b.Gtd, r0 = b.Grd, ro0 = b.Ro; vector<float> yf = b.Yf, gf = b.Gtf, rf = b.Grf, rof = b.Rof;
      int st = b.run(d, out.data()); c.calls++;
      vector<double> got(j.No), want(j.No); vector<char> amb(j.No);
      bool oob = false, edge = false;
      for (long n = 0; n < j.No; n++) {
        got[n] = fl ? ((float *)out.data())[n] : ((double *)out.data())[n];
        ref::Pix p = fl ? ref::das_pixel<float>(j, n, 1e-5) : ref::das_pixel<double>(j, n, 1e-10);
        want[n] = p.v; amb[n] = p.amb || p.edge; c.steps += scans; oob |= p.oob; edge |= p.edge || p.amb;
      }
      c.cmp(fam + " " + TY[i[0]], got.data(), want.data(), j.No, 1e-12, amb.data(), 1);
      if (!edge && (st != 0) != oob) c.fail(fam + " " + TY[i[0]] + " status", "status " + std::to_string(st) + (oob ? " though" : " though no") + " sample is outside the record");
      for (size_t k = b.outbytes(); k < out.size(); k++) if (out[k] != 0x55) { c.fail(fam + " writes outside the image", ""); break; }
      if (y0 != b.Yd || g0 != b.Gtd || r0 != b.Grd || ro0 != b.Ro || yf != b.Yf || gf != b.Gtf || rf != b.Grf || rof != b.Rof) c.fail(fam + " changes its input", "");
    }});
  }
  return en::run(argc - 3, argv + 3, s);
}
