// P10: dream_apodwin; P11: dream_att (the only public ways to the window functions and the attenuation filter alone).
#pragma once
#include "oct_api.h"
namespace more {
using namespace api; using en::Ctx; using en::Idx; using en::Space;
inline void p10(OctApi &h, Drivers &ds, vector<Space> &s, bool th) {
  OctApi *hp = &h; Drivers *dp = &ds;
  s.push_back({"dream_apodwin", {{"window", 9}, {"N", th ? 64 : 24}, {"parameter", 7}, {"weights", 3}}, [=](Ctx &c, const Idx &i) {
    static const double PAR[] = {1, 0.25, 0.8, 2.5, 0.01, 0, 9};
    JobBuf b = base_job("apodwin", 1, false, false, 1, {}, 0);
    b.j.apod_met = i[0] % 8; b.j.do_apod = i[0] == 8 ? -1 : 1; b.j.apod_par = PAR[i[2]]; b.j.num_elements = i[1] + 1;
    if ((i[0] != 7) && i[3]) { c.skip(); return; }
    if (i[0] == 1 && PAR[i[2]] == 0) { c.skip(); return; }      // the Gaussian of width 0
    b.apod.clear(); for (int n = 0; n <= i[1]; n++) b.apod.push_back(i[3] == 0 ? mix(n) : i[3] == 1 ? n : -0.5 * n);
    if (i[0] == 7 && i[1] == 0) { c.skip(); return; }           // one weight reads as a length
    b.bind();
    Case k = make(*dp, b);
    if (i[1] & 1 && i[0] == 7) std::swap(k.a[1].r, k.a[1].c);
    fe::judge(c, "", k, hp->call(k, {}));
  }});
}
inline void p11(OctApi &h, Drivers &ds, vector<Space> &s, bool th) {
  OctApi *hp = &h; Drivers *dp = &ds;
  s.push_back({"dream_att", {{"alpha", 4}, {"nt", th ? 12 : 7}, {"dt", 3}, {"cp", 3}, {"delay", 4}, {"No", 3}, {"multi", 2}, {"points", 3}}, [=](Ctx &c, const Idx &i) {
    static const double AL[] = {0.7, 0.05, 3, 20}, DT[] = {0.1, 0.03, 1}, CP[] = {1500, 1000, 343}, DL[] = {0, 2.6, -1.5, 40};
    static const int NT[] = {16, 7, 1, 2, 33, 64, 100, 3, 128, 127, 256, 31};
    JobBuf b = base_job("att", i[5] + 1, true, i[6], 1, {}, 0);
    b.j.alpha = AL[i[0]]; b.j.nt = NT[i[1]]; b.j.dt = DT[i[2]]; b.j.cp = CP[i[3]];
    for (size_t n = 0; n < b.delay.size(); n++) b.delay[n] = DL[i[4]] + 0.3 * n;
    static const double SC[] = {1, 0.02, 6};
    for (double &x : b.Ro) x *= SC[i[7]];
    fe::threads_env(i[5]);
    b.bind();
    for (long n = 0; n < b.j.No; n++) {          // the sample the pulse is moved to must not hang on rounding
      double r = sqrt(b.Ro[n] * b.Ro[n] + b.Ro[b.j.No + n] * b.Ro[b.j.No + n] + b.Ro[2 * b.j.No + n] * b.Ro[2 * b.j.No + n]);
      double q = (r * 1e3 / b.j.cp - b.delay[b.j.delay_multi ? n : 0]) / b.j.dt + 1;
      if (fabs(q - round(q)) < 1e-6 || q < 1) { c.skip(); return; }
    }
    Case k = make(*dp, b);
    fe::judge(c, "", k, hp->call(k, {}));
  }});
}
} // namespace more
