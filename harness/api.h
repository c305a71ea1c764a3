// Host-neutral description of every front-end function: argument kinds, the
// values of one well-formed call and what the core computes for them.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "jobs.h"

namespace api {
using std::string; using std::vector;
typedef vector<double> Vec;
enum K { RO, GEO, SAMP, SAMP2, DELAY, MAT3, MAT2, G3, GRAD, FMET, FOCAL1, FOCALV, SMET, SPAR, AMET, APOD, APODN, WPAR, ERR, DEV,
         DY, DGT, DGR, DT, DDELAY, CP, METH, VERB, NINT, CA, CB, CBLK, CY, CMODE, WIS, HH, UU, DST, RNG, SRC };
// One argument value.
struct AV {
  bool str = false, flt = false; string s; long r = 0, c = 0; Vec v;
  int odd = 0;                      // 1 cell/list of strings, 2 struct/dict, 3 three-dimensional array of v (r x c/2 x 2)
  AV() {}
  AV(long r, long c, Vec v, bool f = false) : flt(f), r(r), c(c), v(v) {}
  AV(const string &s) : str(true), s(s) {}
  static AV row(Vec v) { return AV(1, v.size(), v); }
  static AV sc(double x) { return AV(1, 1, {x}); }
};
struct Want { bool refuse = false; long r = 0, c = 0; Vec h; int status = 0; bool flt = false; int inplace = -1; double tol = 1e-12; double scale = 0; bool text = false; };
struct Case {
  string fn, fam; vector<K> kinds; int minin = 0, maxout = 1, nout = 1;
  vector<AV> a; Want w;
};
struct Drivers {
  string dir; std::map<string, Driver *> d;
  Driver *get(const string &f) { Driver *&p = d[f]; if (!p) p = load_family(dir, f); return p; }
};

inline const char *foc_kw(int m) { static const char *k[] = {"off", "x", "?", "y", "?", "xy", "x+y", "ud"}; return k[m]; }
inline const char *steer_kw(int m) { static const char *k[] = {"off", "x", "y", "xy"}; return k[m]; }
inline const char *apod_kw(int m) { static const char *k[] = {"triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped", "ud"}; return k[m]; }
inline const char *das_kw(int m) { static const char *k[] = {"saft", "tfm", "rca_coltx", "rca_rowtx"}; return k[m]; }
inline const char *err_kw(int m) { static const char *k[] = {"?", "ignore", "warn", "stop"}; return k[m]; }

struct FnInfo { const char *fn, *fam; vector<K> kinds; int minin, maxout; };
inline const vector<FnInfo> &sir_fns() {
  static vector<FnInfo> f = {
    {"dreamline", "line", {RO, GEO, SAMP, DELAY, MAT3, ERR}, 5, 2},
    {"dreamrect", "rect", {RO, GEO, SAMP, DELAY, MAT3, ERR, DEV}, 5, 2},
    {"dreamrect_f", "rect_f", {RO, GEO, SAMP, DELAY, MAT3, FMET, FOCAL1, ERR}, 7, 2},
    {"dreamcirc", "circ", {RO, GEO, SAMP, DELAY, MAT3, ERR, DEV}, 5, 2},
    {"dreamcirc_f", "circ_f", {RO, GEO, SAMP, DELAY, MAT3, FMET, FOCAL1, ERR}, 7, 2},
    {"dreamsphere", "sphere", {RO, GEO, SAMP, DELAY, MAT3, ERR}, 5, 2},
    {"dreamcylind", "cylind", {RO, GEO, SAMP, DELAY, MAT3, ERR}, 5, 2},
    {"dream_arr_rect", "arr_rect", {RO, GEO, G3, SAMP, DELAY, MAT3, FMET, FOCALV, SMET, SPAR, AMET, APOD, WPAR, ERR}, 13, 2},
    {"dream_arr_circ", "arr_circ", {RO, GEO, G3, SAMP, DELAY, MAT3, FMET, FOCALV, SMET, SPAR, AMET, APOD, WPAR, ERR}, 13, 2},
    {"dream_arr_cylind", "arr_cylind", {RO, GEO, G3, SAMP, DELAY, MAT3, FMET, FOCALV, SMET, SPAR, AMET, APOD, WPAR, ERR}, 13, 2},
    {"dream_arr_annu", "arr_annu", {RO, GRAD, SAMP, DELAY, MAT3, FMET, FOCALV, AMET, APOD, WPAR, ERR}, 10, 2},
    {"rect_sir", "rect_sir", {RO, GEO, SAMP2, DELAY, MAT2, DEV}, 5, 1},
    {"circ_sir", "circ_sir", {RO, GEO, SAMP2, DELAY, MAT2}, 5, 1},
    {"scirc_sir", "scirc_sir", {RO, GEO, SAMP2, DELAY, MAT2, NINT}, 6, 1},
    {"das", "das", {DY, DGT, DGR, RO, DT, DDELAY, CP, METH, ERR, DEV, VERB}, 8, 2},
    {"das", "das_f", {DY, DGT, DGR, RO, DT, DDELAY, CP, METH, ERR, DEV, VERB}, 8, 2},
    {"dream_att", "att", {RO, SAMP2, DELAY, MAT2}, 4, 1},
    {"dream_apodwin", "apodwin", {AMET, APODN, WPAR}, 3, 1},
  };
  return f;
}
inline const FnInfo &info(const string &fam) { for (auto &f : sir_fns()) if (fam == f.fam) return f; fprintf(stderr, "no function %s\n", fam.c_str()); exit(3); }

// A well-formed call of each family; Job fields say what it means.
inline JobBuf base_job(const string &fam, long No, bool alpha, bool multi, int err, const vector<int> &where, int variant, long nt = 16) {
  string f = fam == "circ_sir" || fam == "scirc_sir" || fam == "att" || fam == "apodwin" ? "circ" : fam;
  JobBuf b = small_job(f, No, alpha, multi, err, where, variant, nt);
  b.fam = fam;
  if (fam == "circ_sir" || fam == "scirc_sir") { b.j.R = 2.5; b.j.num_elements = 3; }     // num_elements: integration points
  if (fam == "apodwin") { b.j.apod_met = ref::A_GAUSS; b.j.apod_par = 0.8; b.j.num_elements = 5; b.apod = {0.5, 1, 0.25, -2, 3}; }
  if (fam == "att" && !(b.j.alpha > 0)) b.j.alpha = 0.7;
  b.bind();
  return b;
}
// small integers everywhere, so that every numeric class can hold the values
inline JobBuf int_job(const string &fam, long No) {
  JobBuf b = base_job(fam, No, true, true, 1, {}, 0, 24);
  Job &j = b.j;
  j.alpha = fam == "rect_sir" ? 0 : 1; j.a = 2; j.b = 4; j.R = 2; j.Rcurv = 9; j.dx = j.dy = j.dt = 1; j.v = 2; j.cp = 1000;
  double x[] = {1, -2, 0, 3}, y[] = {0, 1, -1, 2}, z[] = {5, 7, 6, 9};
  for (long n = 0; n < No; n++) { b.Ro[n] = x[n % 4]; b.Ro[No + n] = y[n % 4]; b.Ro[2 * No + n] = z[n % 4]; b.delay[n] = n % 3; }
  if (fam == "arr_annu") b.G = {1, 2, 3}; else if (b.is_arr()) { b.G = {-3, 0, 3, 0, 1, -1, 0, 0, 0}; j.theta = 3; j.phi = 2; j.steer_met = ref::S_XY; }
  b.focal = {20};
  if (b.is_arr() || fam == "arr_annu") { j.foc_met = ref::F_XY; j.do_apod = 1; j.apod_met = ref::A_UD; b.apod = fam == "arr_annu" ? Vec{1, 3} : Vec{1, 3, 2}; j.apod_par = 1; }
  if (fam == "rect_f" || fam == "circ_f") j.foc_met = ref::F_XY;
  if (fam == "apodwin") { j.apod_met = ref::A_UD; b.apod = {1, 0, 3, 2, 2}; j.apod_par = 1; }
  if (b.is_das()) { j.das_type = 1; j.nr_el = 2; j.dtf = 1; j.cpf = 1000; b.Gtd = {-2, 0, 1, 0, 0, 0, 0, 0, 0}; b.Grd = {-1, 2, 0, 0, 0, 0};
    b.Yd.resize(6 * j.a_scan_len); for (size_t i = 0; i < b.Yd.size(); i++) b.Yd[i] = (double)((i * 7 + 3) % 11) - 5; }
  b.bind();
  return b;
}

inline AV value(const JobBuf &b, K k) {
  const Job &j = b.j;
  bool f = b.fam == "das_f";
  switch (k) {
  case RO: return AV(j.No, 3, b.Ro, f);
  case GEO:
    if (b.fam == "line") return AV::sc(j.a);
    if (b.fam == "sphere") return AV::row({j.R, j.Rcurv});
    if (b.fam == "cylind" || b.fam == "arr_cylind") return AV::row({j.a, j.b, j.Rcurv});
    if (b.fam == "rect" || b.fam == "rect_f" || b.fam == "arr_rect" || b.fam == "rect_sir") return AV::row({j.a, j.b});
    return AV::sc(j.R);
  case SAMP: return AV::row({j.dx, j.dy, j.dt, (double)j.nt});
  case SAMP2: return AV::row({j.dt, (double)j.nt});
  case DELAY: case DDELAY: return j.delay_multi ? AV(j.No, 1, b.delay, f) : AV(1, 1, {b.delay[0]}, f);
  case MAT3: return AV::row({j.v, j.cp, j.alpha});
  case MAT2: return b.fam == "att" ? AV::row({j.cp, j.alpha}) : AV::row({j.v, j.cp});
  case G3: return AV(j.num_elements, 3, b.G);
  case GRAD: return AV(j.num_elements, 1, b.G);
  case FMET: return AV(b.fam == "arr_annu" && j.foc_met == ref::F_XY ? "on" : foc_kw(j.foc_met));
  case FOCAL1: return AV::sc(b.focal[0]);
  case FOCALV: return j.foc_met == ref::F_UD ? AV(b.focal.size(), 1, b.focal) : AV::sc(b.focal[0]);
  case SMET: return AV(steer_kw(j.steer_met));
  case SPAR: return AV::row({j.theta, j.phi});
  case AMET: return AV(j.do_apod || b.fam == "apodwin" ? (j.do_apod < 0 ? "off" : apod_kw(j.apod_met)) : "off");
  case APOD: return AV(b.apod.size(), 1, b.apod);
  case APODN: return j.apod_met == ref::A_UD && j.do_apod >= 0 ? AV(b.apod.size(), 1, b.apod) : AV::sc(j.num_elements);
  case WPAR: return AV::sc(j.apod_par);
  case ERR: return AV(err_kw(j.err_level));
  case DEV: return AV("cpu");
  case DY: return AV(j.a_scan_len, b.Yd.size() / j.a_scan_len, b.Yd, f);
  case DGT: return AV(j.nt_el, 3, b.Gtd, f);
  case DGR: return j.nr_el ? AV(j.nr_el, 3, b.Grd, f) : AV(0, 0, {}, f);
  case DT: return AV(1, 1, {j.dtf}, f);
  case CP: return AV(1, 1, {j.cpf}, f);
  case METH: return AV(das_kw(j.das_type));
  case VERB: return AV("off");
  case NINT: return AV::sc(j.num_elements);
  default: return AV();
  }
}

inline Want compute(Drivers &ds, JobBuf &b) {
  Want w;
  const Job &j = b.j;
  auto at = [&](long n, int k) { return b.Ro[n + k * j.No]; };
  if (b.fam == "att") {
    w.r = j.nt; w.c = j.No; w.tol = 1e-9;
    for (long n = 0; n < j.No; n++) {
      double d = b.delay[j.delay_multi ? n : 0], r = std::sqrt(at(n, 0) * at(n, 0) + at(n, 1) * at(n, 1) + at(n, 2) * at(n, 2));
      long it = (long)((r * 1000.0 / j.cp - d) / j.dt + 1);
      Vec x = ref::att_filter(j.alpha, j.dt, j.nt, r, it);
      w.h.insert(w.h.end(), x.begin(), x.end());
    }
    return w;
  }
  if (b.fam == "apodwin") {
    long N = j.apod_met == ref::A_UD && j.do_apod >= 0 ? (long)b.apod.size() : j.num_elements;
    w.r = N; w.c = 1;
    for (long n = 0; n < N; n++) w.h.push_back(j.do_apod < 0 ? 1.0 : ref::apod_law(j.apod_met, fabs(1 - 2.0 * n / N), j.apod_par, n < (long)b.apod.size() ? b.apod[n] : 0));
    return w;
  }
  Driver *d = ds.get(b.fam);
  b.bind();
  long n = b.rows() * b.cols();
  w.r = b.is_das() ? b.cols() : b.rows(); w.c = b.is_das() ? 1 : b.cols();
  if (b.fam == "das_f") {
    std::vector<float> o(n, 0.f); w.status = b.run(d, o.data()); w.h.assign(o.begin(), o.end()); w.flt = true;
  } else { w.h.assign(n, 0.0); w.status = b.run(d, w.h.data()); }
  if (b.fam == "rect_sir" || b.fam == "circ_sir" || b.fam == "scirc_sir") w.status = 0;
  w.refuse = w.status == 3;
  return w;
}

// nargs: number of arguments passed (0 = all)
inline Case make(Drivers &ds, JobBuf &b, int nargs = 0, int nout = 1) {
  Case c;
  const FnInfo &f = info(b.fam);
  c.fn = f.fn; c.fam = f.fam; c.kinds = f.kinds; c.minin = f.minin; c.maxout = f.maxout; c.nout = nout;
  if (nargs) {
    c.kinds.resize(nargs);
    bool has_err = false;
    for (K k : c.kinds) has_err |= k == ERR;
    if (!has_err) b.j.err_level = 3;
  }
  for (K k : c.kinds) c.a.push_back(value(b, k));
  c.w = compute(ds, b);
  return c;
}

// ---- convolution, copy and add
inline Vec convol(const double *a, long M, const double *b, long L) { Vec y(M + L - 1, 0.0); for (long i = 0; i < M; i++) for (long k = 0; k < L; k++) y[i + k] += a[i] * b[k]; return y; }
inline Vec filler(long n, unsigned long s) { Vec v(n); for (long i = 0; i < n; i++) v[i] = mix(i + 1000 * s); return v; }
// mode: 0 normal, 1 in-place without keyword, 2 '=', 3 '+=', 4 '-='
inline Case conv_case(const string &fn, long M, long L, long N, bool vec, int mode, unsigned seed) {
  Case c; c.fn = fn; c.fam = fn; c.minin = fn == "fftconv_ola" ? 3 : 2; c.maxout = fn == "conv_p" ? 1 : 2;
  long T = M + L - 1;
  Vec a = filler(M * N, seed), b = filler(L * (vec ? 1 : N), seed + 1), y, y0 = filler(T * N, 5);
  for (long n = 0; n < N; n++) { Vec q = convol(&a[n * M], M, &b[vec ? 0 : n * L], L); y.insert(y.end(), q.begin(), q.end()); }
  c.kinds = {CA, CB}; c.a = {AV(M, N, a), AV(L, vec ? 1 : N, b)};
  if (fn == "fftconv_ola") { c.kinds.push_back(CBLK); c.a.push_back(AV::sc(M > 2 ? M / 2 : 1)); }
  c.w.r = T; c.w.c = N; c.w.tol = 1e-11;
  c.w.scale = 64.0 * std::min(M, L) * 4;
  if (mode) {
    c.w.inplace = c.a.size(); c.kinds.push_back(CY); c.a.push_back(AV(T, N, y0)); c.nout = 0;
    static const char *kw[] = {"", "", "=", "+=", "-="};
    if (mode > 1) { c.kinds.push_back(CMODE); c.a.push_back(AV(string(kw[mode]))); }
    for (size_t i = 0; i < y.size(); i++) y[i] = mode == 3 ? y0[i] + y[i] : mode == 4 ? y0[i] - y[i] : y[i];
  }
  c.w.h = y;
  return c;
}
inline Case copy_case(const string &fn, long M, long N, unsigned seed) {
  Case c; c.fn = fn; c.fam = fn; c.minin = 4; c.maxout = 0; c.nout = 0;
  Vec a = filler(M * N, seed), b = filler(2 * 2, seed + 3);
  c.kinds = {DST, RNG, RNG, SRC};
  c.a = {AV(M, N, a), AV::row({1, 2}), AV::row({(double)N - 1, (double)N}), AV(2, 2, b)};
  for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { double &q = a[x + (N - 2 + y) * M]; q = fn == "add_p" ? q + b[x + 2 * y] : b[x + 2 * y]; }
  c.w.inplace = 0; c.w.r = M; c.w.c = N; c.w.h = a;
  return c;
}
// sum_fftconv: H is M x N x L, passed as a 3-D array (odd = 4)
inline Case sum_case(long M, long L, long N, long Q, bool inplace, unsigned seed) {
  Case c; c.fn = c.fam = "sum_fftconv"; c.minin = 2; c.maxout = 2;
  long T = M + L - 1;
  Vec h = filler(M * N * Q, seed), u = filler(L * Q, seed + 1), y(T * N, 0.0);
  for (long q = 0; q < Q; q++) for (long n = 0; n < N; n++) { Vec t = convol(&h[(q * N + n) * M], M, &u[q * L], L); for (long i = 0; i < T; i++) y[n * T + i] += t[i] / T; }
  AV H(M, N * Q, h); H.odd = 4; H.c = N;
  c.kinds = {HH, UU}; c.a = {H, AV(L, Q, u)};
  c.w.r = T; c.w.c = N; c.w.h = y; c.w.tol = 1e-11; c.w.scale = 64.0 * std::min(M, L) * Q / T;
  if (inplace) { c.w.inplace = 2; c.kinds.push_back(CY); c.a.push_back(AV(T, N, filler(T * N, 5))); c.nout = 0; }
  return c;
}
} // namespace api
