// Owned arrays + Job, and a small builder used by the harnesses.
#pragma once
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <string>
#include <vector>
#include "driver.h"
#include "ref.h"

inline Driver *load_family(const std::string &dir, const std::string &fam) {
  std::string p = dir + "/" + fam + ".so";
  void *h = dlopen(p.c_str(), RTLD_NOW | (fam.compare(0, 4, "oct_") ? RTLD_LOCAL : RTLD_GLOBAL));
  if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(3); }
  get_driver_t g = (get_driver_t)dlsym(h, "get_driver");
  if (!g) { fprintf(stderr, "no get_driver in %s\n", p.c_str()); exit(3); }
  return g();
}

struct JobBuf {
  Job j;
  std::string fam;
  std::vector<double> Ro, delay, G, focal, apod, A, B;
  std::vector<float> Yf, Gtf, Grf, Rof, delf;
  std::vector<double> Yd, Gtd, Grd;
  bool is_das() const { return fam == "das" || fam == "das_f"; }
  bool is_gw() const { return fam.compare(0, 4, "oct_") == 0; }
  bool is_copy() const { return fam == "oct_copy_p" || fam == "oct_add_p"; }
  bool is_sum() const { return fam == "oct_sum_fftconv"; }
  bool is_conv() const { return fam == "fftconv_p" || (is_gw() && fam != "oct_circ_sir" && fam != "oct_scirc_sir"); }
  bool is_arr() const { return fam == "arr_rect" || fam == "arr_circ" || fam == "arr_cylind"; }
  long cols() const { return is_conv() ? j.A_N : j.No; }
  long rows() const { return is_das() ? 1 : is_conv() ? conv_rows() : j.nt; }
  long conv_rows() const { if (is_copy()) return j.A_M + 1; if (is_sum()) return j.A_M + j.B_M - 1; long L = (j.B_M == 1 || j.B_N == 1) ? j.B_M * j.B_N : j.B_M; return j.A_M + L - 1; }
  size_t elem() const { return fam == "das_f" ? 4 : 8; }
  size_t colbytes() const { return rows() * elem(); }
  size_t outbytes() const { return colbytes() * cols(); }
  void bind() {
    j.Ro = Ro.data(); j.delay = delay.data(); j.G = G.data(); j.focal = focal.data(); j.apod = apod.data();
    j.A = A.data(); j.B = B.data();
    if (fam == "das_f") {
      auto f = [](std::vector<float> &o, const std::vector<double> &i) { o.assign(i.begin(), i.end()); };
      f(Yf, Yd); f(Gtf, Gtd); f(Grf, Grd); f(Rof, Ro); f(delf, delay);
      j.Y = Yf.data(); j.Gt = Gtf.data(); j.Gr = Grf.data(); j.Rof = Rof.data(); j.delayf = delf.data();
    } else { j.Y = Yd.data(); j.Gt = Gtd.data(); j.Gr = Grd.data(); j.Rof = Ro.data(); j.delayf = delay.data(); }
  }
  // out must hold outbytes() bytes, already initialised as the front ends do (zeros)
  int run(Driver *d, void *out) { j.H = (double *)out; j.Im = out; return d->run(j); }
  // Job restricted to one column.
  JobBuf single(long n) const {
    JobBuf s = *this;
    if (is_sum()) {
      s.A.clear(); s.j.A_N = 1;
      for (long l = 0; l < j.B_N; l++) s.A.insert(s.A.end(), A.begin() + (l * j.A_N + n) * j.A_M, A.begin() + (l * j.A_N + n + 1) * j.A_M);
    } else if (is_conv()) {
      s.A.assign(A.begin() + n * j.A_M, A.begin() + (n + 1) * j.A_M); s.j.A_N = 1;
      if (!(j.B_M == 1 || j.B_N == 1)) { s.B.assign(B.begin() + n * j.B_M, B.begin() + (n + 1) * j.B_M); s.j.B_N = 1; }
    } else {
      s.Ro = {Ro[n], Ro[j.No + n], Ro[2 * j.No + n]}; s.j.No = 1;
      s.delay = {delay[j.delay_multi ? n : 0]}; s.j.delay_multi = 0;
    }
    s.bind();
    return s;
  }
};

// Deterministic small "random" numbers for data matrices.
inline double mix(unsigned long i) { i = i * 2654435761u + 12345; i ^= i >> 13; i *= 1597334677u; i ^= i >> 16; return ((double)(i % 2001) - 1000) / 128.0; }

inline const std::vector<std::string> &all_families() {
  static std::vector<std::string> f = {"line", "rect", "rect_f", "circ", "circ_f", "sphere", "cylind", "arr_rect", "arr_circ",
                                       "arr_cylind", "arr_annu", "rect_sir", "das", "das_f", "fftconv_p"};
  return f;
}

// A small call of each family. where[n]: 0 inside the window, 1 too late, 2 too early.
inline JobBuf small_job(const std::string &fam, long No, bool alpha, bool multi, int err_level, const std::vector<int> &where, int variant, long nt = 16) {
  JobBuf b;
  b.fam = fam;
  Job &j = b.j;
  j.No = No; j.nt = nt; j.alpha = alpha ? 0.7 : 0; j.delay_multi = multi; j.err_level = err_level;
  j.a = 1.0; j.b = 0.8; j.R = 0.55; j.Rcurv = variant & 1 ? -9.0 : 9.0; j.dx = 0.5; j.dy = 0.4; j.dt = 0.1; j.v = 1.3; j.cp = 1500;
  double x[8] = {0.1, -0.3, 0.45, 0, 0.7, -0.6, 0.25, 0.33}, y[8] = {0.2, 0.15, -0.35, 0.05, -0.1, 0.4, -0.22, 0.3}, z[8] = {5.0, 5.3, 4.9, 5.6, 5.15, 5.45, 4.95, 5.25};
  b.Ro.resize(3 * No);
  for (long n = 0; n < No; n++) {
    b.Ro[n] = x[n % 8] + 0.01 * (n / 8); b.Ro[No + n] = y[n % 8]; b.Ro[2 * No + n] = z[n % 8];
    int w = n < (long)where.size() ? where[n] : 0;
    if (w == 1) b.Ro[2 * No + n] = 12.0 + n; else if (w == 2) b.Ro[2 * No + n] = 1.5;
  }
  double d0 = 2.6;
  if (multi) { for (long n = 0; n < No; n++) b.delay.push_back(d0 + 0.05 * (n % 5)); if (!No) b.delay.push_back(d0); } else b.delay = {d0};
  b.focal = {25.0};
  if (fam == "rect_f" || fam == "circ_f") j.foc_met = variant & 1 ? ref::F_XY : ref::F_X;
  if (fam == "rect_sir") { j.a = 6.0; j.b = 5.0; }
  if (fam == "oct_circ_sir" || fam == "oct_scirc_sir") { j.R = variant & 1 ? 2.2 : 3.0; j.num_elements = 3; }
  if (b.is_arr()) {
    j.a = 0.5; j.b = 0.4; j.R = 0.33;
    j.num_elements = 3; b.G = {-0.7, 0.1, 0.6, -0.2, 0.3, 0.1, 0, 0.05, -0.1};
    j.foc_met = variant & 1 ? ref::F_UD : ref::F_XY;
    if (variant & 1) b.focal = {0.05, 0.0, 0.12};
    j.steer_met = ref::S_XY; j.theta = 3; j.phi = 2;
    j.do_apod = 1; j.apod_met = variant & 1 ? ref::A_UD : ref::A_GAUSS; b.apod = {0.5, 1.0, 0.25}; j.apod_par = 0.8;
  }
  if (fam == "arr_annu") {
    j.num_elements = 3; b.G = {0.3, 0.4, 0.6};
    j.dx = 0.25; j.dy = 0.2;
    j.foc_met = variant & 1 ? ref::F_UD : ref::F_X; b.focal = {20.0};
    if (variant & 1) b.focal = {0.13, 0.04};
    j.do_apod = 1; j.apod_met = ref::A_GAUSS; j.apod_par = 0.6; b.apod = {1.0, 0.5};
  }
  if (b.is_das()) {
    j.das_type = variant % 4; j.a_scan_len = 24; j.nt_el = 3; j.nr_el = j.das_type == 0 ? 0 : j.das_type == 1 ? 2 : 3;
    j.dtf = 0.5; j.cpf = 1500;
    b.Gtd = {-1.5, 0.25, 1.5, 0, 0, 0, 0, 0, 0}; 
    if (j.das_type == 1) b.Grd = {-1.0, 1.25, 0.5, 0.5, 0, 0};
    if (j.das_type >= 2) b.Grd = {0, 0, 0, -1.25, 0.5, 1.5, 0, 0, 0};
    for (double &q : b.delay) q = multi ? (q - 2.5) : 0.4;
    long scans = j.nt_el * (j.nr_el ? j.nr_el : 1);
    for (long i = 0; i < scans * j.a_scan_len; i++) b.Yd.push_back(mix(i));
    for (long n = 0; n < No; n++) {
      int w = n < (long)where.size() ? where[n] : 0;
      if (w == 1) b.Ro[2 * No + n] = 40.0;
      if (w == 2) { b.Ro[2 * No + n] = 0.3; if (multi) b.delay[n] = -9.0; }
    }
  }
  if (b.is_conv()) {
    j.A_M = 5; j.A_N = No; j.B_M = 3; j.B_N = variant & 1 ? 1 : (No > 1 ? No : 1); j.mode = multi ? 1 : 0;
    if (b.is_sum()) j.B_N = 2;
    for (long i = 0; i < j.A_M * j.A_N * (b.is_sum() ? 2 : 1); i++) b.A.push_back(mix(i + 7));
    for (long i = 0; i < j.B_M * j.B_N; i++) b.B.push_back(mix(i + 1007));
  }
  b.bind();
  return b;
}
