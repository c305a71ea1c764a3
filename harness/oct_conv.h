// P13, P14, P15: convolution, copy and add front ends against plain loops.
#pragma once
#include "enumr.h"
#include "oct_host.h"
#include "jobs.h"
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;
typedef vector<double> Vec;

inline double mixv(unsigned long i) { i = i * 2654435761u + 12345; i ^= i >> 13; i *= 1597334677u; i ^= i >> 16; return ((double)(i % 2001) - 1000) / 128.0; }
inline Vec fill(long n, unsigned long seed) { Vec v(n); for (long i = 0; i < n; i++) v[i] = mixv(i + 1000 * seed); return v; }
// direct linear convolution of two columns
inline Vec direct(const double *a, long M, const double *b, long K) {
  Vec y(M + K - 1, 0.0);
  for (long i = 0; i < M; i++) for (long k = 0; k < K; k++) y[i + k] += a[i] * b[k];
  return y;
}
// bk: 0 K x N matrix, 1 column vector, 2 row vector
struct Conv {
  long M, K, N; int bk;
  Matrix A, B; Vec y; double scale;
  Conv(long M_, long K_, long N_, int bk_, unsigned seed) : M(M_), K(K_), N(N_), bk(bk_) {
    Vec a = fill(M * N, seed), b = fill(K * (bk ? 1 : N), seed + 1);
    A = ::M(M, N, a); B = bk == 2 ? ::M(1, K, b) : ::M(K, bk ? 1 : N, b);
    for (long n = 0; n < N; n++) { Vec q = direct(&a[n * M], M, &b[bk ? 0 : n * K], K); y.insert(y.end(), q.begin(), q.end()); }
    double sa = 0, sb = 0; for (double q : a) sa = std::max(sa, fabs(q)); for (double q : b) sb = std::max(sb, fabs(q));
    scale = sa * sb * std::min(M, K);
  }
  long L() const { return M + K - 1; }
};
inline void setthreads(int t) { static const char *T[] = {"1", "2", "3", "8", "64", "0"}; setenv("DREAM_NUM_THREADS", T[t % 6], 1); }
enum Mode { NORMAL, EQU, ADD, SUB, INPLACE };
static const char *MODES[] = {"", "=", "+=", "-=", ""};
inline Vec combine(int m, const Vec &y0, const Vec &y) { Vec r = y; for (size_t i = 0; i < r.size(); i++) r[i] = m == ADD ? y0[i] + y[i] : m == SUB ? y0[i] - y[i] : y[i]; return r; }

// A convolution call in a given form; checks result, inputs and neighbours of the in-place output.
//  wis: 0 none, 1 string given, 2 string requested;  extra: arguments between B and Y (block length)
inline void conv_call(OctHost &h, Ctx &c, const string &fn, Conv &q, int mode, int wis, const octave_value_list &extra, string &wisdom, double wantscale = 1) {
  Vec a0 = V(q.A), b0 = V(q.B), y0 = fill(q.L() * q.N, 77), want;
  Vec full = q.y; for (double &v : full) v *= wantscale;
  Matrix Y;
  octave_value_list args;
  args.append(q.A); args.append(q.B);
  for (octave_idx_type i = 0; i < extra.length(); i++) args.append(extra(i));
  if (mode != NORMAL) {
    Y = M(q.L(), q.N, y0);
    args.append(Y);
    if (mode != INPLACE) args.append(octave_value(MODES[mode]));
  }
  if (wis == 1) args.append(octave_value(wisdom));
  int nout = mode == NORMAL ? (wis == 2 ? 2 : 1) : 0;
  OctCall r = h.call(fn, args, nout);
  c.calls++; c.steps++;
  // a one-element value is a scalar in Octave: it has no storage to work in
  if (mode != NORMAL && q.L() * q.N == 1) { c.skip(); if (!r.refused() || V(Y) != y0) c.fail(fn + " accepts a scalar as in-place output", ""); return; }
  if (r.refused() && !(mode != NORMAL && !r.error && r.text.size() < 2)) { c.fail(fn + " refuses a well-formed call", r.why()); return; }
  want = combine(mode, y0, full);
  double sc = q.scale * fabs(wantscale) * (mode == ADD || mode == SUB ? 8 : 1);
  if (mode == NORMAL) {
    if (r.out.length() < nout) { c.fail(fn + " returns too few results", ""); return; }
    Matrix R = r.out(0).matrix_value();
    if (R.rows() != q.L() || R.cols() != q.N) { c.fail(fn + " result has the wrong size", std::to_string(R.rows()) + "x" + std::to_string(R.cols())); return; }
    c.cmp(fn, R.data(), want.data(), want.size(), 1e-11, nullptr, sc);
    if (wis == 2) { if (!r.out(1).is_string()) { c.fail(fn + " wisdom output is no string", ""); return; } wisdom = r.out(1).string_value(); }
  } else {
    if (r.out.length()) c.fail(fn + " in-place call returns something", "");
    c.cmp(fn + " in-place mode '" + MODES[mode] + "'", Y.data(), want.data(), want.size(), 1e-11, nullptr, sc);
  }
  if (V(q.A) != a0 || V(q.B) != b0) c.fail(fn + " changes its input", "");
}

inline void p13(OctHost &h, vector<Space> &s, bool th, Driver *core) {
  // the core shared with Python: every length up to the bound
  int mx = th ? 64 : 26;
  s.push_back({"core fftconv", {{"M", mx}, {"K", mx}, {"N", 3}, {"shape", 3}, {"mode", 3}}, [core](Ctx &c, const Idx &i) {
    static const long NN[] = {1, 2, 5};
    long M = i[0] + 1, K = i[1] + 1, N = NN[i[2]];
    if (i[3] == 0 && (K == 1 || N == 1)) { c.skip(); return; }
    setenv("DREAM_NUM_THREADS", "2", 1);
    Conv q(M, K, N, i[3], i[0] + 31 * i[1]);
    Vec a0 = V(q.A), b0 = V(q.B), y0 = fill(q.L() * N, 77), y = y0;
    Job j; j.A = q.A.data(); j.A_M = M; j.A_N = N; j.B = q.B.data(); j.B_M = q.B.rows(); j.B_N = q.B.cols(); j.H = y.data(); j.mode = i[4];
    core->run(j); c.calls++; c.steps++;
    Vec want = combine(i[4] == 0 ? EQU : i[4] == 1 ? ADD : SUB, y0, q.y);
    c.cmp("core fftconv mode " + std::to_string(i[4]), y.data(), want.data(), want.size(), 1e-11, nullptr, q.scale * 8);
    if (V(q.A) != a0 || V(q.B) != b0) c.fail("core fftconv changes its input", "");
  }});
  static const long MS[] = {1, 2, 3, 4, 5, 7, 8, 11, 16, 31, 64, 97}, KS[] = {1, 2, 3, 5, 8, 13, 32, 61}, NS[] = {1, 2, 3, 5, 9};
  // call forms: (mode, wisdom)
  static const int F[][2] = {{NORMAL, 0}, {NORMAL, 1}, {NORMAL, 2}, {INPLACE, 0}, {EQU, 0}, {ADD, 0}, {SUB, 0}, {INPLACE, 1}, {EQU, 1}, {ADD, 1}, {SUB, 1}};
  s.push_back({"fftconv_p", {{"M", th ? 12 : 8}, {"K", th ? 8 : 5}, {"N", th ? 5 : 4}, {"shape", 3}, {"form", 11}, {"threads", th ? 5 : 3}}, [&h](Ctx &c, const Idx &i) {
    long M = MS[i[0]], K = KS[i[1]], N = NS[i[2]];
    if (i[3] == 0 && (K == 1 || N == 1)) { c.skip(); return; }
    setthreads(i[5]);
    Conv q(M, K, N, i[3], i[0] + 31 * i[1]);
    string w;
    if (F[i[4]][1] == 1) { Conv q0(M, K, 1, 1, 5); conv_call(h, c, "fftconv_p", q0, NORMAL, 2, {}, w); if (c.failed) return; }
    conv_call(h, c, "fftconv_p", q, F[i[4]][0], F[i[4]][1], {}, w);
  }});
  // every sequence of 3 calls (shapes x forms): the planner state left behind never matters
  static const long SH[][3] = {{5, 3, 2}, {8, 8, 1}, {4, 4, 3}};
  static const int G[][2] = {{NORMAL, 0}, {NORMAL, 1}, {NORMAL, 2}, {INPLACE, 0}, {ADD, 0}, {SUB, 1}};
  s.push_back({"fftconv_p call order", {{"c1", 18}, {"c2", 18}, {"c3", th ? 18 : 6}}, [&h, th](Ctx &c, const Idx &i) {
    static string w[3];
    setenv("DREAM_NUM_THREADS", "2", 1);
    for (int k = 0; k < 3 && !c.failed; k++) {
      int sh = th || k < 2 ? i[k] % 3 : 1, f = th || k < 2 ? i[k] / 3 : i[k];
      Conv q(SH[sh][0], SH[sh][1], SH[sh][2], k & 1, 7 * k + i[k]);
      if (G[f][1] == 1 && w[sh].empty()) { conv_call(h, c, "fftconv_p", q, NORMAL, 2, {}, w[sh]); if (c.failed) return; }
      conv_call(h, c, "fftconv_p", q, G[f][0], G[f][1], {}, w[sh]);
    }
  }});
}

inline void p14(OctHost &h, vector<Space> &s, bool th) {
  static const long MS[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 23}, KS[] = {1, 2, 3, 5, 8, 17}, NS[] = {1, 2, 3, 5, 9};
  s.push_back({"conv_p", {{"M", th ? 10 : 7}, {"K", th ? 6 : 4}, {"N", 5}, {"shape", 3}, {"mode", 5}, {"threads", th ? 5 : 3}}, [&h](Ctx &c, const Idx &i) {
    long M = MS[i[0]], K = KS[i[1]], N = NS[i[2]];
    if (i[3] == 0 && (K == 1 || N == 1)) { c.skip(); return; }
    setthreads(i[5]);
    Conv q(M, K, N, i[3], i[0] + 31 * i[1]); string w;
    conv_call(h, c, "conv_p", q, i[4], 0, {}, w);
  }});
  // every block length from 1 to M
  static const int F[][2] = {{NORMAL, 0}, {NORMAL, 1}, {NORMAL, 2}, {INPLACE, 0}, {EQU, 0}, {ADD, 0}, {SUB, 0}, {INPLACE, 1}, {EQU, 1}, {ADD, 1}, {SUB, 1}};
  long nb = th ? 16 : 8;
  s.push_back({"fftconv_ola", {{"M", th ? 9 : 7}, {"block", (int)nb}, {"K", th ? 6 : 4}, {"N", th ? 5 : 3}, {"shape", 3}, {"form", 11}, {"threads", 2}}, [&h](Ctx &c, const Idx &i) {
    long M = MS[i[0]], K = KS[i[2]], N = NS[i[3]], bl = i[1] + 1;
    if (bl > M || (i[4] == 0 && (K == 1 || N == 1))) { c.skip(); return; }
    setthreads(i[6]);
    Conv q(M, K, N, i[4], i[0] + 31 * i[2]); string w;
    if (F[i[5]][1] == 1) { Conv q0(bl, K, 1, 1, 5); conv_call(h, c, "fftconv_p", q0, NORMAL, 2, {}, w); if (c.failed) return; }
    octave_value_list ex; ex.append(octave_value((double)bl));
    conv_call(h, c, "fftconv_ola", q, F[i[5]][0], F[i[5]][1], ex, w);
  }});
  s.push_back({"sum_fftconv", {{"M", th ? 8 : 5}, {"K", th ? 5 : 4}, {"N", 4}, {"L", 4}, {"form", 5}, {"threads", th ? 5 : 3}}, [&h](Ctx &c, const Idx &i) {
    static const long LS[] = {2, 3, 5, 8};
    long M = MS[i[0]], K = KS[i[1]], N = NS[i[2]], L = LS[i[3]], T = M + K - 1;
    setthreads(i[5]);
    Vec hd = fill(M * N * L, 3 + i[0]), u = fill(K * L, 9 + i[1]);
    NDArray H(dim_vector(M, N, L)); std::copy(hd.begin(), hd.end(), H.fortran_vec());
    Matrix U = ::M(K, L, u);
    Vec want(T * N, 0.0), y0 = fill(T * N, 77);
    double sc = 0;
    for (long l = 0; l < L; l++) for (long n = 0; n < N; n++) { Vec y = direct(&hd[(l * N + n) * M], M, &u[l * K], K); for (long t = 0; t < T; t++) want[n * T + t] += y[t] / T; }
    sc = 60.0 * std::min(M, K) * L / T;
    octave_value_list a; a.append(H); a.append(U);
    Matrix Y;
    string w;
    // forms: normal, wisdom in, wisdom out, in-place, in-place with wisdom
    if (i[4] == 1 || i[4] == 4) { octave_value_list b; b.append(::M(M, 1, Vec(hd.begin(), hd.begin() + M))); b.append(::M(K, 1, Vec(u.begin(), u.begin() + K))); OctCall r = h.call("fftconv_p", b, 2); if (r.error || r.out.length() < 2) { c.fail("fftconv_p gives no wisdom", r.msg); return; } w = r.out(1).string_value(); }
    if (i[4] >= 3) { if (T * N == 1) { c.skip(); return; } Y = ::M(T, N, y0); a.append(Y); }
    if (i[4] == 1 || i[4] == 4) a.append(octave_value(w));
    OctCall r = h.call("sum_fftconv", a, i[4] >= 3 ? 0 : i[4] == 2 ? 2 : 1);
    c.calls++; c.steps++;
    if (r.error || (i[4] >= 3 ? r.text.size() > 1 : r.out.length() < (i[4] == 2 ? 2 : 1))) { c.fail("sum_fftconv refuses a well-formed call", r.why()); return; }
    if (i[4] < 3) {
      Matrix R = r.out(0).matrix_value();
      if (R.rows() != T || R.cols() != N) { c.fail("sum_fftconv result has the wrong size", std::to_string(R.rows()) + "x" + std::to_string(R.cols())); return; }
      c.cmp("sum_fftconv", R.data(), want.data(), want.size(), 1e-11, nullptr, sc);
    } else c.cmp("sum_fftconv in-place", Y.data(), want.data(), want.size(), 1e-11, nullptr, sc);
    if (!std::equal(hd.begin(), hd.end(), H.data()) || V(U) != u) c.fail("sum_fftconv changes its input", "");
  }});
}

inline void p15(OctHost &h, vector<Space> &s, bool th) {
  int S = th ? 5 : 4, R = S + 3;      // indices -1 .. S+1
  for (int add = 0; add < 2; add++) {
    string fn = add ? "add_p" : "copy_p";
    // rows and columns get the full range of pairs; source size off by -1/0/+1 in each direction
    s.push_back({fn, {{"AM", S}, {"AN", S}, {"r0", R}, {"r1", R}, {"k0", R}, {"k1", R}, {"dB", 5}, {"threads", th ? 3 : 2}}, [&h, fn, add](Ctx &c, const Idx &i) {
      long AM = i[0] + 1, AN = i[1] + 1, r0 = i[2] - 1, r1 = i[3] - 1, k0 = i[4] - 1, k1 = i[5] - 1;
      static const int DM[] = {0, 1, -1, 0, 0}, DN[] = {0, 0, 0, 1, -1};
      long bm = r1 - r0 + 1, bn = k1 - k0 + 1;
      bool match = i[6] == 0 && bm > 0 && bn > 0;
      if (bm < 0 || bn < 0) { if (i[6]) { c.skip(); return; } bm = std::max(1L, labs(bm)); bn = std::max(1L, labs(bn)); }
      bm += DM[i[6]]; bn += DN[i[6]];
      if (bm < 0 || bn < 0) { c.skip(); return; }
      bool valid = match && AM * AN > 1 && r0 >= 1 && r0 <= r1 && r1 <= AM && k0 >= 1 && k0 <= k1 && k1 <= AN;
      static const char *T[] = {"3", "1", "8"}; setenv("DREAM_NUM_THREADS", T[i[7]], 1);
      Vec a = fill(AM * AN, 3), b = fill(bm * bn, 4), want = a;
      Matrix A = ::M(AM, AN, a), B = ::M(bm, bn, b), r = row({(double)r0, (double)r1}), k = row({(double)k0, (double)k1});
      if (valid) for (long y = k0; y <= k1; y++) for (long x = r0; x <= r1; x++) { double v = b[(x - r0) + (y - k0) * bm]; double &q = want[(x - 1) + (y - 1) * AM]; q = add ? q + v : v; }
      octave_value_list args; args.append(A); args.append(r); args.append(k); args.append(B);
      OctCall res = h.call(fn, args, 0);
      c.calls++; c.steps++; c.triv = false; c.values += want.size();
      c.state(want.data(), want.size() * 8);
      if (valid && res.error) { c.fail(fn + " refuses a well-formed call", res.msg); return; }
      if (V(A) != want) { c.fail(valid ? fn + " stores the wrong elements" : fn + " changes the destination for a range it must refuse", ""); return; }
      if (!valid && !res.refused() && bm * bn > 0) { c.fail(fn + " accepts a range it must refuse", ""); return; }
      if (V(B) != b || V(r) != Vec{(double)r0, (double)r1} || V(k) != Vec{(double)k0, (double)k1}) c.fail(fn + " changes its input", "");
    }});
  }
}
