// P17-P20 over a front end (Octave or Python), see api.h for the calls.
#pragma once
#include <atomic>
#include <csignal>
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <iostream>
#include <unistd.h>
#include <cstdlib>
#include <dlfcn.h>
#include <memory>
#include "api.h"
#include "enumr.h"
extern char **environ;
namespace fe {
using namespace api;
using en::Ctx; using en::Idx; using en::Space;

struct Res { bool error = false, text = false; string why; vector<AV> out, args; vector<bool> outflt; bool refused() const { return error || (out.empty() && text); } };
struct Host {
  std::function<void()> pre, post;                               // run immediately before and after the front end
  virtual ~Host() {}
  virtual const char *name() = 0;
  virtual bool has(Case &c) = 0;                           // is the function offered by this host
  virtual Res call(const Case &c, const vector<int> &cls) = 0;   // cls[i]: storage class of argument i (0 = plain)
  virtual int classes() = 0;
  virtual bool fits(const Case &c, int arg, int cls) = 0;        // can the argument be given in that class
  virtual bool optional_args() = 0;
  virtual int threads() = 0;
  virtual bool strict() { return false; }                        // numbers of another class than double are not offered
  virtual void settle() {}                                       // let go of garbage kept for later
};

inline string sh(const AV &a) { return a.str ? "'" + a.s + "'" : std::to_string(a.r) + "x" + std::to_string(a.c) + (a.odd ? "/" + std::to_string(a.odd) : ""); }
inline string show(const Case &c) { string s = c.fn + "("; for (auto &a : c.a) s += (s.back() == '(' ? "" : ",") + (a.str || a.v.size() != 1 ? sh(a) : en::S(a.v[0])); return s + ")"; }

// Does the outcome agree with what the core computes?
inline bool judge(Ctx &c, const string &tag, const Case &k, const Res &r) {
  c.calls++; c.steps++;
  const Want &w = k.w;
  string id = tag + k.fn + (k.fam == "das_f" ? " (single)" : "");
  for (size_t i = 0; i < k.a.size() && i < r.args.size(); i++) {
    if ((int)i == w.inplace || k.a[i].str || k.a[i].odd == 1 || k.a[i].odd == 2) continue;
    if (r.args[i].v != k.a[i].v) { c.fail(id + " changes argument " + std::to_string(i + 1), show(k)); return false; }
  }
  if (w.refuse) {
    c.triv = false;
    if (!r.refused()) { c.fail(id + " returns a result where it must stop", show(k)); return false; }
    if (!r.out.empty()) { c.fail(id + " returns a result together with an error", show(k)); return false; }
    return true;
  }
  if (r.error || (w.inplace < 0 && r.out.empty())) { c.fail(id + " refuses a well-formed call", r.why + " " + show(k)); return false; }
  if (w.inplace >= 0) {
    if (!r.out.empty()) { c.fail(id + " in-place call returns something", show(k)); return false; }
    return c.cmp(id + " in-place", r.args[w.inplace].v.data(), w.h.data(), w.h.size(), w.tol, nullptr, w.scale);
  }
  size_t want_out = std::max(1, k.nout);
  if (r.out.size() < want_out) { c.fail(id + " returns too few results", show(k)); return false; }
  const AV &o = r.out[0];
  if (o.r != w.r || o.c != w.c) { c.fail(id + " result has the wrong size", sh(o) + " instead of " + std::to_string(w.r) + "x" + std::to_string(w.c) + " " + show(k)); return false; }
  if (w.flt != o.flt) { c.fail(id + " result has the wrong precision", show(k)); return false; }
  if (!c.cmp(id, o.v.data(), w.h.data(), w.h.size(), w.tol, nullptr, w.scale)) return false;
  if (k.nout == 2 && k.maxout == 2 && k.kinds[0] != CA && k.kinds[0] != HH) {
    if (r.out[1].v.size() != 1 || r.out[1].v[0] != w.status) { c.fail(id + " reports the wrong status", (r.out[1].v.empty() ? string("nothing") : en::S(r.out[1].v[0])) + " instead of " + std::to_string(w.status) + " " + show(k)); return false; }
  }
  return true;
}
inline void threads_env(int t) { static const char *T[] = {"2", "1", "3", "8"}; setenv("DREAM_NUM_THREADS", T[t % 4], 1); }
inline vector<string> fams() { vector<string> f; for (auto &x : sir_fns()) f.push_back(x.fam); return f; }
inline bool is_arr(const string &f) { return f.compare(0, 4, "arr_") == 0; }

// ---------------------------------------------------------------- P19
inline void roundf_job(JobBuf &b) {
  auto R = [](double &x) { x = (float)x; };
  for (auto *v : {&b.Ro, &b.delay, &b.G, &b.focal, &b.apod, &b.Yd, &b.Gtd, &b.Grd}) for (double &x : *v) R(x);
  Job &j = b.j;
  for (double *x : {&j.alpha, &j.a, &j.b, &j.R, &j.Rcurv, &j.dx, &j.dy, &j.dt, &j.v, &j.cp, &j.theta, &j.phi, &j.apod_par, &j.dtf, &j.cpf}) R(*x);
  b.bind();
}
// the result of a convolution, copy or add call whose inputs were changed
inline void redo(Case &k, int mode) {
  if (k.fn == "copy_p" || k.fn == "add_p") {
    Vec h = k.a[0].v; long M = k.a[0].r, N = k.a[0].c;
    for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { double &q = h[x + (N - 2 + y) * M]; double b = k.a[3].v[x + 2 * y]; q = k.fn == "add_p" ? q + b : b; }
    k.w.h = h; return;
  }
  Vec y;
  if (k.fn == "sum_fftconv") {
    long M = k.a[0].r, N = k.a[0].c, L = k.a[1].r, Q = k.a[1].c, T = M + L - 1;
    y.assign(T * N, 0.0);
    for (long q = 0; q < Q; q++) for (long n = 0; n < N; n++) { Vec t = convol(&k.a[0].v[(q * N + n) * M], M, &k.a[1].v[q * L], L); for (long i = 0; i < T; i++) y[n * T + i] += t[i] / T; }
  } else {
    long M = k.a[0].r, N = k.a[0].c, L = k.a[1].r;
    for (long n = 0; n < N; n++) { Vec q = convol(&k.a[0].v[n * M], M, &k.a[1].v[k.a[1].c == 1 ? 0 : n * L], L); y.insert(y.end(), q.begin(), q.end()); }
    if (mode >= 3) { const Vec &y0 = k.a[k.w.inplace].v; for (size_t i = 0; i < y.size(); i++) y[i] = mode == 3 ? y0[i] + y[i] : y0[i] - y[i]; }
  }
  k.w.h = y;
}
// The functions one property is about; parts: 1 argument counts and options, 2 keywords, 4 imaging methods, 8 storage classes
struct Part { vector<string> F; int parts; bool lossy; };
inline Part part_of(const string &p) {
  if (p == "P19") return {fams(), 15, false};
  if (p == "P03") return {fams(), 5, false};
  if (p == "P04") return {fams(), 16, false};
  if (p == "P05") return {{"line", "rect", "circ"}, 1, false};
  if (p == "P06") return {{"rect_f", "circ_f"}, 3, false};
  if (p == "P07") return {{"sphere", "cylind"}, 1, false};
  if (p == "P08") return {{"arr_rect", "arr_circ", "arr_cylind"}, 3, false};
  if (p == "P09") return {{"arr_annu"}, 3, false};
  if (p == "P10") return {{"arr_rect", "arr_circ", "arr_cylind", "arr_annu", "rect_f", "circ_f"}, 2, false};
  if (p == "P11") return {fams(), 1, true};
  if (p == "P12") return {{"rect_sir", "circ_sir", "scirc_sir"}, 1, false};
  if (p == "P16") return {{"das", "das_f"}, 5, false};
  if (p == "P13" || p == "P14" || p == "P15") return {{}, 8, false};
  return {{}, 0, false};
}
inline void p19(Host &h, Drivers &ds, vector<Space> &s, bool th, const string &prop = "P19") {
  Part P = part_of(prop);
  if (!P.parts) return;
  string H = h.name(); H += ": ";
  Host *hp = &h; Drivers *dp = &ds;
  auto run = [hp](Ctx &c, Case &k, const vector<int> &cls = {}) { return judge(c, "", k, hp->call(k, cls)); };
  auto F = P.F;
  bool lossy = P.lossy;
  // every setting of the number of threads, usable or not
  if (P.parts & 16) s.push_back({H + "settings of the number of threads", {{"fn", (int)F.size() + 6}, {"setting", th ? 18 : 14}, {"columns", th ? 16 : 9}, {"variant", 2}}, [=](Ctx &c, const Idx &i) {
    static const char *T[] = {nullptr, "", "many", " ", "0", "1", "2", "7", "-2", "99999999999999999999", "4294967296", "1000000", "2x", "\t3", "4", "5", "6", "-99999999999999999999"};
    static const char *FN[] = {"conv_p", "fftconv_p", "fftconv_ola", "copy_p", "add_p", "sum_fftconv"};
    int q = i[0] - (int)F.size(), No = i[2] + 1;
    setenv("DREAM_NUM_THREADS", "2", 1);
    Case k;
    if (q < 0) { JobBuf b = base_job(F[i[0]], No, false, i[3] && No > 1, 1, {}, i[3]); k = make(*dp, b); }
    else if (q < 3) k = conv_case(FN[q], 5, 3, No, i[3], 0, 3);
    else if (q == 5) k = sum_case(5, 3, No, 2, 0, 3);
    else { if (No < 2 || i[3]) { c.skip(); return; } k = copy_case(FN[q], 6, No, 3); }
    if (!hp->has(k)) { c.skip(); return; }
    if (T[i[1]]) setenv("DREAM_NUM_THREADS", T[i[1]], 1); else unsetenv("DREAM_NUM_THREADS");
    run(c, k);
    setenv("DREAM_NUM_THREADS", "2", 1);
  }});
  // every optional argument count x outputs x level x window x delay form x attenuation x points
  if (P.parts & 1) s.push_back({H + "argument counts, outputs, levels", {{"fn", (int)F.size()}, {"drop", 5}, {"nout", 3}, {"err", 3}, {"oob", 4}, {"delay", 3}, {"alpha", 2}, {"No", th ? 4 : 3}, {"variant", 4}},
    [=](Ctx &c, const Idx &i) {
      const string &f = F[i[0]];
      const FnInfo &fi = info(f);
      int full = fi.kinds.size(), na = full - i[1];
      if (lossy && !i[6]) { c.skip(); return; }
      if (na < fi.minin || (i[1] && !hp->optional_args()) || i[2] > fi.maxout || (i[2] == 0 && i[8]) || (i[2] != 1 && !hp->optional_args())) { c.skip(); return; }
      bool err_arg = false; for (K q : fi.kinds) err_arg |= q == ERR;
      if (!err_arg && (i[3] || i[4])) { c.skip(); return; }
      if (i[8] > 1 && f != "das" && f != "das_f") { c.skip(); return; }
      static const int NO[] = {2, 1, 3, 5};
      int No = NO[i[7]];
      vector<int> where(No, 0);
      if (i[4] == 1) where[0] = 1; if (i[4] == 2) where[No - 1] = 2; if (i[4] == 3) for (int &x : where) x = 1;
      JobBuf b = base_job(f, No, i[6], i[5], i[3] + 1, where, i[8]);
      if (i[5] == 2 && No == 1) { c.skip(); return; }
      threads_env(i[7]);
      Case k = make(*dp, b, na, i[2]);
      if (!hp->has(k)) { c.skip(); return; }
      if (i[5] == 2) for (size_t a = 0; a < k.a.size(); a++) if (k.kinds[a] == DELAY || k.kinds[a] == DDELAY) std::swap(k.a[a].r, k.a[a].c);
      run(c, k);
    }});
  // row or column for every vector argument
  if (prop == "P19") s.push_back({H + "vector orientation", {{"fn", (int)F.size()}, {"mask", 256}, {"variant", 2}}, [=](Ctx &c, const Idx &i) {
    JobBuf b = base_job(F[i[0]], 3, false, i[2], 1, {}, i[2]);
    Case k = make(*dp, b);
    if (!hp->has(k)) { c.skip(); return; }
    int bit = 0;
    for (size_t a = 0; a < k.a.size(); a++) {
      K q = k.kinds[a];
      bool vec = !k.a[a].str && k.a[a].v.size() > 1 && q != RO && q != G3 && q != DY && q != DGT && q != DGR;
      if (!vec) continue;
      if (i[1] >> bit & 1) std::swap(k.a[a].r, k.a[a].c);
      bit++;
    }
    if (i[1] >> bit) { c.skip(); return; }
    threads_env(i[1]);
    run(c, k);
  }});
  // every keyword combination of the array and focusing functions
  if (P.parts & 2) s.push_back({H + "keywords", {{"fn", (int)F.size()}, {"foc", 6}, {"steer", 4}, {"apod", 9}, {"variant", 2}}, [=](Ctx &c, const Idx &i) {
    const string &f = F[i[0]];
    static const int FM[] = {ref::F_NONE, ref::F_X, ref::F_Y, ref::F_XY, ref::F_X_Y, ref::F_UD};
    bool arr = is_arr(f);
    if (f == "apodwin" ? i[1] || i[2] : arr ? (f == "arr_annu" && i[2]) : (f == "rect_f" || f == "circ_f") ? i[2] || i[3] || i[1] == 5 : true) { c.skip(); return; }
    JobBuf b = base_job(f, 2, i[4], true, 1, {}, i[4]);
    b.j.foc_met = FM[i[1]]; b.j.steer_met = i[2];
    b.focal = {25.0};
    if (i[1] == 5) b.focal = f == "arr_annu" ? Vec{0.13, 0.04} : Vec{0.05, 0.0, 0.12};
    b.j.do_apod = f == "apodwin" ? (i[3] == 8 ? -1 : 1) : i[3] < 8; b.j.apod_met = i[3] % 8;
    b.bind();
    Case k = make(*dp, b);
    if (!hp->has(k)) { c.skip(); return; }
    run(c, k);
  }});
  if (P.parts & 4) s.push_back({H + "delay-and-sum methods and keywords", {{"precision", 2}, {"method", 5}, {"nt", 3}, {"nr", 4}, {"err", 3}, {"delay", 2}, {"No", 3}, {"device", 3}}, [=](Ctx &c, const Idx &i) {
    string f = i[0] ? "das_f" : "das";
    JobBuf b = base_job(f, i[6] + 1, false, i[5], i[4] + 1, {}, i[1] % 4);
    b.j.nt_el = i[2] + 1; b.j.nr_el = i[1] == 0 ? (i[3] ? 0 : 0) : i[3];
    auto grid = [](long n, int ax, double o) { Vec g(3 * n, 0.0); for (long e = 0; e < n; e++) g[e + ax * n] = -1.5 + 0.75 * e + o; return g; };
    b.Gtd = grid(b.j.nt_el, 0, 0); b.Grd = grid(b.j.nr_el, i[1] >= 2 && i[1] != 4 ? 1 : 0, 0.25);
    if (i[1] == 4) { b.j.das_type = 2; b.Grd = grid(b.j.nr_el, 1, 0.25); }
    long scans = b.j.nt_el * (b.j.nr_el ? b.j.nr_el : 1);
    b.Yd.clear(); for (long q = 0; q < scans * b.j.a_scan_len; q++) b.Yd.push_back(mix(q));
    b.bind();
    Case k = make(*dp, b);
    if (!hp->has(k)) { c.skip(); return; }
    if (i[1] == 4) k.a[7].s = "rca";
    if (i[1] == 0 && i[3]) { if (i[3] > 1) { c.skip(); return; } k.a[2] = AV(b.j.nt_el, 3, b.Gtd, i[0]); }   // SAFT ignores the receivers
    if (i[7] && (int)k.a.size() > 9) { k.a[9].s = i[7] == 1 ? "cpu" : "gpu"; }
    run(c, k);
  }});
  // storage classes, each argument and each pair of arguments
  int NC = h.classes();
  if (prop == "P19" && NC > 1) s.push_back({H + "argument classes", {{"fn", (int)F.size()}, {"arg1", 14}, {"cls1", NC}, {"arg2", 14}, {"cls2", NC}, {"ints", 2}}, [=](Ctx &c, const Idx &i) {
    const FnInfo &fi = info(F[i[0]]);
    int n = fi.kinds.size();
    if (i[1] >= n || i[3] > i[1] || (i[3] == i[1] && i[4] != i[2])) { c.skip(); return; }
    JobBuf b = i[5] ? int_job(F[i[0]], 3) : base_job(F[i[0]], 3, true, true, 1, {}, 0);
    roundf_job(b);
    Case k = make(*dp, b);
    k.w.tol = std::max(k.w.tol, k.fam == "das_f" ? 1e-6 : 1e-12);
    if (!hp->has(k) || !hp->fits(k, i[1], i[2]) || !hp->fits(k, i[3], i[4])) { c.skip(); return; }
    vector<int> cls(n, 0);
    cls[i[1]] = i[2]; cls[i[3]] = i[4];
    threads_env(i[1]);
    run(c, k, cls);
  }});
  // convolution, copy and add arguments in every class
  if (P.parts & 8) s.push_back({H + "classes of convolution arguments", {{"fn", 6}, {"shape", 4}, {"cls1", NC}, {"cls2", NC}, {"mode", 5}, {"ints", 2}}, [=](Ctx &c, const Idx &i) {
    static const char *FN[] = {"conv_p", "fftconv_p", "fftconv_ola", "copy_p", "add_p", "sum_fftconv"};
    string f = FN[i[0]];
    if (prop != "P19" && prop != (i[0] == 1 ? "P13" : i[0] == 3 || i[0] == 4 ? "P15" : "P14")) { c.skip(); return; }
    long M[] = {5, 1, 4, 2}, L[] = {3, 4, 1, 2}, N[] = {2, 3, 1, 4};
    int q = i[1];
    Case k = i[0] < 3 ? conv_case(f, M[q], L[q], N[q], q & 1, i[4], 3) : i[0] == 5 ? sum_case(M[q], L[q], N[q], 2, i[4], 3) : copy_case(f, M[q] + 2, N[q] + 2, 3);
    if (i[0] >= 3 && i[4] > (i[0] == 5)) { c.skip(); return; }
    size_t p1 = i[0] == 3 || i[0] == 4 ? 3 : 0, p2 = i[0] < 3 || i[0] == 5 ? 1 : 2;
    if (i[5]) { for (size_t p : {p1, p2}) if (k.kinds[p] != RNG) for (double &x : k.a[p].v) x = std::floor(x); }
    else if (i[0] != 3 && i[0] != 4) for (size_t p : {p1, p2}) for (double &x : k.a[p].v) x = (float)x;
    redo(k, i[4]);
    if (!hp->has(k) || !hp->fits(k, p1, i[2]) || !hp->fits(k, p2, i[3])) { c.skip(); return; }
    if (k.w.inplace >= 0 && k.a[k.w.inplace].v.size() == 1) { c.skip(); return; }
    vector<int> cls(k.a.size(), 0); cls[p1] = i[2]; cls[p2] = i[3];
    threads_env(i[1]);
    run(c, k, cls);
  }});
  if (prop == "P13") s.push_back({H + "convolution sizes", {{"M", th ? 14 : 8}, {"K", th ? 14 : 8}, {"N", th ? 8 : 5}, {"B vector", 2}, {"threads", 4}}, [=](Ctx &c, const Idx &i) {
    if ((i[3] && !i[2]) || (!i[1] && i[2] && !i[3])) { c.skip(); return; }   // a 1xN second matrix is a vector
    threads_env(i[4]);
    Case k = conv_case("fftconv_p", i[0] + 1, i[1] + 1, i[2] + 1, i[3], 0, 3);
    if (!hp->has(k)) { c.skip(); return; }
    run(c, k);
  }});
  if (P.parts & 5 && !h.optional_args()) s.push_back({H + "keyword arguments", {{"fn", (int)F.size()}, {"variant", 4}, {"No", 3}, {"alpha", 2}, {"multi", 2}}, [=](Ctx &c, const Idx &i) {
    if (lossy && !i[3]) { c.skip(); return; }
    JobBuf b = base_job(F[i[0]], i[2] + 1, i[3], i[4], 1, {}, i[1]);
    Case k = make(*dp, b);
    if (!hp->has(k)) { c.skip(); return; }
    vector<int> cls(k.a.size(), 0); cls[0] = 8;
    run(c, k, cls);
  }});
}

// Runs body in a forked copy of the (still fresh) session.
inline void forked(Ctx &c, const string &what, std::function<void()> body) {
  fflush(c.rep); fflush(stdout); std::cout.flush();
  int p[2]; if (pipe(p)) return;
  pid_t k = fork();
  if (!k) {
    close(p[0]);
    long s0 = c.steps, c0 = c.calls, v0 = c.values;
    body();
    long r[5] = {c.failed, c.steps - s0, c.calls - c0, c.values - v0, !c.triv};
    fflush(c.rep);
    (void)!write(p[1], r, sizeof r);
    _exit(0);
  }
  close(p[1]);
  long r[5] = {0, 0, 0, 0, 0};
  size_t n = 0; ssize_t g; while (n < sizeof r && (g = read(p[0], (char *)r + n, sizeof r - n)) > 0) n += g;
  close(p[0]);
  int st = 0; waitpid(k, &st, 0);
  c.state(what.data(), what.size());
  c.steps += r[1]; c.calls += r[2]; c.values += r[3]; if (r[4]) c.triv = false;
  if (n < sizeof r) c.fail(what + ": the session dies", WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "no answer");
  else if (r[0]) { c.failed = true; c.nviol++; }
}
// ---------------------------------------------------------------- P17
inline vector<std::shared_ptr<Case>> alphabet(Host &h, Drivers &ds, bool das_only) {
  vector<std::shared_ptr<Case>> v;
  auto add = [&](Case k) { if (h.has(k)) v.push_back(std::make_shared<Case>(k)); };
  setenv("DREAM_NUM_THREADS", "2", 1);
  for (string f : {"das", "das_f"}) {
    for (int m = 0; m < 4; m++) { JobBuf b = base_job(f, 2, false, false, 1, {}, m); add(make(ds, b)); }
    auto dasj = [&](int m, long nt, long nr, long K_, long No, int err, double z) {
      JobBuf b = base_job(f, No, false, false, err, {}, m);
      b.j.nt_el = nt; b.j.nr_el = nr; b.j.a_scan_len = K_;
      auto grid = [](long n, int ax, double o) { Vec g(3 * n, 0.0); for (long e = 0; e < n; e++) g[e + ax * n] = -1.5 + 0.75 * e + o; return g; };
      b.Gtd = grid(nt, 0, 0); b.Grd = grid(nr, m >= 2 ? 1 : 0, 0.25);
      b.Yd.clear(); for (long q = 0; q < nt * (nr ? nr : 1) * K_; q++) b.Yd.push_back(mix(q + 3));
      if (z > 0) for (long n = 0; n < No; n++) b.Ro[2 * No + n] = z;
      b.bind();
      return b;
    };
    JobBuf b;
    b = dasj(1, 2, 3, 24, 2, 1, 0); add(make(ds, b));              // other element counts with the same product
    b = dasj(1, 3, 2, 40, 2, 1, 0); add(make(ds, b));              // longer record
    b = dasj(1, 3, 2, 12, 2, 1, 0); add(make(ds, b));              // shorter record: beyond it
    b = dasj(1, 3, 2, 24, 5, 1, 0); add(make(ds, b));              // more image points
    b = dasj(0, 3, 0, 24, 2, 3, 40); add(make(ds, b));             // stops: out of bounds
    if (f == "das") { b = dasj(2, 2, 4, 24, 3, 2, 0); add(make(ds, b)); b = dasj(1, 3, 0, 24, 2, 1, 0); add(make(ds, b)); }
    b = dasj(1, 3, 2, 24, 2, 1, 0); { Case k = make(ds, b); k.a[7].s = "nope"; k.w.refuse = true; add(k); }        // refused: keyword
    b = dasj(1, 3, 2, 24, 2, 1, 0); { Case k = make(ds, b); k.a[0].c--; k.a[0].v.resize(k.a[0].r * k.a[0].c); k.w.refuse = true; add(k); }   // refused: data
  }
  if (das_only) return v;
  for (auto &fi : sir_fns()) {
    string f = fi.fam;
    if (f == "das" || f == "das_f") continue;
    bool err = false; for (K q : fi.kinds) err |= q == ERR;
    JobBuf b = base_job(f, 2, false, false, 1, {}, 0); add(make(ds, b));
    if (f == "apodwin") continue;
    b = base_job(f, 3, true, true, 1, {}, 1, 23); add(make(ds, b));
    if (err) { b = base_job(f, 2, false, false, 3, {0, 1}, 0); add(make(ds, b)); }
    b = base_job(f, 2, false, false, 1, {}, 0); Case k = make(ds, b); k.a[0].c = 2; k.a[0].v.resize(k.a[0].r * 2); k.w.refuse = true; add(k);
  }
  for (string f : {"fftconv_p", "conv_p", "fftconv_ola"}) {
    add(conv_case(f, 5, 3, 2, false, 0, 3)); add(conv_case(f, 8, 4, 3, true, 0, 5)); add(conv_case(f, 5, 3, 2, true, 3, 7)); add(conv_case(f, 5, 3, 2, false, 1, 9));
    Case k = conv_case(f, 5, 3, 2, false, 0, 3); k.a[1] = AV(3, 3, filler(9, 4)); k.w.refuse = true; add(k);
  }
  add(sum_case(5, 3, 2, 2, false, 3)); add(sum_case(4, 3, 2, 3, true, 5));
  add(copy_case("copy_p", 3, 4, 3)); add(copy_case("add_p", 3, 4, 3));
  return v;
}
inline string label(const Case &k) { return show(k) + (k.w.refuse ? "->refused" : ""); }
inline void p17(Host &h, Drivers &ds, vector<Space> &s, bool th) {
  string H = h.name(); H += ": ";
  Host *hp = &h;
  auto seq = [hp](Ctx &c, const vector<std::shared_ptr<Case>> &al, const vector<int> &ix) {
    string past;
    for (size_t q = 0; q < ix.size(); q++) {
      const Case &k = *al[ix[q]];
      if (q) past += (q > 1 ? "; " : " after ") + al[ix[q - 1]]->fn + (al[ix[q - 1]]->w.refuse ? " (refused)" : "");
      if (!judge(c, "", k, hp->call(k, {}))) { c.fail(k.fn + " is wrong" + past, label(k)); return; }
    }
  };
  auto d = std::make_shared<vector<std::shared_ptr<Case>>>(alphabet(h, ds, true));
  auto a = std::make_shared<vector<std::shared_ptr<Case>>>(alphabet(h, ds, false));
  int nd = d->size(), na = a->size();
  // the first calls of a session: one good, one refused call of every function, in every order of two functions
  auto g = std::make_shared<vector<std::shared_ptr<Case>>>(), r = std::make_shared<vector<std::shared_ptr<Case>>>();
  { std::set<string> have;
    for (auto &k : *a) if (!k->w.refuse && have.insert(k->fam).second) { g->push_back(k); std::shared_ptr<Case> bad; for (auto &q : *a) if (q->fam == k->fam && q->w.refuse) { bad = q; break; } r->push_back(bad); } }
  int ng = g->size();
  s.push_back({H + "first calls of a session", {{"f1", ng}, {"f2", ng}, {"refused", 3}}, [=](Ctx &c, const Idx &i) {
    threads_env(0);
    const std::shared_ptr<Case> A = (*g)[i[0]], B = (*g)[i[1]], X = i[2] == 1 ? (*r)[i[0]] : i[2] == 2 ? (*r)[i[1]] : nullptr;
    if (i[2] && !X) { c.skip(); return; }
    forked(c, A->fam + " then " + B->fam, [&]() {
      vector<std::shared_ptr<Case>> q = i[2] == 1 ? vector<std::shared_ptr<Case>>{X, B, A} : i[2] == 2 ? vector<std::shared_ptr<Case>>{A, X, B, A} : vector<std::shared_ptr<Case>>{A, B, A};
      for (auto &k : q) if (!judge(c, "first calls of a session: ", *k, hp->call(*k, {}))) { c.fail(A->fam + " then " + B->fam, label(*k)); return; }
    });
  }});
  if (nd) s.push_back({H + "delay-and-sum call histories", {{"c1", nd}, {"c2", nd}, {"c3", nd}}, [=](Ctx &c, const Idx &i) { threads_env(0); seq(c, *d, {i[0], i[1], i[2]}); }});
  s.push_back({H + "call histories", {{"c1", na}, {"c2", na}, {"threads", 2}}, [=](Ctx &c, const Idx &i) { threads_env(i[2]); seq(c, *a, {i[0], i[1]}); }});
  if (th) s.push_back({H + "call histories of three", {{"c1", na}, {"c2", na}, {"c3", na}}, [=](Ctx &c, const Idx &i) { threads_env(0); seq(c, *a, {i[0], i[1], i[2]}); }});
  if (th && nd) s.push_back({H + "delay-and-sum call histories of four", {{"c1", nd}, {"c2", nd}, {"c3", nd}, {"c4", nd}}, [=](Ctx &c, const Idx &i) { threads_env(0); seq(c, *d, {i[0], i[1], i[2], i[3]}); }});
}

// ---------------------------------------------------------------- P18
inline AV pad(const AV &a, long r, long c) { AV o(r, c, Vec(r * c, 0.25), a.flt); for (size_t i = 0; i < o.v.size() && i < a.v.size(); i++) o.v[i] = a.v[i]; return o; }
inline AV odd(int kind, const AV &a) { AV o = a; o.odd = kind; if (kind == 3) { o = pad(a, a.r, a.c * 2); o.odd = 3; } return o; }
inline vector<std::pair<string, AV>> malformed(const Case &k, int pos, Host *h) {
  vector<std::pair<string, AV>> m;
  const AV &a = k.a[pos];
  K q = k.kinds[pos];
  auto add = [&](const string &n, AV v) { m.push_back({n, v}); };
  auto shape = [&](long r, long c) { if (r != a.r || c != a.c) add("size " + std::to_string(r) + "x" + std::to_string(c), pad(a, r, c)); };
  long No = 0; for (size_t i = 0; i < k.a.size(); i++) if (k.kinds[i] == RO) No = k.a[i].r;
  if (q == DGR && a.v.empty()) { m.push_back({"cell", odd(1, a)}); m.push_back({"struct", odd(2, a)}); return m; }   // every empty matrix means: no receivers
  if (a.str) {
    if (q != VERB) { for (string s : {string("nope"), string(""), a.s + "x", string(1, a.s[0] ? (char)(a.s[0] ^ 32) : '?') + a.s.substr(a.s.empty() ? 0 : 1)}) if (s != a.s) add("string '" + s + "'", AV(s)); }
    add("number", AV::sc(1)); add("vector", AV::row({1, 2, 3})); add("empty", AV(0, 0, {})); AV o = a; o.odd = 1; add("cell", o);
    return m;
  }
  AV cell = odd(1, a), st = odd(2, a);
  switch (q) {
  case RO: case G3: case DGT: case DGR:
    shape(a.r, 2); shape(a.r, 4); shape(a.r, 1); if (a.r != 3) shape(3, a.r); if (q != DGR) shape(0, 0);
    add("3-D", odd(3, a)); break;
  case DY: shape(a.r, a.c - 1); shape(a.r, a.c + 1); shape(a.r, 1); shape(0, 0); add("3-D", odd(3, a)); break;
  case DELAY: case DDELAY:
    shape(1, No + 1); shape(No + 1, 1); if (No > 2) { shape(No - 1, 1); shape(1, No - 1); } if (No > 1) { shape(No, No); shape(No, 2); shape(2, No); } shape(0, 0); shape(0, 1); shape(1, 0); break;
  case GRAD: shape(2, 1); shape(1, 2); shape(1, 4); shape(2, 2); shape(3, 3); shape(2, 3); shape(0, 0); break;
  case FOCALV: case APOD: case APODN: {
    long n = a.v.size();
    if (q == APOD) { bool ud = false; for (size_t i = 0; i < k.a.size(); i++) if (k.kinds[i] == AMET) ud = k.a[i].s == "ud"; if (!ud) return {}; }
    if (q == APODN && n > 1) { shape(0, 0); break; }
    shape(n + 1, 1); shape(1, n + 1); if (n > 1) { shape(n - 1, 1); } shape(0, 0); break;
  }
  case GEO: case SAMP: case SAMP2: case MAT3: case MAT2: case SPAR: {
    long n = a.v.size();
    shape(1, n + 1); shape(n + 1, 1); if (n > 1) { shape(1, n - 1); shape(n - 1, 1); } shape(2, n); shape(n, 2); shape(0, 0); if (n > 1) add("string", AV("q")); add("3-D", odd(3, a)); break;
  }
  case FOCAL1: case WPAR: case DT: case CP: case NINT: case CBLK: shape(1, 2); shape(2, 1); shape(2, 2); shape(0, 0); break;
  case CB: if (a.c > 1) { shape(a.r, a.c + 1); shape(a.r, a.c - 1 > 1 ? a.c - 1 : a.c + 2); } break;
  case CA: break;      // a 3-D array is a matrix with more columns
  case CY: shape(a.r + 1, a.c); shape(a.r - 1, a.c); shape(a.r, a.c + 1); shape(a.r, a.c - 1); shape(a.c, a.r); shape(0, 0); break;
  case UU: shape(a.r, a.c + 1); shape(a.r, a.c - 1); break;
  case RNG: shape(1, 1); shape(1, 3); shape(0, 0); shape(3, 1); break;
  case SRC: shape(a.r + 1, a.c); shape(a.r, a.c - 1); shape(0, 0); break;
  default: break;
  }
  add("cell", cell); add("struct", st);
  if (h->strict() && !a.v.empty()) for (int o : {11, 12, 13, 14}) {
    if (o == 11 && k.fn == "das") continue;
    AV x = a; x.odd = o; add(o == 11 ? "single" : o == 12 ? "int32" : o == 13 ? "logical" : "text", x);
  }
  return m;
}
inline size_t info_or(const Case &k) {
  for (auto &f : sir_fns()) if (k.fam == f.fam) return f.kinds.size();
  return k.fn == "fftconv_p" ? 5 : k.fn == "fftconv_ola" ? 6 : 4;
}
struct Bad { Case k; string what; int good; };
inline void p18(Host &h, Drivers &ds, vector<Space> &s, bool th) {
  string H = h.name(); H += ": ";
  auto good = std::make_shared<vector<Case>>();
  auto bad = std::make_shared<vector<Bad>>();
  setenv("DREAM_NUM_THREADS", "2", 1);
  auto addg = [&](Case k) { if (h.has(k)) good->push_back(k); };
  for (auto &fi : sir_fns()) for (int variant = 0; variant < (string(fi.fn) == "das" ? 4 : 2); variant++) for (int No : {3, 1}) {
    JobBuf b = base_job(fi.fam, No, variant, No > 1, 1, {}, variant);
    if (string(fi.fam) == "apodwin" && variant) b.j.apod_met = ref::A_UD;
    addg(make(ds, b));
  }
  for (string f : {"fftconv_p", "conv_p", "fftconv_ola"}) for (int m = 0; m < 5; m++) for (int vec = 0; vec < 2; vec++) addg(conv_case(f, 5, 3, 3, vec, m, 3 + m));
  addg(sum_case(5, 3, 2, 2, false, 3)); addg(sum_case(5, 3, 2, 2, true, 3)); addg(copy_case("copy_p", 3, 4, 3)); addg(copy_case("add_p", 3, 4, 3));
  for (size_t g = 0; g < good->size(); g++) {
    const Case &k = (*good)[g];
    for (size_t p = 0; p < k.a.size(); p++) for (auto &v : malformed(k, p, &h)) { Bad b{k, "argument " + std::to_string(p + 1) + " " + v.first, (int)g}; b.k.a[p] = v.second; bad->push_back(b); }
    // counts
    for (int n = 0; n < k.minin; n++) { Bad b{k, std::to_string(n) + " arguments", (int)g}; b.k.a.resize(n); bad->push_back(b); }
    for (int t = 0; t < 2; t++) { Bad b{k, "one argument too many", (int)g}; while (b.k.a.size() <= info_or(k)) { b.k.a.push_back(t ? AV("stop") : AV::sc(1)); b.k.kinds.push_back(WPAR); } bad->push_back(b); }
    if (h.optional_args()) { Bad b{k, "too many results wanted", (int)g}; b.k.nout = k.maxout + 1; if (k.w.inplace < 0) bad->push_back(b); }
    // precision mixes of delay-and-sum
    if (k.fn == "das" && h.optional_args()) for (int p : {0, 1, 2, 3, 5}) { Bad b{k, "precision of argument " + std::to_string(p + 1), (int)g}; if (b.k.a[p].v.empty()) continue; b.k.a[p].flt = !b.k.a[p].flt; bad->push_back(b); }
  }
  Host *hp = &h;
  int nb = bad->size();
  s.push_back({H + "malformed calls", {{"call", nb}, {"threads", th ? 3 : 1}}, [=](Ctx &c, const Idx &i) {
    const Bad &b = (*bad)[i[0]];
    threads_env(i[1]);
    c.triv = false;
    Case k = b.k; k.w = Want(); k.w.refuse = true;
    c.desc += " " + k.fn + ": " + b.what;
    string key = b.what.substr(0, b.what.find(" size"));
    Res r = hp->call(k, {});
    c.calls++; c.steps++; c.values++;
    c.state(b.what.data(), b.what.size());
    string id = k.fn + (k.fam == "das_f" ? " (single)" : "") + ", " + b.what;
    if (!r.refused()) { c.fail(id + ": accepted", show(k)); return; }
    if (!r.out.empty()) { c.fail(id + ": error and result", ""); return; }
    for (size_t q = 0; q < k.a.size() && q < r.args.size(); q++) if (!k.a[q].str && !k.a[q].odd && r.args[q].v != k.a[q].v) { c.fail(id + ": argument changed", ""); return; }
    // the session stays usable
    const Case &g = (*good)[b.good];
    judge(c, "after a refused call: ", g, hp->call(g, {}));
  }});
}

// ---------------------------------------------------------------- P20
// A signal is raised just before the k-th thread of a call is created.
struct Hook { int at = -1, signo = 0, count = 0; bool armed = false, own = false, delivered = false, process = false; };
inline Hook &hook() { static Hook h; return h; }
inline volatile sig_atomic_t *hits() { static volatile sig_atomic_t h[65]; return h; }
inline void sentinel(int s) { hits()[s]++; }
inline void sentinel3(int s, siginfo_t *, void *) { hits()[s]++; }
// A host that blocks the signals everywhere and takes them with sigwait() in a thread of its own, as Octave and Julia do.
inline void waiting_set(sigset_t &m) { sigemptyset(&m); sigaddset(&m, SIGINT); sigaddset(&m, SIGTERM); sigaddset(&m, SIGABRT); }
inline std::atomic<int> *waited() { static std::atomic<int> w[65]; return w; }
inline void *waiter(void *) { sigset_t m; waiting_set(m); for (int s;;) if (!sigwait(&m, &s)) waited()[s]++; return nullptr; }
inline void waiting_host(bool on) {
  static pid_t started = 0;
  sigset_t m; waiting_set(m);
  pthread_sigmask(on ? SIG_BLOCK : SIG_UNBLOCK, &m, nullptr);
  if (on && started != getpid()) { pthread_t t; if (pthread_create(&t, nullptr, waiter, nullptr)) abort(); pthread_detach(t); started = getpid(); usleep(20000); }
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
inline void *host_handler(int s) { struct sigaction a; sigaction(s, nullptr, &a); return a.sa_flags & SA_SIGINFO ? (void *)a.sa_sigaction : (void *)a.sa_handler; }
inline void before_create() {
  Hook &h = hook();
  if (!h.armed || h.count++ != h.at) return;
  void *p = host_handler(h.signo);
  if (p == (void *)SIG_DFL) return;
  h.own = p != (void *)SIG_IGN && p != (void *)sentinel && p != (void *)sentinel3;
  h.delivered = true;
  if (h.process) kill(getpid(), h.signo); else raise(h.signo);
}
struct State {
  std::map<string, string> v;
  void put(const string &k, const void *p, size_t n) { v[k] = string((const char *)p, n); }
  State() {
    for (int s : {SIGINT, SIGTERM, SIGABRT, SIGHUP, SIGQUIT, SIGPIPE, SIGALRM, SIGUSR1, SIGUSR2, SIGCHLD, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {
      struct sigaction a; memset(&a, 0, sizeof a); sigaction(s, nullptr, &a);
      void *h = a.sa_flags & SA_SIGINFO ? (void *)a.sa_sigaction : (void *)a.sa_handler;
      string n = string("handler of ") + strsignal(s);
      put(n, &h, sizeof h);
      int f = a.sa_flags & ~0x04000000; put(n + " (flags)", &f, sizeof f);
      string m; for (int q = 1; q < 64; q++) m += sigismember(&a.sa_mask, q) == 1 ? '1' : '0';
      v[n + " (mask)"] = m;
    }
    sigset_t ms; sigprocmask(SIG_BLOCK, nullptr, &ms); string m; for (int q = 1; q < 64; q++) m += sigismember(&ms, q) == 1 ? '1' : '0'; v["blocked signals"] = m;
    string e; for (char **p = environ; *p; p++) e += string(*p) + "\n"; v["environment"] = e;
    char cwd[4096]; if (getcwd(cwd, sizeof cwd)) v["working directory"] = cwd;
    int r = fegetround(), x = fegetexcept(); put("rounding mode", &r, sizeof r); put("floating point traps", &x, sizeof x);
    unsigned mx = __builtin_ia32_stmxcsr() & ~0x3fu; put("floating point mode", &mx, sizeof mx);
    v["locale"] = setlocale(LC_ALL, nullptr);
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); put("processor affinity", &cs, sizeof cs);
    v["priority"] = std::to_string(getpriority(PRIO_PROCESS, 0)) + "/" + std::to_string(sched_getscheduler(0));
    mode_t u = umask(0); umask(u); put("umask", &u, sizeof u);
    int fds = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) fds++; closedir(d); } put("open files", &fds, sizeof fds);
    struct itimerval it; getitimer(ITIMER_REAL, &it); put("timer", &it, sizeof it);
  }
  string diff(const State &o) const { for (auto &p : v) if (o.v.at(p.first) != p.second) return p.first; return ""; }
};
inline int nthreads_now() { int n = 0; if (DIR *d = opendir("/proc/self/task")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); } return n; }
inline void install(int kind) {
  for (int s : {SIGINT, SIGTERM, SIGABRT}) {
    struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask);
    if (kind == 0) { a.sa_handler = sentinel; a.sa_flags = s == SIGINT ? 0 : SA_NODEFER; sigaddset(&a.sa_mask, SIGUSR1); }
    if (kind == 1) { a.sa_sigaction = sentinel3; a.sa_flags = SA_SIGINFO | SA_RESTART | (s == SIGTERM ? SA_ONSTACK : 0); sigaddset(&a.sa_mask, s == SIGINT ? SIGUSR2 : SIGHUP); }
    if (kind == 2) a.sa_handler = SIG_IGN;
    if (kind == 3) a.sa_handler = SIG_DFL;
    sigaction(s, &a, nullptr);
  }
}
// Every kind of call: well-formed, malformed, out of the window, convolutions in every mode.
inline std::shared_ptr<vector<std::shared_ptr<Case>>> outcomes(Host &h, Drivers &ds) {
  auto a = std::make_shared<vector<std::shared_ptr<Case>>>(alphabet(h, ds, false));
  { setenv("DREAM_NUM_THREADS", "2", 1);      // malformed and stopped calls too
    for (auto &fi : sir_fns()) {
      JobBuf b = base_job(fi.fam, 4, false, false, 1, {}, 0); Case k = make(ds, b);
      if (!h.has(k)) continue;
      a->push_back(std::make_shared<Case>(k));
      for (size_t q = 0; q < k.a.size(); q++) { auto m = malformed(k, q, &h); if (!m.empty()) { Case x = k; x.a[q] = m[0].second; x.w = Want(); x.w.refuse = true; a->push_back(std::make_shared<Case>(x)); } }
    }
    for (auto f : {"conv_p", "fftconv_p", "fftconv_ola"}) for (int m = 0; m < 5; m++) { Case k = conv_case(f, 6, 4, 4, m & 1, m, 11); if (h.has(k)) a->push_back(std::make_shared<Case>(k)); }
  }
  return a;
}
inline void p20(Host &h, Drivers &ds, vector<Space> &s, bool th) {
  string H = h.name(); H += ": ";
  Host *hp = &h;
  auto a = outcomes(h, ds);
  int na = a->size();
  auto body = [=](Ctx &c, int ci, int sg, int k, int hk, int threads, int follow) {
    static const int SG[] = {0, SIGINT, SIGTERM, SIGABRT};
    if (!sg && k) { c.skip(); return; }
    threads_env(threads);
    const Case &cs = *(*a)[ci];
    struct Wait { bool on; Wait(bool o) : on(o) { if (on) waiting_host(true); } ~Wait() { if (on) waiting_host(false); } } wait(hk == 4);
    int t0 = nthreads_now();
    std::unique_ptr<State> sb, sa;
    hp->pre = [&]() { install(hk % 4); sb.reset(new State); hook().armed = sg; };
    hp->post = [&]() { hook().armed = false; sa.reset(new State); };
    Hook &hh = hook();
    hh = Hook(); hh.at = sg ? k : -1; hh.signo = SG[sg]; hh.process = hk == 4;
    for (int q = 0; q < 65; q++) { hits()[q] = 0; waited()[q] = 0; }
    Res r = hp->call(cs, {});
    hh.armed = false;
    hp->pre = hp->post = nullptr;
    if (hk == 4) waiting_host(true);        // Octave's own recovery from errors resets the mask
    State &before = *sb, &after = *sa;
    auto host_got = [](int s, int n) { for (int q = 0; q < 2000 && waited()[s] + hits()[s] < n; q++) usleep(1000); return waited()[s] + hits()[s]; };
    int handled = hits()[SG[sg]];
    if (hk == 4) handled = hh.delivered && !hh.own ? host_got(SG[sg], 1) : waited()[SG[sg]] + handled;
    string what = cs.fn + (cs.fam == "das_f" ? " (single)" : "") + (cs.w.refuse ? " (refused)" : "") + (sg && hh.own ? string(" (cancelled by ") + strsignal(SG[sg]) + ")" : "") + (hk == 4 ? " in a host that blocks signals" : "");
    c.desc += " " + what + (sg ? " signal before thread " + std::to_string(k) : "");
    install(3);
    if (sg && k && !hh.delivered) { c.skip(); return; }
    c.triv = false;
    c.steps++; c.calls++; c.values += before.v.size();
    { string st = what + std::to_string(hk) + std::to_string(k) + std::to_string(hh.count); c.state(st.data(), st.size()); }
    string d = before.diff(after);
    if (!d.empty()) { c.fail(what + " changes the " + d, show(cs)); return; }
    int n = 0; while (nthreads_now() > t0 && n++ < 2000) usleep(1000);
    if (nthreads_now() > t0) { c.fail(what + " leaves threads behind", show(cs)); return; }
    if (hh.delivered && hh.own) {
      if (!r.refused()) { c.fail(what + " returns normally", show(cs)); return; }
      if (!r.out.empty()) { c.fail(what + " returns a result", show(cs)); return; }
      if (handled) { c.fail(what + " also reaches the host", show(cs)); return; }
    } else {
      if (hh.delivered && (hk < 2 || hk == 4) && handled != 1) { c.fail(what + " swallows a signal it does not handle", show(cs)); return; }
      if (!judge(c, "", cs, r)) return;
    }
    // an interrupt after the call reaches the host's own handler
    if (hk < 2) {
      install(hk);
      for (int q : {SIGINT, SIGTERM, SIGABRT}) { int n0 = hits()[q]; raise(q); if (hits()[q] != n0 + 1) { install(3); c.fail(what + ": a later signal does not reach the host", show(cs)); return; } }
      install(3);
    }
    if (hk == 4) for (int q : {SIGINT, SIGTERM, SIGABRT}) { int n0 = waited()[q] + hits()[q]; kill(getpid(), q); if (host_got(q, n0 + 1) != n0 + 1) { c.fail(what + ": a later signal does not reach the host", show(cs)); return; } }
    const Case &f = *(*a)[follow];
    if (&f != &cs || !cs.w.refuse) judge(c, "after " + what + ": ", f, hp->call(f, {}));
  };
  s.push_back({H + "session state", {{"call", na}, {"signal", 4}, {"before thread", 3}, {"host handler", 5}, {"threads", 2}}, [=](Ctx &c, const Idx &i) {
    body(c, i[0], i[1], i[2], i[3], i[4] * 2, i[3] & 1 ? (i[0] + 1) % na : i[0]); }});
  if (th) s.push_back({H + "any call after a cancelled call", {{"call", na}, {"signal", 3}, {"next", na}}, [=](Ctx &c, const Idx &i) { body(c, i[0], i[1] + 1, 0, 0, 0, i[2]); }});
}
// ---------------------------------------------------------------- P23
#ifdef FE_LEAKS
inline void p23(Host &h, Drivers &ds, vector<Space> &s, bool th) {
  string H = h.name(); H += ": ";
  Host *hp = &h;
  auto a = outcomes(h, ds);
  int na = a->size();
  s.push_back({H + "repeated calls", {{"call", na}, {"signal", th ? 4 : 2}, {"before thread", 2}, {"threads", 2}}, [=](Ctx &c, const Idx &i) {
    static const int SG[] = {0, SIGINT, SIGTERM, SIGABRT};
    int sg = i[1];
    if (!sg && i[2]) { c.skip(); return; }
    if (!th && sg) sg = (*a)[i[0]]->fn.find("conv") != string::npos ? 2 : 1;
    threads_env(i[3] * 2);
    const Case &cs = *(*a)[i[0]];
    Hook &hh = hook(); bool delivered = false, refused = false;
    hp->pre = [&]() { install(sg ? 0 : 2); hh = Hook(); hh.at = sg ? i[2] : -1; hh.signo = SG[sg]; hh.armed = sg != 0; };
    hp->post = [&]() { hh.armed = false; delivered |= hh.delivered; };
    string g = leak::grows([&]() { Res r = hp->call(cs, {}); refused = r.refused(); c.calls++; hp->settle(); });
    hp->pre = hp->post = nullptr; install(3);
    if (sg && i[2] && !delivered) { c.skip(); return; }
    string what = cs.fn + (cs.fam == "das_f" ? " (single)" : "") + (cs.w.refuse ? " (refused)" : "") + (delivered && hh.own ? string(" (cancelled by ") + strsignal(SG[sg]) + ")" : "");
    c.desc += " " + what; c.steps++; c.values++; c.triv = false; c.state(&refused, sizeof refused); c.state(c.desc.data(), c.desc.size());
    if (!g.empty()) c.fail(what + " leaks", g + ": " + show(cs));
  }});
}
#endif
inline void all(Host &h, Drivers &ds, vector<Space> &s, bool th, const string &prop) {
  if (prop == "P17") p17(h, ds, s, th);
  if (prop == "P18") p18(h, ds, s, th);
  p19(h, ds, s, th, prop);
  if (prop == "P20") p20(h, ds, s, th);
#ifdef FE_LEAKS
  if (prop == "P23") p23(h, ds, s, th);
#endif
}
} // namespace fe
