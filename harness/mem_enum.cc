// Every call with each argument in a buffer of exactly its size next to an
// inaccessible page, inputs write-protected, and fresh memory, stack and output
// filled with two different patterns.
//   mem_enum DIR PROP TIER [enumr.h options]
#include "enumr.h"
#include "jobs.h"
#include <malloc.h>
#include <math.h>
#include <thread>
#include "circ_sir.h"
#include "scirc_sir.h"
#include "leak.h"
using en::Ctx; using en::Idx; using en::Space; using std::string; using std::vector;

static string g_dir; static bool thorough, leaks;    // leaks: P23, otherwise P22
static Driver *drv(const string &f) { static std::map<string, Driver *> m; auto &d = m[f]; if (!d) d = load_family(g_dir, f); return d; }

// n bytes that end (or begin) at an inaccessible page
struct Guard {
  char *base = nullptr, *p = nullptr; size_t len = 0, n = 0; bool prot = false;
  void put(const void *src, size_t bytes, bool end, bool ro) {
    size_t pg = 4096, body = (bytes + pg - 1) / pg * pg; if (!body) body = pg;
    n = bytes;
    if (len != body + 2 * pg) {
      drop(); len = body + 2 * pg;
      base = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (base == MAP_FAILED) { perror("mmap"); exit(3); }
      mprotect(base, pg, PROT_NONE); mprotect(base + pg + body, pg, PROT_NONE);
    } else if (prot) mprotect(base + pg, body, PROT_READ | PROT_WRITE);
    prot = ro;
    p = end ? base + pg + body - bytes : base + pg;
    // the rest of the page holds a value that would show in any result
    for (char *q = base + pg; q + 8 <= base + pg + body; q += 8) { double poison = 7.1e77; memcpy(q, &poison, 8); }
    if (bytes) memcpy(p, src, bytes);
    if (ro && mprotect(base + pg, body, PROT_READ)) exit(3);
  }
  // bytes of the page around the buffer, to find stray writes on the open side
  bool stray() const {
    size_t pg = 4096;
    for (char *q = base + pg; q + 8 <= base + len - pg; q += 8) {
      if (q + 8 > p && q < p + n) continue;
      double d; memcpy(&d, q, 8); if (d != 7.1e77) return true;
    }
    return false;
  }
  void drop() { if (base) munmap(base, len); base = nullptr; len = 0; prot = false; }
  ~Guard() { drop(); }
};
static volatile char g_sink;
static void __attribute__((noinline)) scribble(int fill) {
  volatile char a[96 * 1024];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (char)fill;
  g_sink = a[fill];
}
static void fresh(int fill) { mallopt(M_PERTURB, fill); scribble(fill); scribble(255 - fill); scribble(fill); }
static void threads(int n) { setenv("DREAM_NUM_THREADS", std::to_string(n).c_str(), 1); }

struct Bound {
  Guard Ro, delay, G, focal, apod, A, B, Y, Gt, Gr, Rof, delf, out;
  // out_fill: nullptr zeros
  void bind(JobBuf &b, bool end, const vector<char> &o) {
    b.bind(); Job &j = b.j;
    auto d = [&](Guard &g, const vector<double> &v, const double *&p) { g.put(v.data(), v.size() * 8, end, true); p = (const double *)g.p; };
    d(Ro, b.Ro, j.Ro); d(delay, b.delay, j.delay); d(G, b.G, j.G); d(focal, b.focal, j.focal); d(apod, b.apod, j.apod); d(A, b.A, j.A); d(B, b.B, j.B);
    if (b.fam == "das_f") {
      auto f = [&](Guard &g, const vector<float> &v, const void *&p) { g.put(v.data(), v.size() * 4, end, true); p = g.p; };
      f(Y, b.Yf, j.Y); f(Gt, b.Gtf, j.Gt); f(Gr, b.Grf, j.Gr); f(Rof, b.Rof, j.Rof); f(delf, b.delf, j.delayf);
    } else if (b.is_das()) {
      auto f = [&](Guard &g, const vector<double> &v, const void *&p) { g.put(v.data(), v.size() * 8, end, true); p = g.p; };
      f(Y, b.Yd, j.Y); f(Gt, b.Gtd, j.Gt); f(Gr, b.Grd, j.Gr); f(Rof, b.Ro, j.Rof); f(delf, b.delay, j.delayf);
    }
    out.put(o.data(), o.size(), end, false);
  }
};
static vector<char> filled(const JobBuf &b, int fill) {
  vector<char> o(b.outbytes(), 0);
  if (b.is_das() || (b.is_conv() && b.j.mode == 0)) std::fill(o.begin(), o.end(), (char)fill);        // handed out uninitialised by the front ends
  else if (b.is_conv()) { double *p = (double *)o.data(); for (size_t i = 0; i < o.size() / 8; i++) p[i] = mix(i + 333); }
  return o;
}
// two runs that differ only in what fresh memory contains and on which side of the buffers the inaccessible page lies
static void check(Ctx &c, JobBuf &b, int nthr) {
  threads(nthr);
  if (leaks) {                                     // P23: repeating the call does not add to the heap
    b.bind(); vector<char> o = filled(b, 0); o.resize(o.size() + 16);
    Driver *d = drv(b.fam); int st = 0;
    string g = leak::grows([&]() { st = b.run(d, o.data()); c.calls++; });
    c.values++; c.triv = false; c.state(&st, sizeof st); c.state(c.desc.data(), c.desc.size());
    if (!g.empty()) c.fail(b.fam + " leaks", g);
    return;
  }
  vector<char> r[2]; int st[2]; bool run[2];
  for (int k = 0; k < 2; k++) {
    JobBuf q = b; static Bound g; g.bind(q, k == 0, filled(q, k ? 0x3f : 0xff));
    Driver *d = drv(b.fam);
    fresh(k ? 0x3f : 0xff);
    st[k] = q.run(d, g.out.p); run[k] = d->is_running(); c.calls++;
    r[k].assign(g.out.p, g.out.p + g.out.n);
    if (g.out.stray()) { c.fail(b.fam + " stray write", "memory next to the result was written"); return; }
  }
  if (st[0] != st[1] || run[0] != run[1]) { c.fail(b.fam + " status", "status depends on the contents of fresh memory: " + std::to_string(st[0]) + " and " + std::to_string(st[1])); return; }
  if (!run[0]) { c.values++; c.triv = false; c.state(&st[0], sizeof st[0]); return; }   // stopped: the call ends in an error
  c.values += r[0].size() / b.elem(); c.state(r[0].data(), r[0].size());
  for (char ch : r[0]) if (ch) c.triv = false;
  if (memcmp(r[0].data(), r[1].data(), r[0].size())) {
    size_t i = 0; while (r[0][i] == r[1][i]) i++;
    c.fail(b.fam + " fresh memory", "result depends on the contents of fresh memory at element " + std::to_string(i / b.elem()));
  }
}

// window positions in units of the window length, relative to an in-window delay
static const vector<double> &shifts() { static vector<double> v = {0, -0.31, 0.47, -0.93, 1.7, -2.3, 1e5, 0.96, -1e5}; return v; }

int main(int argc, char **argv) {
  g_dir = argv[1]; thorough = string(argv[3]) == "thorough"; leaks = string(argv[2]) == "P23";
  bool th = thorough;
  vector<Space> s;
  const auto &F = all_families();
  static const long NTS[] = {16, 1, 2, 3, 7, 64, 129};
  // every family, two settings, every size down to one of everything
  s.push_back({"sizes", {{"family", (int)F.size()}, {"variant", th ? 4 : 2}, {"points", th ? 5 : 2}, {"nt", th ? 7 : 6}, {"shift", th ? 9 : 7}, {"alpha", 2}, {"multi", 2}, {"level", th ? 3 : 2}, {"threads", th ? 3 : 2}, {"shape", 4}}, [&F](Ctx &c, const Idx &i) {
    const string &f = F[i[0]];
    bool dl = f == "das" || f == "das_f", cv = f == "fftconv_p";
    if (cv && (i[3] || i[4] || i[5] || i[7])) { c.skip(); return; }
    if ((dl || f == "rect_sir") && i[5]) { c.skip(); return; }
    if (f == "rect_sir" && i[7]) { c.skip(); return; }
    JobBuf b = small_job(f, thorough ? i[2] + 1 : 2 * i[2] + 1, i[5], i[6], thorough ? i[7] + 1 : 2 * i[7] + 1, {}, i[1], NTS[i[3]]);
    Job &j = b.j;
    if (i[9] == 1) { j.dx = 40; j.dy = 50; }                               // one cell
    if (i[9] == 2) {                                                       // one element, one ring
      if (b.is_arr()) { j.num_elements = 1; b.G = {0.2, -0.1, 0.05}; b.apod = {0.75}; if (j.foc_met == ref::F_UD) b.focal = {0.04}; }
      else if (f == "arr_annu") { j.num_elements = 1; b.G = {0.4}; b.apod = {0.75}; b.focal = {j.foc_met == ref::F_UD ? 0.04 : 20.0}; }
      else if (dl) { j.nt_el = 1; j.nr_el = j.das_type ? 1 : 0; b.Gtd = {0.3, 0, 0}; b.Grd.clear(); if (j.nr_el) b.Grd = {0.1, -0.2, 0}; b.Yd.resize(j.a_scan_len); }
      else if (cv) { j.A_M = 1; b.A.resize(j.A_N); }
      else { j.a = 0.02; j.b = 0.01; j.R = 0.004; }
    }
    if (i[9] == 3) {                                                       // five elements, even ring count, longer data
      if (b.is_arr()) { j.num_elements = 5; b.G.clear(); for (int k = 0; k < 15; k++) b.G.push_back(0.1 * (k % 5) - 0.2 * (k / 5)); b.apod = {0.2, 0.4, 0.6, 0.8, 1.0}; if (j.foc_met == ref::F_UD) b.focal = {0, 0.1, 0.2, 0.1, 0}; }
      else if (f == "arr_annu") { j.num_elements = 4; b.G = {0.2, 0.25, 0.3, 0.45}; b.apod = {1.0, 0.5, 0.25}; if (j.foc_met == ref::F_UD) b.focal = {0.13, 0.04}; b.apod.resize(2); }
      else if (dl) { j.a_scan_len = NTS[i[3]]; b.Yd.resize(j.a_scan_len * j.nt_el * (j.nr_el ? j.nr_el : 1)); }
      else if (cv) { j.B_M = 1; b.B.resize(j.B_N); }
      else { j.a *= 3; j.b *= 4; j.R *= 3; j.dx = 0.13; j.dy = 0.17; }
    }
    double win = dl ? j.a_scan_len * j.dtf : j.nt * j.dt;
    for (double &d : b.delay) d += shifts()[i[4]] * win;
    static const int TN[] = {1, 3, 2};
    check(c, b, TN[i[8]]);
  }});
  // every focusing, steering and weighting method of the arrays and focused transducers
  s.push_back({"options", {{"family", 6}, {"focus", 8}, {"steer", 4}, {"weights", 9}, {"elements", 4}, {"shift", 5}, {"alpha", 2}, {"nt", th ? 6 : 3}}, [](Ctx &c, const Idx &i) {
    static const char *FF[] = {"arr_rect", "arr_circ", "arr_cylind", "arr_annu", "rect_f", "circ_f"};
    string f = FF[i[0]];
    bool arr = i[0] < 3;
    if (!arr && i[2]) { c.skip(); return; }
    if (i[0] > 3 && (i[3] || i[4])) { c.skip(); return; }
    JobBuf b = small_job(f, 2, i[6], 0, 1, {}, 0, NTS[i[7]]); Job &j = b.j;
    long n = i[4] + 1;
    j.foc_met = i[1]; if (i[0] > 3 && j.foc_met == ref::F_UD) { c.skip(); return; }
    if (f == "arr_annu" && j.foc_met > 1 && j.foc_met != ref::F_UD) { c.skip(); return; }
    b.focal = {17.0};
    if (arr) {
      j.num_elements = n; b.G.clear(); for (int k = 0; k < 3 * n; k++) b.G.push_back(k < n ? 0.7 * k - 0.4 : k < 2 * n ? 0.2 * (k - n) : 0.0);
      j.steer_met = i[2];
      if (j.foc_met == ref::F_UD) { b.focal.clear(); for (long k = 0; k < n; k++) b.focal.push_back(0.03 * k); }
      b.apod.clear(); for (long k = 0; k < n; k++) b.apod.push_back(1.0 - 0.1 * k);
    } else if (f == "arr_annu") {
      j.num_elements = n; b.G.clear(); for (int k = 0; k < n; k++) b.G.push_back(0.25 + 0.12 * k);
      long rings = (n + 1) / 2;
      if (j.foc_met == ref::F_UD) { b.focal.clear(); for (long k = 0; k < rings; k++) b.focal.push_back(0.05 * k); }
      b.apod.clear(); for (long k = 0; k < rings; k++) b.apod.push_back(1.0 - 0.1 * k);
    }
    j.do_apod = i[3] > 0; j.apod_met = i[3] ? i[3] - 1 : 0;
    for (double &d : b.delay) d += shifts()[i[5]] * j.nt * j.dt;
    check(c, b, 1);
  }});
  // delay-and-sum over the numbers of elements, samples and points
  s.push_back({"delay-and-sum", {{"precision", 2}, {"type", 4}, {"Nt", th ? 5 : 4}, {"Nr", th ? 6 : 5}, {"samples", 5}, {"points", th ? 4 : 3}, {"multi", 2}, {"depth", 4}, {"level", 3}, {"threads", 2}}, [](Ctx &c, const Idx &i) {
    JobBuf b = small_job(i[0] ? "das_f" : "das", i[5] + 1, false, i[6], i[8] + 1, {}, i[1]); Job &j = b.j;
    static const long AL[] = {24, 1, 2, 3, 50};
    if (i[1] == 0 && i[3]) { c.skip(); return; }
    j.a_scan_len = AL[i[4]]; j.nt_el = i[2] + 1; j.nr_el = i[1] ? i[3] : 0;   // nr_el 0: single array
    b.Gtd.assign(3 * j.nt_el, 0.0); for (long k = 0; k < j.nt_el; k++) b.Gtd[k] = 1.3 * k - 1;
    b.Grd.assign(3 * j.nr_el, 0.0); for (long k = 0; k < j.nr_el; k++) b.Grd[(i[1] >= 2 ? j.nr_el : 0) + k] = 0.9 * k - 1.2;
    long scans = j.nt_el * (j.nr_el ? j.nr_el : 1);
    b.Yd.clear(); for (long k = 0; k < scans * j.a_scan_len; k++) b.Yd.push_back(mix(k));
    static const double Z[] = {4, 0.01, 9, 300};
    for (long n = 0; n < j.No; n++) b.Ro[2 * j.No + n] = Z[i[7]] + 0.3 * n;
    check(c, b, i[9] ? 3 : 1);
  }});
  // convolution of every small shape
  s.push_back({"convolution", {{"A rows", th ? 9 : 6}, {"B rows", th ? 9 : 6}, {"columns", th ? 5 : 3}, {"vector", 2}, {"mode", 3}, {"threads", th ? 4 : 3}}, [](Ctx &c, const Idx &i) {
    JobBuf b = small_job("fftconv_p", i[2] + 1, false, false, 1, {}, 0); Job &j = b.j;
    j.A_M = i[0] + 1; j.B_M = i[1] + 1; j.B_N = i[3] ? 1 : j.A_N; j.mode = i[4];
    b.A.clear(); b.B.clear();
    for (long k = 0; k < j.A_M * j.A_N; k++) b.A.push_back(mix(k + 5)); for (long k = 0; k < j.B_M * j.B_N; k++) b.B.push_back(mix(k + 505));
    check(c, b, i[5] + 1);
  }});
  if (leaks) { int rc = en::run(argc - 2, argv + 2, s); fflush(stdout); _exit(rc); }
  // the analytic circular responses
  s.push_back({"circular", {{"function", 2}, {"position", 5}, {"z", 3}, {"nt", th ? 7 : 6}, {"shift", 9}, {"int_len", th ? 5 : 3}}, [](Ctx &c, const Idx &i) {
    if (!i[0] && i[5]) { c.skip(); return; }
    long nt = NTS[i[3]]; double dt = 0.1, r = 3.1, cp = 1500;
    static const double X[] = {0, 1.3, 3.1, 5.7, 40}, Z[] = {5, 0, 0.02};
    double delay = 3 + shifts()[i[4]] * nt * dt;
    vector<double> res[2];
    for (int k = 0; k < 2; k++) {
      Guard go; vector<double> z(nt, 0.0); go.put(z.data(), nt * 8, k == 0, false);
      fresh(k ? 0x3f : 0xff);
      if (i[0]) scirc_sir(X[i[1]], 0.0, Z[i[2]], r, dt, nt, delay, 1.2, cp, i[5] + 1, (double *)go.p);
      else circ_sir(X[i[1]], 0.0, Z[i[2]], r, dt, nt, delay, 1.2, cp, (double *)go.p);
      c.calls++;
      res[k].assign((double *)go.p, (double *)go.p + nt);
      if (go.stray()) { c.fail("stray write", "memory next to the result was written"); return; }
    }
    c.values += nt; c.state(res[0].data(), nt * 8);
    for (double d : res[0]) if (d) c.triv = false;
    if (memcmp(res[0].data(), res[1].data(), nt * 8)) c.fail(i[0] ? "scirc_sir fresh memory" : "circ_sir fresh memory", "result depends on the contents of fresh memory");
  }});
  int rc = en::run(argc - 2, argv + 2, s);
  fflush(stdout);
  _exit(rc);
}
