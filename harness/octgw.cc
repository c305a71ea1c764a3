// Adapter between driver.h and the thread drivers that live in the Octave front
// ends themselves; -DGW_<function> selects one. The in-place output is an Octave
// matrix of this file, so what the workers do to it can be watched.
#include <octave/oct.h>
#include <octave/interpreter.h>
#include <signal.h>
#include <algorithm>
#include "driver.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
octave_value_list CAT(F, GWNAME)(const octave_value_list &, int);

static volatile int missed;
static void nobody(int) { missed = 1; }

struct Impl : Driver {
  octave::interpreter it;
  octave_value live; const double *livep = nullptr; bool done = true;
  Impl() {
    it.initialize_history(false); it.initialize_load_path(false); it.read_site_files(false); it.read_init_files(false);
    it.initialize();
    install();
  }
  void install() { struct sigaction a = {}; a.sa_handler = nobody; sigaction(SIGINT, &a, nullptr); }
  const char *name() const override { return "octave"; }
  bool gateway() const override { return true; }
  double *out(long r, long c) override {
#if defined(GW_circ_sir) || defined(GW_scirc_sir)
    (void)r; (void)c; return nullptr;
#else
    Matrix m(r, c, 0.0);
    live = octave_value(m);
    m = Matrix();
    const Matrix v = live.matrix_value();
    livep = v.data();
    return const_cast<double *>(livep);
#endif
  }
  bool abort() override { missed = 0; raise(SIGINT); return !missed; }
  bool is_running() override { return done; }
  static Matrix M(long r, long c, const double *p) { Matrix m(r, c); std::copy(p, p + r * c, m.fortran_vec()); return m; }
  int run(const Job &j) override {
    octave_value_list a;
    bool single = false; (void)single;
#if defined(GW_circ_sir) || defined(GW_scirc_sir)
    Matrix s(1, 2); s(0) = j.dt; s(1) = j.nt;
    Matrix mp(1, 2); mp(0) = j.v; mp(1) = j.cp;
    a.append(M(j.No, 3, j.Ro)); a.append(octave_value(j.R)); a.append(s);
    a.append(j.delay_multi ? octave_value(M(1, j.No, j.delay)) : octave_value(j.delay[0])); a.append(mp);
#ifdef GW_scirc_sir
    a.append(octave_value((double)j.num_elements));
#endif
    octave_value_list r;
    if (!call(a, 1, r)) return 0;
    Matrix h = r(0).matrix_value();
    if (h.numel() != j.nt * j.No) return 98;
    std::copy(h.data(), h.data() + h.numel(), j.H);
    return 0;
#else
    octave_value Y;
    long rows, L = 1, cols = j.A_N;
#if defined(GW_copy_p) || defined(GW_add_p)
    rows = j.A_M + 1;
#else
    rows = j.A_M + j.B_M - 1;
#endif
    bool own = j.H == livep && j.H;
    if (own) Y = live; else Y = octave_value(M(rows, cols, j.H));
    (void)L;
#if defined(GW_copy_p) || defined(GW_add_p)
    Matrix ri(1, 2), ki(1, 2); ri(0) = 2; ri(1) = rows; ki(0) = 1; ki(1) = cols;
    a.append(Y); a.append(ri); a.append(ki); a.append(M(j.A_M, j.A_N, j.A));
#elif defined(GW_sum_fftconv)
    NDArray h(dim_vector(j.A_M, j.A_N, j.B_N)); std::copy(j.A, j.A + h.numel(), h.fortran_vec());
    a.append(h); a.append(M(j.B_M, j.B_N, j.B)); a.append(Y);
#else
    a.append(M(j.A_M, j.A_N, j.A)); a.append(M(j.B_M, j.B_N, j.B));
#ifdef GW_fftconv_ola
    a.append(octave_value(2.0));
#endif
    a.append(Y);
    if (j.mode == 1) a.append(octave_value("+="));
#endif
    octave_value_list r;
    call(a, 0, r);
    if (!own) { Matrix m = Y.matrix_value(); std::copy(m.data(), m.data() + m.numel(), j.H); }
    return done || cancelled ? 0 : 99;
#endif
  }
  bool cancelled = false;
  bool call(const octave_value_list &a, int nout, octave_value_list &r) {
    done = true; cancelled = false;
    try { r = CAT(F, GWNAME)(a, nout); }
    catch (const octave::execution_exception &e) {
      done = false;
      cancelled = e.message().find("CTRL-C") != std::string::npos;
      if (!cancelled) fprintf(stderr, "harness: %s\n", e.message().c_str());
    }
    return done;
  }
};
extern "C" Driver *get_driver() { return new Impl; }
