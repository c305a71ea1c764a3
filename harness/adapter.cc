// Adapter between driver.h and one family of the core; -DFAM_<name> selects it.
#include <mutex>
#include <complex>
#include <memory>
#include <iostream>
#include <cstring>
#include "driver.h"

#if defined(FAM_line)
#include "dreamline.h"
typedef Line Obj;
#elif defined(FAM_rect)
#include "dreamrect.h"
typedef Rect Obj;
#elif defined(FAM_rect_f)
#include "dreamrect_f.h"
typedef Rect_f Obj;
#elif defined(FAM_circ)
#include "dreamcirc.h"
typedef Circ Obj;
#elif defined(FAM_circ_f)
#include "dreamcirc_f.h"
typedef Circ_f Obj;
#elif defined(FAM_sphere)
#include "dreamsphere.h"
typedef Sphere Obj;
#elif defined(FAM_cylind)
#include "dreamcylind.h"
typedef Cylind Obj;
#elif defined(FAM_arr_rect)
#include "dream_arr_rect.h"
typedef ArrRect Obj;
#elif defined(FAM_arr_circ)
#include "dream_arr_circ.h"
typedef ArrCirc Obj;
#elif defined(FAM_arr_cylind)
#include "dream_arr_cylind.h"
typedef ArrCylind Obj;
#elif defined(FAM_arr_annu)
#include "dream_arr_annu.h"
typedef ArrAnnu Obj;
#elif defined(FAM_rect_sir)
#include "rect_sir.h"
typedef RectSir Obj;
#elif defined(FAM_das)
#include "das.h"
typedef DAS<double> Obj;
#elif defined(FAM_das_f)
#include "das.h"
typedef DAS<float> Obj;
#elif defined(FAM_fftconv_p)
#include "fftconv_p.h"
typedef FFTConvP Obj;
#elif defined(FAM_circ_sir) || defined(FAM_scirc_sir)
#define SERIAL
#include "dream.h"
#ifdef FAM_circ_sir
#include "circ_sir.h"
#else
#include "scirc_sir.h"
#endif
struct Obj { static void abort(int) {} bool is_running() { return false; } };
#else
#error no family
#endif

#define STR2(x) #x
#define STR(x) STR2(x)

static inline double *D(const double *p) { return const_cast<double *>(p); }

struct Impl : Driver {
#if !defined(FAM_das) && !defined(FAM_das_f)
  Obj o;
#endif
  const char *name() const override { return STR(FAMNAME); }
  bool abort() override { Obj::abort(2); return true; }

#if defined(FAM_das) || defined(FAM_das_f)
#ifdef FAM_das
  typedef double T;
#else
  typedef float T;
#endif
  bool is_running() override {
    Obj o(DASType::tfm, 1, 1, 1, 1);
    return o.is_running();
  }
  int run(const Job &j) override {
    Obj o((DASType)j.das_type, j.a_scan_len, j.No, j.nt_el, j.nr_el);
    o.set_running();
    return (int)o.das((const T *)j.Y, (const T *)j.Rof, (const T *)j.Gt, (const T *)j.Gr, (T)j.dtf,
                      j.delay_multi ? DelayType::multiple : DelayType::single, (const T *)j.delayf,
                      (T)j.cpf, (T *)j.Im, (ErrorLevel)j.err_level);
  }
#else
  bool is_running() override { return o.is_running(); }
  int run(const Job &j) override {
#if !defined(FAM_fftconv_p)
    DelayType dl = j.delay_multi ? DelayType::multiple : DelayType::single;
#endif
#if !defined(FAM_fftconv_p) && !defined(FAM_rect_sir)
    ErrorLevel el = (ErrorLevel)j.err_level;
#endif
#if defined(SERIAL)
    for (long n = 0; n < j.No; n++) {
      const double *r = j.Ro + n;
      double d = j.delay[dl == DelayType::multiple ? n : 0], *h = j.H + n * j.nt;
#ifdef FAM_circ_sir
      circ_sir(r[0], r[j.No], r[2 * j.No], j.R, j.dt, j.nt, d, j.v, j.cp, h);
#else
      scirc_sir(r[0], r[j.No], r[2 * j.No], j.R, j.dt, j.nt, d, j.v, j.cp, j.num_elements, h);
#endif
    }
    return 0;
#elif defined(FAM_line)
    return (int)o.dreamline(j.alpha, D(j.Ro), j.No, j.a, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_rect)
    return (int)o.dreamrect(j.alpha, D(j.Ro), j.No, j.a, j.b, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_rect_f)
    return (int)o.dreamrect_f(j.alpha, D(j.Ro), j.No, j.a, j.b, (FocusMet)j.foc_met, j.focal[0], j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_circ)
    return (int)o.dreamcirc(j.alpha, D(j.Ro), j.No, j.R, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_circ_f)
    return (int)o.dreamcirc_f(j.alpha, D(j.Ro), j.No, j.R, (FocusMet)j.foc_met, j.focal[0], j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_sphere)
    return (int)o.dreamsphere(j.alpha, D(j.Ro), j.No, j.R, j.Rcurv, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_cylind)
    return (int)o.dreamcylind(j.alpha, D(j.Ro), j.No, j.a, j.b, j.Rcurv, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H, el);
#elif defined(FAM_arr_rect)
    return (int)o.dream_arr_rect(j.alpha, D(j.Ro), j.No, j.a, j.b, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp,
                                 j.num_elements, D(j.G), (FocusMet)j.foc_met, D(j.focal), (SteerMet)j.steer_met, j.theta, j.phi,
                                 D(j.apod), j.do_apod, (ApodMet)j.apod_met, j.apod_par, j.H, el);
#elif defined(FAM_arr_circ)
    return (int)o.dream_arr_circ(j.alpha, D(j.Ro), j.No, j.R, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp,
                                 j.num_elements, D(j.G), (FocusMet)j.foc_met, D(j.focal), (SteerMet)j.steer_met, j.theta, j.phi,
                                 D(j.apod), j.do_apod, (ApodMet)j.apod_met, j.apod_par, j.H, el);
#elif defined(FAM_arr_cylind)
    return (int)o.dream_arr_cylind(j.alpha, D(j.Ro), j.No, j.a, j.b, j.Rcurv, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp,
                                 j.num_elements, D(j.G), (FocusMet)j.foc_met, D(j.focal), (SteerMet)j.steer_met, j.theta, j.phi,
                                 D(j.apod), j.do_apod, (ApodMet)j.apod_met, j.apod_par, j.H, el);
#elif defined(FAM_arr_annu)
    return (int)o.dream_arr_annu(j.alpha, D(j.Ro), j.No, j.dx, j.dy, j.dt, j.nt, dl, D(j.delay), j.v, j.cp,
                                 j.num_elements, D(j.G), (FocusMet)j.foc_met, D(j.focal),
                                 D(j.apod), j.do_apod, (ApodMet)j.apod_met, j.apod_par, j.H, el);
#elif defined(FAM_rect_sir)
    return (int)o.rect_sir(D(j.Ro), j.No, j.a, j.b, j.dt, j.nt, dl, D(j.delay), j.v, j.cp, j.H);
#elif defined(FAM_fftconv_p)
    return (int)o.run(j.H, j.A, j.A_M, j.A_N, j.B, j.B_M, j.B_N, (ConvMode)j.mode);
#endif
  }
#endif
};

extern "C" __attribute__((visibility("default"))) Driver *get_driver() {
  static Impl d;
  return &d;
}
