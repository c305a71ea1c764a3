// Uniform interface to the numerical core of one DREAM family, loaded from a
// shared object built from /repo's sources (see lib/build.py).
#pragma once
#include <cstddef>

struct Job {
  // common
  double alpha = 0;
  const double *Ro = nullptr;      // No x 3, column major
  long No = 0;
  double a = 0, b = 0, R = 0, Rcurv = 0;
  double dx = 0, dy = 0, dt = 0;
  long nt = 0;
  int delay_multi = 0;             // 0: one common delay, 1: one per point
  const double *delay = nullptr;
  double v = 1, cp = 1500;
  int err_level = 1;               // 1 ignore, 2 warn, 3 stop, 4 parallel_stop
  double *H = nullptr;             // nt x No
  // focusing / arrays
  int foc_met = 0;                 // enum FocusMet
  const double *focal = nullptr;
  long num_elements = 0;           // elements, or number of radii (annular)
  const double *G = nullptr;       // num_elements x 3, or radii
  int steer_met = 0;
  double theta = 0, phi = 0;
  const double *apod = nullptr;
  int do_apod = 0, apod_met = 0;
  double apod_par = 0;
  // delay-and-sum
  int das_type = 0;                // enum DASType
  const void *Y = nullptr, *Gt = nullptr, *Gr = nullptr, *Rof = nullptr, *delayf = nullptr;
  long a_scan_len = 0, nt_el = 0, nr_el = 0;
  void *Im = nullptr;
  double dtf = 0, cpf = 0;
  // convolution
  const double *A = nullptr, *B = nullptr;
  long A_M = 0, A_N = 0, B_M = 0, B_N = 0;
  int mode = 0;                    // enum ConvMode
};

struct Driver {
  virtual ~Driver() {}
  virtual const char *name() const = 0;
  // One complete call of the public entry point.  Returns the status as int
  // (SIRError, or ErrorLevel for rect_sir / fftconv).
  virtual int run(const Job &j) = 0;
  virtual bool abort() = 0;       // false: the request could not reach the call (it was not listening)
  virtual bool is_running() = 0;
  virtual bool gateway() const { return false; }          // reports a cancellation by an error, decided at its end
  virtual double *out(long, long) { return nullptr; }     // the output, if the driver owns it
};

typedef Driver *(*get_driver_t)();
