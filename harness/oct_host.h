// Runs the real Octave front ends (compiled .oct files) inside an embedded
// Octave interpreter, and reports the outcome of every call.
#pragma once
#include <octave/oct.h>
#include <octave/octave.h>
#include <octave/interpreter.h>
#include <octave/parse.h>
#include <octave/builtin-defun-decls.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dirent.h>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

struct OctCall {
  octave_value_list out;
  bool error = false;          // Octave error raised
  std::string msg, text;       // error message / text printed during the call
  int nargout = 0;
  // refused: an error was raised, or a message was printed and nothing returned
  bool refused() const { return error || (out.length() == 0 && text.size() > 1); }
  bool ok() const { return !error; }
  std::string why() const { return error ? msg : text; }
};

struct OctHost {
  octave::interpreter it;
  int cap = -1, saved = -1;
  std::function<void()> pre, post;           // immediately before and after the front end runs (before the interpreter reacts)
  explicit OctHost(const std::string &dir) {
    it.initialize_history(false);
    it.initialize_load_path(true);
    it.read_site_files(false);
    it.read_init_files(false);
    it.initialize();
    octave::feval("addpath", octave_value_list(octave_value(dir)), 0);
    cap = memfd_create("cap", 0);
  }
  ~OctHost() {}
  OctCall call(const std::string &fn, const octave_value_list &args, int nargout) {
    OctCall r;
    r.nargout = nargout;
    fflush(stdout); std::cout.flush();
    saved = dup(1);
    (void)!ftruncate(cap, 0);
    lseek(cap, 0, SEEK_SET);
    dup2(cap, 1);
    auto after = [&]() { if (post) post(); };
    if (pre) pre();
    try {
      r.out = octave::feval(fn, args, nargout);
      after();
    } catch (const octave::execution_exception &e) {
      after();
      r.error = true; r.msg = e.message();
      it.recover_from_exception();
    } catch (const octave::interrupt_exception &) {
      after();
      r.error = true; r.msg = "(interrupt)";
      it.recover_from_exception();
    } catch (const std::exception &e) {
      after();
      r.error = true; r.msg = std::string("C++ exception: ") + e.what();
      it.recover_from_exception();
    }
    octave::flush_stdout();
    fflush(stdout); std::cout.flush();
    dup2(saved, 1); close(saved);
    off_t n = lseek(cap, 0, SEEK_END);
    if (n > 0) { r.text.resize(n > 4000 ? 4000 : n); lseek(cap, 0, SEEK_SET); (void)!read(cap, &r.text[0], r.text.size()); }
    return r;
  }
};

inline int live_threads() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/task")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); }
  return n;
}

// Matrices with a private, unshared copy of their data.
inline Matrix M(long r, long c, const std::vector<double> &v) {
  Matrix m(r, c);
  double *p = m.fortran_vec();
  for (long i = 0; i < r * c; i++) p[i] = v[i];
  return m;
}
inline Matrix row(const std::vector<double> &v) { return M(1, v.size(), v); }
inline FloatMatrix MF(long r, long c, const std::vector<double> &v) {
  FloatMatrix m(r, c);
  float *p = m.fortran_vec();
  for (long i = 0; i < r * c; i++) p[i] = (float)v[i];
  return m;
}
inline std::vector<double> V(const Matrix &m) { return std::vector<double>(m.data(), m.data() + m.numel()); }
