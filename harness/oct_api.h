// The Octave front ends behind fe.h's Host interface.
#pragma once
#include "fe.h"
#include "oct_host.h"
#include <octave/Range.h>

struct OctApi : fe::Host {
  OctHost &o; std::set<std::string> names;
  OctApi(OctHost &h, const std::string &dir) : o(h) {
    if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".oct") names.insert(n.substr(0, n.size() - 4)); } closedir(d); }
  }
  const char *name() override { return "Octave"; }
  bool has(fe::Case &c) override { return names.count(c.fn); }
  int classes() override { return 5; }
  bool optional_args() override { return true; }
  int threads() override { return live_threads(); }
  bool fits(const fe::Case &k, int arg, int cls) override {
    if (arg >= (int)k.a.size()) return false;
    if (!cls) return true;
    const fe::AV &a = k.a[arg];
    if (a.str || a.odd || arg == k.w.inplace || a.v.empty()) return false;
    bool das = k.fn == "das", prec = das && arg != 4 && arg != 6;       // arguments whose class selects the precision
    if (k.fam == "das_f" && prec) return false;
    if (cls == 1) return !prec;
    if (cls == 2) { if (prec) return false; for (double x : a.v) if (x != std::floor(x)) return false; return true; }
    if (cls == 4) { if (a.r != 1 || a.c < 2 || a.v[1] == a.v[0]) return false; for (long i = 0; i < a.c; i++) if (a.v[i] != a.v[0] + i * (a.v[1] - a.v[0])) return false; return true; }
    return true;
  }
  octave_value make(const fe::AV &a, int cls) {
    if (a.odd == 1) { Cell c(1, 1); c(0) = a.str ? octave_value(a.s) : octave_value(M(a.r, a.c, a.v)); return c; }
    if (a.odd == 2) { octave_scalar_map m; m.assign("x", a.str ? octave_value(a.s) : octave_value(M(a.r, a.c, a.v))); return m; }
    if (a.str) return octave_value(a.s);
    if (a.odd == 3 || a.odd == 4) {
      dim_vector dv = a.odd == 3 ? dim_vector(a.r, a.c / 2, 2) : dim_vector(a.r, a.c, a.r * a.c ? a.v.size() / (a.r * a.c) : 0);
      if (a.flt) { FloatNDArray n(dv); float *p = n.fortran_vec(); for (size_t i = 0; i < a.v.size(); i++) p[i] = a.v[i]; return n; }
      NDArray n(dv); double *p = n.fortran_vec(); for (size_t i = 0; i < a.v.size(); i++) p[i] = a.v[i]; return n;
    }
    if (a.flt || cls == 1) return octave_value(MF(a.r, a.c, a.v));
    if (cls == 2) { int32NDArray n(dim_vector(a.r, a.c)); for (size_t i = 0; i < a.v.size(); i++) n(i) = octave_int32((int)a.v[i]); return n; }
    if (cls == 3) return octave_value(SparseMatrix(M(a.r, a.c, a.v)));
    if (cls == 4) { double inc = a.v[1] - a.v[0]; return octave_value(octave::range<double>(a.v[0], inc, a.v.back() + inc / 4), false); }
    return octave_value(M(a.r, a.c, a.v));
  }
  static std::vector<double> back(const octave_value &v) { NDArray n = v.is_single_type() ? NDArray(v.float_array_value()) : v.array_value(); return std::vector<double>(n.data(), n.data() + n.numel()); }
  fe::Res call(const fe::Case &k, const std::vector<int> &cls) override {
    octave_value_list args;
    std::vector<std::vector<double>> was(k.a.size());
    Matrix Y;
    for (size_t i = 0; i < k.a.size(); i++) {
      const fe::AV &a = k.a[i];
      int c = i < cls.size() ? cls[i] : 0;
      if ((int)i == k.w.inplace && !a.str && !a.odd) { Y = M(a.r, a.c, a.v); args.append(octave_value(Y)); continue; }
      octave_value v = make(a, c);
      if (!a.str && a.odd != 1 && a.odd != 2) was[i] = back(v);
      args.append(v);
    }
    o.pre = pre; o.post = post;
    OctCall q = o.call(k.fn, args, k.nout);
    fe::Res r;
    r.error = q.error; r.text = q.text.size() > 1; r.why = q.why();
    for (octave_idx_type i = 0; i < q.out.length(); i++) {
      if (q.out(i).is_undefined()) break;
      fe::AV a;
      if (q.out(i).is_string()) a = fe::AV(q.out(i).string_value());
      else if (q.out(i).isnumeric()) { a.v = back(q.out(i)); a.r = q.out(i).rows(); a.c = q.out(i).columns(); a.flt = q.out(i).is_single_type(); }
      r.out.push_back(a);
    }
    r.args.resize(k.a.size());
    for (size_t i = 0; i < k.a.size(); i++) {
      const fe::AV &a = k.a[i];
      if (a.str || a.odd == 1 || a.odd == 2) continue;
      if ((int)i == k.w.inplace && !a.odd) { r.args[i].v = V(Y); continue; }
      std::vector<double> now = back(args(i));
      r.args[i].v = now == was[i] ? a.v : now;
      if (now != was[i] && now == a.v) r.args[i].v.push_back(0);
    }
    return r;
  }
};
