// Python front ends, bounded-exhaustive.   py_enum PYDIR COREDIR PROP TIER ...
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <dirent.h>
#include <iostream>
#include "leak.h"
#define FE_LEAKS
#include "fe.h"
namespace py = pybind11;

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  static fe::pc_t real = (fe::pc_t)dlsym(RTLD_NEXT, "pthread_create");
  fe::before_create();
  return real(t, a, f, x);
}

struct PyApi : fe::Host {
  std::map<std::string, py::object> fn;
  int cap;
  explicit PyApi(const std::string &dir) {
    py::module_::import("sys").attr("path").attr("insert")(0, dir);
    py::module_::import("numpy");
    for (auto &m : {"dreamline", "dreamrect", "dreamrect_f", "dreamcirc", "dreamcirc_f", "dreamsphere", "dreamcylind", "dream_arr_rect", "dream_arr_circ", "dream_arr_cylind", "dream_arr_annu", "fftconv_p", "das", "das_f"})
      fn[m] = py::module_::import(m).attr(std::string(m) == "das_f" ? "das" : m);
    cap = memfd_create("cap", 0);
  }
  const char *name() override { return "Python"; }
  void settle() override { PyGC_Collect(); }
  int classes() override { return 8; }
  bool optional_args() override { return false; }
  int threads() override { return fe::nthreads_now(); }
  static std::string key(const fe::Case &c) { return c.fam == "das_f" ? "das_f" : c.fn; }
  bool has(fe::Case &c) override {
    if (!fn.count(key(c))) return false;
    if (c.fn == "fftconv_p") return c.w.inplace < 0 && c.a.size() == 2;
    if (c.fn != "das") for (size_t i = 0; i < c.a.size(); i++) if (c.kinds[i] == fe::DEV) { c.a.erase(c.a.begin() + i); c.kinds.erase(c.kinds.begin() + i); break; }
    for (size_t i = 0; i < c.a.size(); i++) if (c.kinds[i] == fe::DGR && !c.a[i].r) c.a[i].c = 3;      // no receivers: 0 x 3
    c.minin = c.a.size();
    return true;
  }
  static bool scalar(fe::K q) { return q == fe::WPAR || q == fe::DT || q == fe::CP; }
  static bool vec(fe::K q) { return q == fe::GEO || q == fe::SAMP || q == fe::MAT3 || q == fe::SPAR || q == fe::DELAY || q == fe::DDELAY || q == fe::FOCALV || q == fe::FOCAL1 || q == fe::APOD || q == fe::GRAD; }
  // 0 column-major 2-D, 1 row-major 2-D, 2 one-dimensional, 3 single precision, 4 integers, 5 list, 6 strided view, 7 Python number
  bool fits(const fe::Case &k, int arg, int cls) override {
    if (arg >= (int)k.a.size()) return false;
    if (!cls) return true;
    const fe::AV &a = k.a[arg]; fe::K q = k.kinds[arg];
    if (a.str || a.odd || a.v.empty()) return false;
    if (scalar(q)) return cls == 4 ? a.v[0] == std::floor(a.v[0]) : cls == 7;
    if (cls == 2) return vec(q) && (a.r == 1 || a.c == 1);
    if (cls == 3) return true;
    if (cls == 4) { if (a.flt) return false; for (double x : a.v) if (x != std::floor(x)) return false; return true; }
    if (cls == 5) return !a.flt;
    if (cls == 7) return a.v.size() == 1 && vec(q) && !a.flt;
    return true;
  }
  template <class T> static py::array arr(const fe::AV &a, int cls) {
    if (a.odd == 3) { py::array_t<T, py::array::f_style> m({a.r, a.c / 2, 2L}); T *p = m.mutable_data(); for (size_t i = 0; i < a.v.size(); i++) p[i] = (T)a.v[i]; return m; }
    if (cls == 2) { py::array_t<T> m(a.v.size()); T *p = m.mutable_data(); for (size_t i = 0; i < a.v.size(); i++) p[i] = (T)a.v[i]; return m; }
    if (cls == 1) { py::array_t<T, py::array::c_style> m({a.r, a.c}); T *p = m.mutable_data(); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) p[i * a.c + j] = (T)a.v[i + j * a.r]; return m; }
    if (cls == 6) {
      py::array_t<T, py::array::f_style> m({2 * a.r, 3 * a.c}); T *p = m.mutable_data(); for (long i = 0; i < 6 * a.r * a.c; i++) p[i] = (T)99;
      for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) p[2 * i + 3 * j * 2 * a.r] = (T)a.v[i + j * a.r];
      return py::array(m[py::make_tuple(py::slice(0, 2 * a.r, 2), py::slice(0, 3 * a.c, 3))]);
    }
    py::array_t<T, py::array::f_style> m({a.r, a.c}); T *p = m.mutable_data(); for (size_t i = 0; i < a.v.size(); i++) p[i] = (T)a.v[i];
    return m;
  }
  static py::object make(const fe::AV &a, int cls, fe::K q) {
    if (a.odd == 1) { py::list l; l.append(py::str("q")); l.append(py::str(a.s)); return l; }
    if (a.odd == 2) { py::dict d; d["x"] = a.v.empty() ? 0.0 : a.v[0]; return d; }
    if (a.str) return py::str(a.s);
    if (scalar(q) && a.v.size() == 1 && a.r == 1 && a.c == 1) { if (cls == 4) return py::int_((long)a.v[0]); return py::float_(a.v[0]); }
    if (cls == 3 || (a.flt && cls != 4)) return arr<float>(a, cls);
    if (cls == 4) return arr<int64_t>(a, 0);
    if (cls == 5) { py::list l; for (long i = 0; i < a.r; i++) { py::list r; for (long j = 0; j < a.c; j++) r.append(py::float_(a.v[i + j * a.r])); l.append(r); } return l; }
    if (cls == 7) return py::float_(a.v[0]);
    return arr<double>(a, cls);
  }
  static std::string dump(const py::object &o) { return py::isinstance<py::array>(o) ? (std::string)py::bytes(o.attr("tobytes")()) + (std::string)py::str(o.attr("shape")) : (std::string)py::str(o); }
  static const char *kw(const fe::Case &k, fe::K q) {
    using namespace fe;
    if (k.fn == "fftconv_p") return q == CA ? "A" : "B";
    switch (q) {
    case RO: return "Ro"; case GEO: return "geom_par"; case SAMP: return "s_par"; case DELAY: case DDELAY: return "delay"; case MAT3: return "m_par";
    case G3: case GRAD: return "G"; case FMET: return "foc_met"; case FOCAL1: case FOCALV: return "focal"; case SMET: return "steer_met"; case SPAR: return "steer_par";
    case AMET: return "apod_met"; case APOD: return "apod"; case WPAR: return "win_par"; case ERR: return "err_level"; case DEV: return "device";
    case DY: return "Y"; case DGT: return "Gt"; case DGR: return "Gr"; case DT: return "dt"; case CP: return "cp"; case METH: return "method"; case VERB: return "verbose";
    default: return "?";
    }
  }
  bool keywords = false;
  fe::Res call(const fe::Case &k, const std::vector<int> &cls) override {
    fe::Res r;
    std::vector<py::object> ob; std::vector<std::string> was;
    for (size_t i = 0; i < k.a.size(); i++) {
      int c = i < cls.size() ? cls[i] : 0;
      ob.push_back(make(k.a[i], c == 8 ? 0 : c, i < k.kinds.size() ? k.kinds[i] : fe::WPAR)); was.push_back(dump(ob.back()));
    }
    bool kws = !cls.empty() && cls[0] == 8;
    fflush(stdout); std::cout.flush();
    int saved = dup(1); (void)!ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); dup2(cap, 1);
    py::object out; bool have = false;
    try {
      py::object f = fn[key(k)];
      py::tuple t(kws ? 0 : ob.size()); py::dict d;
      for (size_t i = 0; i < ob.size(); i++) if (kws) d[kw(k, k.kinds[i])] = ob[i]; else t[i] = ob[i];
      if (pre) pre();
      PyObject *res = PyObject_Call(f.ptr(), t.ptr(), d.ptr());
      if (post) post();
      if (!res) throw py::error_already_set();
      out = py::reinterpret_steal<py::object>(res); have = true;
    } catch (py::error_already_set &e) { r.error = true; r.why = e.what(); }
    catch (const std::exception &e) { r.error = true; r.why = std::string("C++ exception: ") + e.what(); }
    fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved);
    r.text = lseek(cap, 0, SEEK_END) > 1;
    if (have && !out.is_none()) {
      fe::AV a;
      if (py::isinstance<py::array>(out)) {
        py::array o = py::array(out);
        a.flt = o.dtype().is(py::dtype::of<float>());
        py::array_t<double, py::array::f_style | py::array::forcecast> q(o);
        a.r = q.ndim() > 0 ? q.shape(0) : 1; a.c = q.ndim() > 1 ? q.shape(1) : 1;
        a.v.assign(q.data(), q.data() + q.size());
      }
      r.out.push_back(a);
    }
    r.args.resize(k.a.size());
    for (size_t i = 0; i < k.a.size(); i++) { r.args[i].v = k.a[i].v; if (dump(ob[i]) != was[i]) r.args[i].v.push_back(0); }
    return r;
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  std::string prop = argv[3];
  bool th = std::string(argv[4]) == "thorough";
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  if (prop == "P23") setenv("PYTHONMALLOC", "malloc", 1);
  py::initialize_interpreter();
  std::vector<en::Space> s;
  int rc = 3;
  {
    std::unique_ptr<PyApi> host;
    try { host.reset(new PyApi(argv[1])); } catch (const std::exception &e) { fprintf(stderr, "python: %s\n", e.what()); _exit(3); }
    api::Drivers ds; ds.dir = argv[2];
    if (prop == "P17") fe::p17(*host, ds, s, th);
    if (prop == "P18") fe::p18(*host, ds, s, th);
    fe::p19(*host, ds, s, th, prop);
    if (prop == "P23") fe::p23(*host, ds, s, th);
    if (prop == "P20") fe::p20(*host, ds, s, th);
    rc = en::run(argc - 4, argv + 4, s);
    fflush(stdout);
    _exit(rc);
  }
}
