// Julia front ends, bounded-exhaustive, on a stand-in for Julia and CxxWrap.   jl_enum JLDIR COREDIR PROP TIER ...
#include "leak.h"
#define FE_LEAKS
#include "fe.h"
#include <fcntl.h>
#include <set>
#include "jlcxx/jlcxx.hpp"

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  static fe::pc_t real = (fe::pc_t)dlsym(RTLD_NEXT, "pthread_create");
  fe::before_create();
  return real(t, a, f, x);
}

static jl_value_t f64{0, 0}, f32{1, 0}, atypes[8];
static std::set<jl_array_t *> heap;                      // what Julia's collector gives back after a call
static jl_array_t *alloc(bool flt, size_t nd, size_t r, size_t c) {
  size_t n = r * c, b = n * (flt ? 4 : 8);
  jl_array_t *a = new jl_array_t{b ? malloc(b) : malloc(1), n, r, c, nd, flt};
  memset(a->data, 0xA5, b);                              // Julia does not clear new arrays
  heap.insert(a);
  return a;
}
extern "C" {
jl_datatype_t *jl_float64_type = &f64, *jl_float32_type = &f32;
jl_value_t *jl_apply_array_type(jl_value_t *t, size_t d) { jl_value_t *a = &atypes[(t->is_float ? 4 : 0) + (d & 3)]; a->is_float = t->is_float; a->dims = d; return a; }
jl_array_t *jl_alloc_array_2d(jl_value_t *t, size_t r, size_t c) { return alloc(t->is_float, 2, r, c); }
jl_array_t *jl_alloc_array_1d(jl_value_t *t, size_t n) { return alloc(t->is_float, 1, n, 1); }
}
static void collect() { for (jl_array_t *a : heap) { free(a->data); delete a; } heap.clear(); }

struct JlApi : fe::Host {
  std::map<std::string, jlcxx::Module::Fn> fn; int cap;
  explicit JlApi(const std::string &dir) {
    if (DIR *d = opendir(dir.c_str())) {
      while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() <= 4 || n.substr(n.size() - 4) != ".jlm") continue;
        void *h = dlopen((dir + "/" + n).c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        jlcxx::Module m;
        ((void (*)(jlcxx::Module &))dlsym(h, "define_julia_module"))(m);
        for (auto &q : m.m) fn[n == "das_f.jlm" ? q.first + "_f" : q.first] = q.second;
      }
      closedir(d);
    }
    cap = memfd_create("cap", 0);
  }
  const char *name() override { return "Julia"; }
  static std::string key(const fe::Case &c) { return c.fam == "das_f" ? "das_f" : c.fn; }
  bool has(fe::Case &c) override {
    if (!fn.count(key(c))) return false;
    if (c.fn == "fftconv_p" || c.fn == "conv_p") return c.w.inplace < 0 && c.a.size() == 2;
    if (c.fn != "das") for (size_t i = 0; i < c.a.size(); i++) if (c.kinds[i] == fe::DEV) { c.a.erase(c.a.begin() + i); c.kinds.erase(c.kinds.begin() + i); break; }
    for (size_t i = 0; i < c.a.size(); i++) if (c.kinds[i] == fe::DGR && !c.a[i].r) c.a[i].c = 3;      // no receivers: 0 x 3
    c.minin = c.a.size();
    return true;
  }
  int classes() override { return 1; }
  bool fits(const fe::Case &c, int arg, int) override { return arg < (int)c.a.size(); }
  bool optional_args() override { return false; }
  bool strict() override { return true; }
  int threads() override { return fe::nthreads_now(); }
  static bool scalar(fe::K q) { return q == fe::WPAR || q == fe::DT || q == fe::CP; }
  static fe::Vec back(const jl_array_t *a) { fe::Vec v(a->length); for (size_t i = 0; i < v.size(); i++) v[i] = a->is_float ? ((float *)a->data)[i] : ((double *)a->data)[i]; return v; }
  static void fill(jl_array_t *a, const fe::Vec &v) { for (size_t i = 0; i < a->length; i++) if (a->is_float) ((float *)a->data)[i] = i < v.size() ? (float)v[i] : 0; else ((double *)a->data)[i] = i < v.size() ? v[i] : 0; }
  static jlcxx::Value make(const fe::AV &a, fe::K q) {
    jlcxx::Value v;
    if (a.odd == 1 || a.odd == 2 || a.odd >= 12) return v;
    if (a.str) { v.kind = jlcxx::Value::STRING; v.str = a.s; return v; }
    bool flt = a.flt != (a.odd == 11);
    if (scalar(q) && a.v.size() == 1 && a.r == 1 && a.c == 1) { v.kind = jlcxx::Value::NUMBER; v.num = a.v[0]; v.is_float = flt; return v; }
    v.kind = jlcxx::Value::ARRAY;
    if (a.odd == 3 || a.odd == 4) { v.as.push_back(alloc(flt, 3, a.r, a.r ? a.v.size() / a.r : 0)); fill(v.as[0], a.v); return v; }
    v.as.push_back(alloc(flt, 2, a.r, a.c)); fill(v.as[0], a.v);
    if (a.r == 1 || a.c == 1 || a.r * a.c == 0) { v.as.push_back(alloc(flt, 1, a.r * a.c, 1)); fill(v.as[1], a.v); }
    return v;
  }
  fe::Res call(const fe::Case &k, const std::vector<int> &) override {
    fe::Res r;
    std::vector<jlcxx::Value> in; std::vector<std::vector<fe::Vec>> was(k.a.size());
    for (size_t i = 0; i < k.a.size(); i++) { in.push_back(make(k.a[i], i < k.kinds.size() ? k.kinds[i] : fe::RO)); for (jl_array_t *a : in[i].as) was[i].push_back(back(a)); }
    fflush(stdout); std::cout.flush();
    int saved = dup(1); (void)!ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); dup2(cap, 1);
    jl_array_t *out = nullptr;
    if (pre) pre();
    try { out = fn[key(k)](in); if (post) post(); }
    catch (const jlcxx::MethodError &e) { if (post) post(); r.error = true; r.why = "MethodError: " + e.what; }
    catch (const std::exception &e) { if (post) post(); r.error = true; r.why = e.what(); }        // CxxWrap turns these into Julia errors
    fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved);
    r.text = lseek(cap, 0, SEEK_END) > 1;
    if (out) { fe::AV a; a.v = back(out); a.r = out->nrows; a.c = out->ncols; a.flt = out->is_float; r.out.push_back(a); }
    r.args.resize(k.a.size());
    for (size_t i = 0; i < k.a.size(); i++) {
      r.args[i].v = k.a[i].v;
      for (size_t j = 0; j < in[i].as.size(); j++) { fe::Vec now = back(in[i].as[j]); if (now.size() && memcmp(now.data(), was[i][j].data(), now.size() * sizeof(double))) { r.args[i].v.push_back(0); break; } }
    }
    collect();
    return r;
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  std::string prop = argv[3];
  bool th = std::string(argv[4]) == "thorough";
  std::vector<en::Space> s;
  JlApi *host = new JlApi(argv[1]);
  api::Drivers ds; ds.dir = argv[2];
  fe::all(*host, ds, s, th, prop);
  int rc = en::run(argc - 4, argv + 4, s);
  fflush(stdout);
  _exit(rc);
}
