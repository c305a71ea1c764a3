// MATLAB front ends, bounded-exhaustive, on a stand-in for MATLAB's MEX interface.   mex_enum MEXDIR COREDIR PROP TIER ...
#include "leak.h"
#define FE_LEAKS
#include "fe.h"
#define mxArray mexArray      // Octave has another one
#include "mexrt.h"

extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  static fe::pc_t real = (fe::pc_t)dlsym(RTLD_NEXT, "pthread_create");
  fe::before_create();
  return real(t, a, f, x);
}

struct MexApi : fe::Host {
  std::map<std::string, mexrt::fn_t> fn; int cap;
  explicit MexApi(const std::string &dir) {
    if (DIR *d = opendir(dir.c_str())) {
      while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".mex") fn[n.substr(0, n.size() - 4)] = mexrt::load(dir + "/" + n); }
      closedir(d);
    }
    cap = memfd_create("cap", 0);
  }
  const char *name() override { return "MATLAB"; }
  bool has(fe::Case &c) override { return fn.count(c.fn); }
  int classes() override { return 1; }
  bool fits(const fe::Case &c, int arg, int) override { return arg < (int)c.a.size(); }
  bool optional_args() override { return true; }
  bool strict() override { return true; }
  int threads() override { return fe::nthreads_now(); }
  static mxArray *fill(mxArray *a, const fe::Vec &v) { for (size_t i = 0; i < v.size() && i < a->n(); i++) mexrt::put(a, i, v[i]); return a; }
  mxArray *make(const fe::AV &a) {
    mxClassID num = a.odd == 12 ? mxINT32_CLASS : a.odd == 13 ? mxLOGICAL_CLASS : a.odd == 14 ? mxCHAR_CLASS : (a.flt != (a.odd == 11)) ? mxSINGLE_CLASS : mxDOUBLE_CLASS;
    if (a.odd == 1) { mxArray *c = mexrt::create(mxCELL_CLASS, {1, 1}); *(mxArray **)c->data = a.str ? mexrt::str(a.s) : fill(mexrt::create(num, {(mwSize)a.r, (mwSize)a.c}), a.v); return c; }
    if (a.odd == 2) return mexrt::create(mxSTRUCT_CLASS, {1, 1});
    if (a.str) return mexrt::str(a.s);
    if (a.odd == 3) return fill(mexrt::create(num, {(mwSize)a.r, (mwSize)(a.c / 2), 2}), a.v);
    if (a.odd == 4) return fill(mexrt::create(num, {(mwSize)a.r, (mwSize)a.c, (mwSize)(a.r * a.c ? a.v.size() / (a.r * a.c) : 0)}), a.v);
    return fill(mexrt::create(num, {(mwSize)a.r, (mwSize)a.c}), a.v);
  }
  static fe::Vec back(const mxArray *a) { fe::Vec v(a->n()); for (size_t i = 0; i < v.size(); i++) v[i] = mexrt::get(a, i); return v; }
  fe::Res call(const fe::Case &k, const std::vector<int> &) override {
    fe::Res r;
    std::vector<const mxArray *> in; std::vector<fe::Vec> was;
    for (auto &a : k.a) { in.push_back(make(a)); was.push_back(back(in.back())); }
    std::vector<mxArray *> out(std::max(1, k.nout) + 1, nullptr);
    in.push_back(nullptr);
    fflush(stdout); std::cout.flush();
    int saved = dup(1); (void)!ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); dup2(cap, 1);
    if (pre) pre();
    try { fn[k.fn](k.nout, out.data(), (int)k.a.size(), in.data()); if (post) post(); }
    catch (const MexError &e) { if (post) post(); r.error = true; r.why = e.msg; }
    catch (const std::exception &e) { if (post) post(); r.error = true; r.why = std::string("C++ exception: ") + e.what(); }
    fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved);
    r.text = lseek(cap, 0, SEEK_END) > 1;
    if (!r.error) for (mxArray *o : out) {
      if (!o) break;
      fe::AV a;
      if (mxIsChar(o)) { char *s = mxArrayToString(o); a = fe::AV(std::string(s)); } else { a.v = back(o); a.r = mxGetM(o); a.c = mxGetN(o); a.flt = mxIsSingle(o); }
      r.out.push_back(a);
    }
    r.args.resize(k.a.size());
    for (size_t i = 0; i < k.a.size(); i++) {
      if (k.a[i].str || k.a[i].odd == 1 || k.a[i].odd == 2) continue;
      fe::Vec now = back(in[i]);
      if ((int)i == k.w.inplace && !k.a[i].odd) { r.args[i].v = now; continue; }
      r.args[i].v = k.a[i].v;
      if (now.size() && memcmp(now.data(), was[i].data(), now.size() * sizeof(double))) r.args[i].v.push_back(0);
    }
    mexrt::give_back();
    return r;
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  std::string prop = argv[3];
  bool th = std::string(argv[4]) == "thorough";
  std::vector<en::Space> s;
  MexApi *host = new MexApi(argv[1]);
  api::Drivers ds; ds.dir = argv[2];
  fe::all(*host, ds, s, th, prop);
  int rc = en::run(argc - 4, argv + 4, s);
  fflush(stdout);
  _exit(rc);
}
