// Runtime for mexshim/mex.h: arrays, errors and the call of one front end, as MATLAB defines them.
#pragma once
#include "mex.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

struct mxArray { mxClassID cls = mxDOUBLE_CLASS; std::vector<mwSize> d; void *data = nullptr; bool sparse = false; size_t n() const { size_t k = 1; for (mwSize x : d) k *= x; return k; } };
struct MexError { std::string msg; };
namespace mexrt {
inline size_t width(mxClassID c) {
  switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: case mxCELL_CLASS: case mxSTRUCT_CLASS: return 8;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; default: return 1; }
}
struct World { std::set<mxArray *> arrays; std::set<void *> blocks; bool in_call = false; };      // what MATLAB gives back after a call
inline World &world() { static World w; return w; }
inline mxArray *create(mxClassID c, std::vector<mwSize> d) {
  mxArray *a = new mxArray; a->cls = c; a->d = d;
  a->data = a->n() ? calloc(a->n(), width(c)) : nullptr;
  world().arrays.insert(a);
  return a;
}
inline void destroy(mxArray *a) {
  if (!a || !world().arrays.erase(a)) return;
  if (a->cls == mxCELL_CLASS && a->data) for (size_t i = 0; i < a->n(); i++) destroy(((mxArray **)a->data)[i]);
  free(a->data); delete a;
}
inline void give_back() { World &w = world(); while (!w.arrays.empty()) destroy(*w.arrays.begin()); for (void *p : w.blocks) free(p); w.blocks.clear(); }
inline double get(const mxArray *a, size_t i) {
  switch (a->cls) {
  case mxDOUBLE_CLASS: return ((double *)a->data)[i]; case mxSINGLE_CLASS: return ((float *)a->data)[i]; case mxINT32_CLASS: return ((int32_t *)a->data)[i];
  case mxINT64_CLASS: return ((int64_t *)a->data)[i]; case mxCHAR_CLASS: return ((mxChar *)a->data)[i]; case mxLOGICAL_CLASS: return ((bool *)a->data)[i]; default: return 0; }
}
inline void put(mxArray *a, size_t i, double x) {
  switch (a->cls) {
  case mxDOUBLE_CLASS: ((double *)a->data)[i] = x; break; case mxSINGLE_CLASS: ((float *)a->data)[i] = x; break; case mxINT32_CLASS: ((int32_t *)a->data)[i] = (int32_t)x; break;
  case mxINT64_CLASS: ((int64_t *)a->data)[i] = (int64_t)x; break; case mxCHAR_CLASS: ((mxChar *)a->data)[i] = (mxChar)x; break; case mxLOGICAL_CLASS: ((bool *)a->data)[i] = x != 0; break; default: break; }
}
inline mxArray *str(const std::string &s) { mxArray *a = create(mxCHAR_CLASS, {s.size() ? 1u : 0u, s.size()}); for (size_t i = 0; i < s.size(); i++) put(a, i, (unsigned char)s[i]); return a; }
typedef void (*fn_t)(int, mxArray **, int, const mxArray **);
inline fn_t load(const std::string &so) {
  void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  return (fn_t)dlsym(h, "mexFunction");
}
} // namespace mexrt

extern "C" {
size_t mxGetM(const mxArray *a) { return a->d[0]; }
size_t mxGetN(const mxArray *a) { size_t n = 1; for (size_t i = 1; i < a->d.size(); i++) n *= a->d[i]; return n; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->d.size(); }
const mwSize *mxGetDimensions(const mxArray *a) { return a->d.data(); }
size_t mxGetNumberOfElements(const mxArray *a) { return a->n(); }
double *mxGetPr(const mxArray *a) { return (double *)a->data; }
double *mxGetPi(const mxArray *) { return nullptr; }
void *mxGetData(const mxArray *a) { return a->data; }
double mxGetScalar(const mxArray *a) { return a->n() ? mexrt::get(a, 0) : 0.0; }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsSparse(const mxArray *a) { return a->sparse; }
bool mxIsComplex(const mxArray *) { return false; }
bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsCell(const mxArray *a) { return a->cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray *a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsEmpty(const mxArray *a) { return !a->n(); }
void *mxMalloc(size_t n) { void *p = malloc(n); mexrt::world().blocks.insert(p); return p; }
void mxFree(void *p) { if (p && mexrt::world().blocks.erase(p)) free(p); }
char *mxArrayToString(const mxArray *a) {
  if (!mxIsChar(a)) return nullptr;
  size_t n = a->n(); char *s = (char *)mxMalloc(n + 1);
  for (size_t i = 0; i < n; i++) s[i] = (char)((mxChar *)a->data)[i];
  s[n] = 0; return s;
}
int mxGetString(const mxArray *a, char *b, mwSize len) {
  if (!mxIsChar(a) || !len) return 1;
  size_t n = a->n(), i = 0;
  for (; i < n && i + 1 < len; i++) b[i] = (char)((mxChar *)a->data)[i];
  b[i] = 0; return n + 1 > len;
}
mxArray *mxCreateString(const char *s) { return mexrt::str(s); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mexrt::create(mxDOUBLE_CLASS, {m, n}); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return mexrt::create(c, {m, n}); }
mxArray *mxCreateDoubleScalar(double x) { mxArray *a = mexrt::create(mxDOUBLE_CLASS, {1, 1}); mexrt::put(a, 0, x); return a; }
void mxDestroyArray(mxArray *a) { mexrt::destroy(a); }
int mexPrintf(const char *f, ...) { va_list v; va_start(v, f); int n = vprintf(f, v); va_end(v); return n; }
void mexWarnMsgTxt(const char *s) { printf("Warning: %s\n", s); }
void mexErrMsgTxt(const char *s) { throw MexError{s ? s : ""}; }
}
