// A host-side OpenCL runtime: the standard entry points the toolbox calls,
// with the argument checks of the OpenCL specification.  Programs must be one
// of the kernels of /repo/opencl; a kernel launch runs the compiled kernel for
// every work item.  Any call can be made to fail.
#pragma once
#include <string>
#include <vector>
namespace clrt {
struct Kernel { const char *file, *name; std::vector<size_t> sizes; std::vector<bool> ptr; void (*call)(void **); };
std::vector<Kernel> &kernels();
struct Source { const char *file; const unsigned char *text; unsigned len; };
std::vector<Source> &sources();
size_t gid(unsigned d); size_t gsize(unsigned d); size_t lid(unsigned d); size_t lsize(unsigned d);

template <class T> struct IsPtr { static const bool v = false; };
template <class T> struct IsPtr<T *> { static const bool v = true; };
template <class... A, size_t... I> inline void apply(void (*f)(A...), void **a, std::index_sequence<I...>) { f(*(typename std::remove_const<A>::type *)a[I]...); }
template <class... A> inline void invoke(void (*f)(A...), void **a) { apply(f, a, std::index_sequence_for<A...>()); }
template <class... A> Kernel describe(void (*)(A...), const char *file, const char *name) {
  Kernel k; k.file = file; k.name = name; k.call = nullptr;
  k.sizes = {sizeof(A)...}; k.ptr = {IsPtr<A>::v...};
  return k;
}
struct Reg { Reg(Kernel k, void (*call)(void **)) { k.call = call; kernels().push_back(k); } };

// control and observation
struct State {
  long calls = 0;              // entry points called that can fail
  long fail_at = -1;           // 1-based index of the call to fail
  int fail_code = -5;          // CL_OUT_OF_RESOURCES
  std::string failed;          // name of the call that was failed
  long launches = 0, items = 0, live = 0;
  bool reverse = false;        // order of the work items
  std::string bad;             // misuse: read-only buffer written, wrong size, unset argument ...
};
State &st();
}
