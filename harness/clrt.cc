#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include "clrt.h"

namespace clrt {
std::vector<Kernel> &kernels() { static std::vector<Kernel> k; return k; }
std::vector<Source> &sources() { static std::vector<Source> k; return k; }
State &st() { static State s; return s; }
static size_t G = 0, N = 1, L = 1;
size_t gid(unsigned d) { return d ? 0 : G; }
size_t gsize(unsigned d) { return d ? 1 : N; }
size_t lid(unsigned d) { return d ? 0 : G % L; }
size_t lsize(unsigned d) { return d ? 1 : L; }
static bool fails(const char *n) { State &s = st(); if (++s.calls == s.fail_at) { s.failed = n; return true; } return false; }
static void bad(const std::string &m) { if (st().bad.empty()) st().bad = m; }
}
using namespace clrt;
#define FAIL if (fails(__func__)) { if (err) *err = st().fail_code; return nullptr; }
#define FAILR if (fails(__func__)) return st().fail_code;

static const unsigned MAGIC = 0x434c5254;
struct Base { void *dispatch = nullptr; unsigned magic = MAGIC; int kind, refs = 1; Base(int k) : kind(k) { st().live++; } };
struct _cl_platform_id { int x; } PLAT;
struct _cl_device_id { int x; } DEV;
struct _cl_context : Base { _cl_context() : Base(1) {} };
struct _cl_command_queue : Base { _cl_context *c; _cl_command_queue(_cl_context *x) : Base(2), c(x) {} };
struct _cl_mem : Base { unsigned char *p; size_t n; cl_mem_flags f; _cl_mem(size_t k, cl_mem_flags fl) : Base(3), n(k), f(fl) { p = (unsigned char *)malloc(k); memset(p, 0xA5, k); } };
struct _cl_program : Base { std::string src; const Source *s = nullptr; bool built = false; _cl_program() : Base(4) {} };
struct _cl_kernel : Base { const Kernel *k; std::vector<std::vector<unsigned char>> a; std::vector<bool> set; _cl_kernel(const Kernel *x) : Base(5), k(x), a(x->sizes.size()), set(x->sizes.size()) {} };
template <class T> static bool ok(T *o, int kind) { if (!o || o->magic != MAGIC || o->kind != kind || o->refs < 1) { bad("invalid object (kind " + std::to_string(kind) + ")"); return false; } return true; }
template <class T> static cl_int retain(T *o, int k) { if (!ok(o, k)) return CL_INVALID_VALUE; o->refs++; return CL_SUCCESS; }
// objects are never returned to the allocator within a run of one case: use after release is detected
static std::vector<std::pair<void *, size_t>> grave;
template <class T> static cl_int release(T *o, int k) {
  if (!ok(o, k)) return CL_INVALID_VALUE;
  if (--o->refs == 0) { st().live--; if (k == 3) { free(((_cl_mem *)(void *)o)->p); ((_cl_mem *)(void *)o)->p = nullptr; } delete o; }
  return CL_SUCCESS;
}
static cl_int info(const void *v, size_t n, size_t size, void *val, size_t *ret) {
  if (ret) *ret = n;
  if (val) { if (size < n) return CL_INVALID_VALUE; memcpy(val, v, n); }
  return CL_SUCCESS;
}
static cl_int info(const char *s, size_t size, void *val, size_t *ret) { return info(s, strlen(s) + 1, size, val, ret); }

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *num) { FAILR if (num) *num = 1; if (p && n > 0) p[0] = &PLAT; return CL_SUCCESS; }
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info w, size_t s, void *v, size_t *r) { return info(w == CL_PLATFORM_VERSION ? "OpenCL 1.2 host" : "host", s, v, r); }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id *d, cl_uint *num) { if (p != &PLAT) return CL_INVALID_PLATFORM; FAILR if (num) *num = 1; if (d && n > 0) d[0] = &DEV; return CL_SUCCESS; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info w, size_t s, void *v, size_t *r) {
  if (d != &DEV) return CL_INVALID_DEVICE;
  cl_ulong u = 0;
  switch (w) {
  case CL_DEVICE_TYPE: u = CL_DEVICE_TYPE_GPU; return info(&u, 8, s, v, r);
  case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: return info("host", s, v, r);
  case CL_DEVICE_VERSION: return info("OpenCL 1.2 host", s, v, r);
  case CL_DEVICE_PLATFORM: { cl_platform_id p = &PLAT; return info(&p, sizeof p, s, v, r); }
  case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: case CL_DEVICE_LOCAL_MEM_SIZE: u = 1ul << 30; return info(&u, 8, s, v, r);
  case CL_DEVICE_MAX_WORK_GROUP_SIZE: u = 1024; return info(&u, sizeof(size_t), s, v, r);
  default: { cl_uint x = 1; return info(&x, 4, s, v, r); }
  }
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
typedef void(CL_CALLBACK *ctxcb)(const char *, const void *, size_t, void *);
cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, ctxcb, void *, cl_int *err) {
  if (n != 1 || !d || d[0] != &DEV) { if (err) *err = CL_INVALID_DEVICE; return nullptr; }
  FAIL if (err) *err = 0; return new _cl_context;
}
cl_context clCreateContextFromType(const cl_context_properties *, cl_device_type, ctxcb, void *, cl_int *err) { FAIL if (err) *err = 0; return new _cl_context; }
cl_int clRetainContext(cl_context c) { return retain(c, 1); }
cl_int clReleaseContext(cl_context c) { return release(c, 1); }
cl_int clGetContextInfo(cl_context c, cl_context_info w, size_t s, void *v, size_t *r) {
  if (!ok(c, 1)) return CL_INVALID_CONTEXT;
  if (w == CL_CONTEXT_DEVICES) { cl_device_id d = &DEV; return info(&d, sizeof d, s, v, r); }
  cl_uint x = 1; return info(&x, 4, s, v, r);
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties, cl_int *err) {
  if (!ok(c, 1)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
  if (d != &DEV) { if (err) *err = CL_INVALID_DEVICE; return nullptr; }
  FAIL if (err) *err = 0; return new _cl_command_queue(c);
}
cl_int clRetainCommandQueue(cl_command_queue q) { return retain(q, 2); }
cl_int clReleaseCommandQueue(cl_command_queue q) { return release(q, 2); }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *hp, cl_int *err) {
  if (!ok(c, 1)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
  if (n == 0) { if (err) *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
  FAIL if (err) *err = 0;
  if (n > (1ul << 30)) { if (err) *err = CL_MEM_OBJECT_ALLOCATION_FAILURE; return nullptr; }
  _cl_mem *m = new _cl_mem(n, f);
  if (hp && (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) memcpy(m->p, hp, n);
  return m;
}
cl_int clRetainMemObject(cl_mem m) { return retain(m, 3); }
cl_int clReleaseMemObject(cl_mem m) { return release(m, 3); }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t off, size_t n, const void *p, cl_uint, const cl_event *, cl_event *) {
  if (!ok(q, 2)) return CL_INVALID_COMMAND_QUEUE; if (!ok(m, 3)) return CL_INVALID_MEM_OBJECT;
  if (n == 0 || !p || off + n > m->n) { bad("write of " + std::to_string(n) + " bytes to a buffer of " + std::to_string(m->n)); return CL_INVALID_VALUE; }
  FAILR memcpy(m->p + off, p, n); return CL_SUCCESS;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t off, size_t n, void *p, cl_uint, const cl_event *, cl_event *) {
  if (!ok(q, 2)) return CL_INVALID_COMMAND_QUEUE; if (!ok(m, 3)) return CL_INVALID_MEM_OBJECT;
  if (n == 0 || !p || off + n > m->n) { bad("read of " + std::to_string(n) + " bytes from a buffer of " + std::to_string(m->n)); return CL_INVALID_VALUE; }
  FAILR memcpy(p, m->p + off, n); return CL_SUCCESS;
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) {
  if (!ok(c, 1)) { if (err) *err = CL_INVALID_CONTEXT; return nullptr; }
  FAIL if (err) *err = 0;
  _cl_program *p = new _cl_program;
  for (cl_uint i = 0; i < n; i++) p->src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
  while (!p->src.empty() && p->src.back() == 0) p->src.pop_back();
  for (Source &x : sources()) if (p->src == std::string((const char *)x.text, x.len)) p->s = &x;
  if (!p->s) bad("program source is not one of the kernel files");
  return p;
}
cl_int clRetainProgram(cl_program p) { return retain(p, 4); }
cl_int clReleaseProgram(cl_program p) { return release(p, 4); }
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char *, void(CL_CALLBACK *)(cl_program, void *), void *) {
  if (!ok(p, 4)) return CL_INVALID_PROGRAM;
  if (fails(__func__)) return CL_BUILD_PROGRAM_FAILURE;
  if (!p->s) return CL_BUILD_PROGRAM_FAILURE;
  p->built = true; return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info w, size_t s, void *v, size_t *r) {
  if (!ok(p, 4)) return CL_INVALID_PROGRAM;
  if (w == CL_PROGRAM_BUILD_STATUS) { cl_build_status b = p->built ? CL_BUILD_SUCCESS : CL_BUILD_ERROR; return info(&b, sizeof b, s, v, r); }
  return info("log", s, v, r);
}
cl_int clGetProgramInfo(cl_program, cl_program_info, size_t s, void *v, size_t *r) { cl_uint x = 1; return info(&x, 4, s, v, r); }
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err) {
  if (!ok(p, 4)) { if (err) *err = CL_INVALID_PROGRAM; return nullptr; }
  if (!p->built) { if (err) *err = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
  FAIL
  for (Kernel &k : kernels()) if (!strcmp(k.file, p->s->file) && !strcmp(k.name, name)) { if (err) *err = 0; return new _cl_kernel(&k); }
  bad(std::string("no kernel ") + name);
  if (err) *err = CL_INVALID_KERNEL_NAME; return nullptr;
}
cl_int clRetainKernel(cl_kernel k) { return retain(k, 5); }
cl_int clReleaseKernel(cl_kernel k) { return release(k, 5); }
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info w, size_t s, void *v, size_t *r) { if (!ok(k, 5)) return CL_INVALID_KERNEL; cl_uint x = k->a.size(); return info(&x, 4, s, v, r); }
cl_int clGetKernelWorkGroupInfo(cl_kernel, cl_device_id, cl_kernel_work_group_info, size_t s, void *v, size_t *r) { size_t x = 64; return info(&x, sizeof x, s, v, r); }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *p) {
  if (!ok(k, 5)) return CL_INVALID_KERNEL;
  if (i >= k->a.size()) { bad(std::string("argument index ") + std::to_string(i) + " of " + k->k->name); return CL_INVALID_ARG_INDEX; }
  if (n != k->k->sizes[i] || !p) { bad(std::string("size of argument ") + std::to_string(i) + " of " + k->k->name); return CL_INVALID_ARG_SIZE; }
  if (k->k->ptr[i]) { cl_mem m = *(cl_mem *)p; if (!m || !ok(m, 3)) { bad(std::string("argument ") + std::to_string(i) + " of " + k->k->name + " is no buffer"); return CL_INVALID_MEM_OBJECT; } }
  FAILR k->a[i].assign((const unsigned char *)p, (const unsigned char *)p + n); k->set[i] = true; return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *gs, const size_t *ls, cl_uint, const cl_event *, cl_event *) {
  if (!ok(q, 2)) return CL_INVALID_COMMAND_QUEUE; if (!ok(k, 5)) return CL_INVALID_KERNEL;
  if (dim != 1 || !gs) return CL_INVALID_WORK_DIMENSION;
  if (gs[0] == 0) return CL_INVALID_GLOBAL_WORK_SIZE;
  if (ls && (ls[0] == 0 || gs[0] % ls[0])) return CL_INVALID_WORK_GROUP_SIZE;
  for (size_t i = 0; i < k->set.size(); i++) if (!k->set[i]) { bad(std::string("argument ") + std::to_string(i) + " of " + k->k->name + " is not set"); return CL_INVALID_KERNEL_ARGS; }
  FAILR
  std::vector<void *> args(k->a.size()), bufs(k->a.size());
  std::vector<std::pair<cl_mem, std::vector<unsigned char>>> ro;
  for (size_t i = 0; i < args.size(); i++) {
    if (k->k->ptr[i]) { cl_mem m = *(cl_mem *)k->a[i].data(); if (!ok(m, 3)) return CL_INVALID_MEM_OBJECT; bufs[i] = m->p; args[i] = &bufs[i];
      if (m->f & CL_MEM_READ_ONLY) ro.push_back({m, std::vector<unsigned char>(m->p, m->p + m->n)}); }
    else args[i] = k->a[i].data();
  }
  N = gs[0]; L = ls ? ls[0] : 1;
  st().launches++;
  for (size_t n = 0; n < N; n++) { G = (off ? off[0] : 0) + (st().reverse ? N - 1 - n : n); k->k->call(args.data()); st().items++; }
  for (auto &x : ro) if (memcmp(x.first->p, x.second.data(), x.second.size())) bad("a read-only buffer was written");
  return CL_SUCCESS;
}
cl_int clFlush(cl_command_queue q) { return ok(q, 2) ? CL_SUCCESS : CL_INVALID_COMMAND_QUEUE; }
cl_int clFinish(cl_command_queue q) { if (!ok(q, 2)) return CL_INVALID_COMMAND_QUEUE; FAILR return CL_SUCCESS; }
cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
}
