// Counts the live heap blocks of the whole process (every library included) by
// standing in for the C library's allocator; include in exactly one source file
// of a program built without AddressSanitizer.
#pragma once
#include <atomic>
#include <errno.h>
#include <functional>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>

namespace leak { inline std::atomic<long> blocks{0}, bytes{0}; }
#ifndef __SANITIZE_ADDRESS__
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static inline void *leak_in(void *p) { if (p) { leak::blocks++; leak::bytes += malloc_usable_size(p); } return p; }
static inline void leak_out(void *p) { if (p) { leak::blocks--; leak::bytes -= malloc_usable_size(p); } }
void *malloc(size_t n) { return leak_in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return leak_in(__libc_calloc(a, b)); }
void free(void *p) { leak_out(p); __libc_free(p); }
void *realloc(void *p, size_t n) {
  long had = p ? malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q) { if (p) leak::blocks--; leak::bytes -= had; leak_in(q); }
  else if (p && !n) { leak::blocks--; leak::bytes -= had; }
  return q;
}
void *memalign(size_t a, size_t n) { return leak_in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return leak_in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = leak_in(q); return 0; }
}
#endif

namespace leak {
// Runs f until the process has settled; "" if it stops growing, otherwise what each further call leaves behind.
inline std::string grows(const std::function<void()> &f) {
  f(); f();
  long b0 = blocks, y0 = bytes;
  f(); f();
  long b1 = blocks, y1 = bytes;
  if (b1 <= b0 && y1 <= y0) return "";
  long n = 0;
  for (int round = 0; round < 5; round++) {         // caches fill up and stop; a leak goes on
    static const long N[] = {24, 24, 150, 600, 600};
    b0 = blocks; y0 = bytes; n = N[round];
    for (int k = 0; k < n; k++) f();
    b1 = blocks; y1 = bytes;
    if (b1 - b0 < n * 0.9 && y1 - y0 < n * 64) return "";
  }
  return "every call leaves " + std::to_string((b1 - b0) / double(n)).substr(0, 6) + " blocks, " + std::to_string((y1 - y0) / n) + " bytes allocated";
}
} // namespace leak
