#include "mcrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/syscall.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <map>
#include <unordered_map>
#include <thread>
#include <cxxabi.h>

// ---------------------------------------------------------------- state
namespace {
enum Kind { OP_START, OP_CREATE, OP_JOIN, OP_LOAD, OP_STORE, OP_RMW, OP_FENCE, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CONDWAIT, OP_CONDSIG, OP_EXIT };
const char *kname[] = {"start","create","join","load","store","rmw","fence","lock","trylock","unlock","condwait","condsig","exit"};
struct Op { Kind k; uintptr_t a; uintptr_t b; char who = 'm'; };   // who: e environment thread, w worker, m caller
const int MAXT = 24;
struct VC { uint32_t c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct T {
  sem_t sem; bool used = false, finished = false, joined = false, env = false, condblocked = false, detached = false;
  Op pend{OP_START, 0, 0};
  VC vc;
  pthread_t real;
};
T *th; int nth; int cur; bool g_active = false; int created;
thread_local int self = -1;

struct Cell { uint32_t wclk; uint16_t wt; uint8_t wmask; uint8_t used; uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; void *wpc; };
std::unordered_map<uintptr_t, Cell> *shadow;
std::unordered_map<uintptr_t, VC> *syncvc;
std::unordered_map<uintptr_t, int> *mtx;       // owner (tid+1), 0 free
std::map<uintptr_t, size_t> *blocks;           // live heap blocks of this execution
std::vector<void *> *deferred;
long n_access; long n_steps; long n_nodes; bool race_on = true;
std::string *violation;
bool stop_check; // redundant execution

struct Node { std::vector<int> en; std::vector<Op> ops; std::vector<int> sleep; std::vector<int> done; int chosen; bool curen; int cost; };
std::vector<Node> *stack; size_t depth; bool exploring; int bound; long maxsteps; int preempts;
std::vector<int> *sched_rec; const std::vector<int> *sched_replay; size_t replay_pos;
std::vector<std::pair<int, Op>> *cursleep; // sleep set carried between nodes
bool diverged;
unsigned hwc = 0;
uintptr_t wbase = 0; size_t wcol = 0; int wn = 0; std::vector<unsigned> *wmask; // which threads wrote which output column

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
pc_t real_create; int (*real_join)(pthread_t, void **); int (*real_detach)(pthread_t);
int (*real_lock)(pthread_mutex_t *); int (*real_trylock)(pthread_mutex_t *); int (*real_unlock)(pthread_mutex_t *);
int (*real_cw)(pthread_cond_t *, pthread_mutex_t *); int (*real_cs)(pthread_cond_t *); int (*real_cb)(pthread_cond_t *);
void init_real() {
  if (real_create) return;
  real_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  *(void **)&real_join = dlsym(RTLD_NEXT, "pthread_join");
  *(void **)&real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  *(void **)&real_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  *(void **)&real_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  *(void **)&real_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  *(void **)&real_cw = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  *(void **)&real_cs = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  *(void **)&real_cb = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
}
inline bool managed() { return g_active && self >= 0; }

// The runtime's own allocations must bypass the deferral below.
thread_local int in_rt = 0;
struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };

void sem_w(sem_t *s) { while (sem_wait(s) != 0 && errno == EINTR) {} }

void setviol(const std::string &m) { RT r; if (violation->empty()) *violation = m; }

bool enabled(int t) {
  T &x = th[t];
  if (!x.used || x.finished || x.condblocked) return false;
  if (x.pend.k == OP_JOIN) return th[x.pend.a].finished;
  if (x.pend.k == OP_LOCK) { auto i = mtx->find(x.pend.a); return i == mtx->end() || i->second == 0; }
  return true;
}
bool wr(Kind k) { return k == OP_STORE || k == OP_RMW; }
bool mem(Kind k) { return k == OP_LOAD || wr(k); }
bool mx(Kind k) { return k == OP_LOCK || k == OP_TRYLOCK || k == OP_UNLOCK || k == OP_CONDWAIT || k == OP_CONDSIG; }
bool dependent(const Op &a, const Op &b) {
  // the environment thread's request also looks at the output columns, which
  // workers write in the transitions that follow their own operations
  const Op *e = a.who == 'e' ? &a : b.who == 'e' ? &b : nullptr;
  if (e && mem(e->k)) {
    const Op *o = e == &a ? &b : &a;
    if (o->k == OP_CREATE || o->k == OP_START || (o->who == 'w' && mem(o->k))) return true;
  }
  if (mem(a.k) && mem(b.k)) return a.a == b.a && (wr(a.k) || wr(b.k));
  if (mx(a.k) && mx(b.k)) return a.a == b.a || a.b == b.b;
  return false;
}
[[noreturn]] void die(const char *why) {
  // Cannot unwind a stuck execution: report and leave; the runner reads the report file descriptor.
  setviol(why);
  std::string s = "MCDIE " + *violation + " schedule=";
  for (int t : *sched_rec) s += std::to_string(t) + ",";
  s += "\n";
  if (write(2, s.c_str(), s.size())) {}
  _exit(77);
}

// Chooses who executes its pending operation next. Called by the running thread
// (whose own pending op is set, or which has finished).
int choose() {
  RT r;
  if (++n_steps > maxsteps) die("no progress: step limit reached (livelock)");
  std::vector<int> en;
  bool curen = enabled(cur);
  if (curen) en.push_back(cur);
  for (int t = 0; t < nth; t++) if (t != cur && enabled(t)) en.push_back(t);
  if (en.empty()) {
    std::string m = "deadlock: no thread can run;";
    for (int t = 0; t < nth; t++) if (th[t].used && !th[t].finished) m += " T" + std::to_string(t) + " waits at " + kname[th[t].pend.k];
    die(m.c_str());
  }
  int c;
  if (sched_replay) {
    if (replay_pos < sched_replay->size()) c = (*sched_replay)[replay_pos++]; else c = en[0];
    bool ok = false; for (int t : en) ok |= t == c;
    if (!ok) { diverged = true; c = en[0]; }
  } else if (!exploring || stop_check) {
    c = en[0];
  } else if (en.size() == 1) {
    c = en[0];
    // is the only enabled thread asleep?  then this execution is redundant
    if (bound < 0) for (auto &p : *cursleep) if (p.first == c) stop_check = true;
  } else if (depth < stack->size()) {
    Node &n = (*stack)[depth++];
    if (n.en != en) { diverged = true; c = en[0]; }
    else { c = n.chosen; }
    if (bound < 0 && !diverged) {
      // sleep set for the continuation
      cursleep->clear();
      for (size_t i = 0; i < n.en.size(); i++) {
        bool in = false;
        for (int s : n.sleep) in |= s == n.en[i];
        for (int s : n.done) in |= (s == n.en[i] && s != c);
        if (in) cursleep->push_back({n.en[i], n.ops[i]});
      }
    }
    if (n.curen && c != cur) preempts++;
  } else {
    Node n; n.en = en; n.curen = curen; n.cost = preempts;
    for (int t : en) n.ops.push_back(th[t].pend);
    c = -1;
    if (bound < 0) {
      for (auto &p : *cursleep) n.sleep.push_back(p.first);
      for (int t : en) { bool s = false; for (int q : n.sleep) s |= q == t; if (!s) { c = t; break; } }
      if (c < 0) { stop_check = true; c = en[0]; }
      else { n.chosen = c; stack->push_back(n); depth++; n_nodes++; }
    } else { c = en[0]; n.chosen = c; stack->push_back(n); depth++; n_nodes++; }
  }
  // executing th[c].pend wakes dependent sleepers
  if (bound < 0 && !cursleep->empty()) {
    std::vector<std::pair<int, Op>> k;
    for (auto &p : *cursleep) if (p.first != c && !dependent(p.second, th[c].pend)) k.push_back(p);
    *cursleep = k;
  }
  sched_rec->push_back(c);
  return c;
}
void handoff(int c) { cur = c; sem_post(&th[c].sem); }

void visible(Kind k, uintptr_t a, uintptr_t b = 0) {
  T &me = th[self];
  me.pend = Op{k, a, b, me.env ? 'e' : self ? 'w' : 'm'};
  int c = choose();
  if (c != self) { handoff(c); sem_w(&me.sem); }
  me.vc.c[self]++;
}

void finish_self() {
  th[self].finished = true;
  int c = choose();
  int s = self; (void)s;
  self = -1;
  handoff(c);
}

std::string where(void *pc) {
  Dl_info di; std::string s = "?";
  if (dladdr(pc, &di)) {
    if (di.dli_sname) { int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); s = d ? d : di.dli_sname; free(d); size_t p = s.find('('); if (p != std::string::npos) s.resize(p); }
    else if (di.dli_fname) { char b[64]; snprintf(b, sizeof b, "+0x%lx", (long)((char *)pc - (char *)di.dli_fbase)); s = b; }
  }
  return s;
}

void acc_word(uintptr_t w, uint8_t mask, bool write, void *pc) {
  Cell &c = (*shadow)[w];
  T &me = th[self];
  bool bad = false;
  if (c.used && c.wclk && (c.wmask & mask) && c.wt != self && me.vc.c[c.wt] < c.wclk) bad = true;
  if (write) for (int t = 0; t < nth && !bad; t++)
    if (t != self && c.rclk[t] && (c.rmask[t] & mask) && me.vc.c[t] < c.rclk[t]) bad = true;
  if (bad) {
    setviol("data race: " + std::string(write ? "write" : "read") + " in " + where(pc) + " by T" + std::to_string(self) +
            " is unordered with an access by another thread" + (c.wpc ? " (last writer " + where(c.wpc) + ")" : std::string()));
  }
  c.used = 1;
  if (write) { c.wclk = me.vc.c[self]; c.wt = self; c.wmask = mask; c.wpc = pc; }
  else { c.rclk[self] = me.vc.c[self]; c.rmask[self] = (c.rmask[self] | mask); }
}
void access(uintptr_t a, size_t n, bool write, void *pc) {
  if (write && wbase && a + n > wbase && a < wbase + wcol * wn) {
    long c0 = a < wbase ? 0 : (a - wbase) / wcol, c1 = (a + n - 1 - wbase) / wcol;
    for (long c = c0; c <= c1 && c < wn; c++) (*wmask)[c] |= 1u << self;
  }
  if (!race_on || !violation->empty()) return;
  RT r;
  n_access++;
  while (n) {
    uintptr_t w = a & ~7ul; unsigned o = a & 7; unsigned k = 8 - o; if (k > n) k = n;
    acc_word(w, (uint8_t)(((1u << k) - 1) << o), write, pc);
    a += k; n -= k;
  }
}
void acquire(uintptr_t a) { RT r; auto i = syncvc->find(a); if (i != syncvc->end()) th[self].vc.join(i->second); }
void release(uintptr_t a, bool join) { RT r; if (join) (*syncvc)[a].join(th[self].vc); else (*syncvc)[a] = th[self].vc; }
inline bool mo_acq(int mo) { return mo != 0 && mo != 3; }
inline bool mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
} // namespace

// ---------------------------------------------------------------- threads
struct StartArg { void *(*f)(void *); void *a; int tid; };
static void *tramp(void *p) {
  StartArg sa = *(StartArg *)p;
  { RT r; delete (StartArg *)p; }
  self = sa.tid;
  sem_w(&th[self].sem);         // until scheduled for OP_START
  th[self].vc.c[self]++;
  void *rv = sa.f(sa.a);
  finish_self();
  return rv;
}
static bool creating_env = false;
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  init_real();
  if (!managed()) return real_create(t, at, f, a);
  visible(OP_CREATE, 0);
  int id = nth;
  if (id >= MAXT) die("too many threads");
  T &n = th[id];
  n.used = true; n.finished = n.joined = n.condblocked = n.detached = false; n.env = creating_env; n.pend = Op{OP_START, 0, 0, creating_env ? 'e' : 'w'};
  sem_init(&n.sem, 0, 0);
  n.vc = th[self].vc;
  th[self].vc.c[self]++;
  StartArg *sa; { RT r; sa = new StartArg{f, a, id}; }
  nth++;
  if (!n.env) created++;
  int rc;
  { RT r; rc = real_create(&n.real, at, tramp, sa); }
  if (rc) die("pthread_create failed");
  *t = n.real;
  return 0;
}
static int find_tid(pthread_t t) { for (int i = nth - 1; i > 0; i--) if (th[i].used && !th[i].joined && pthread_equal(th[i].real, t)) return i; return -1; }
extern "C" int pthread_join(pthread_t t, void **rv) {
  init_real();
  if (!managed()) return real_join(t, rv);
  int id = find_tid(t);
  if (id < 0) return real_join(t, rv);
  visible(OP_JOIN, id);
  th[self].vc.join(th[id].vc);
  th[id].joined = true;
  RT r;
  return real_join(t, rv);
}
extern "C" int pthread_detach(pthread_t t) {
  init_real();
  if (managed()) { int id = find_tid(t); if (id > 0) th[id].detached = true; }
  return real_detach(t);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!managed() || in_rt) { init_real(); return real_lock(m); }
  visible(OP_LOCK, (uintptr_t)m);
  { RT r; (*mtx)[(uintptr_t)m] = self + 1; }
  acquire((uintptr_t)m);
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!managed() || in_rt) { init_real(); return real_trylock(m); }
  visible(OP_TRYLOCK, (uintptr_t)m);
  RT r;
  int &o = (*mtx)[(uintptr_t)m];
  if (o) return EBUSY;
  o = self + 1; acquire((uintptr_t)m);
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!managed() || in_rt) { init_real(); return real_unlock(m); }
  visible(OP_UNLOCK, (uintptr_t)m);
  RT r;
  (*mtx)[(uintptr_t)m] = 0; release((uintptr_t)m, false);
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!managed() || in_rt) { init_real(); return real_cw(c, m); }
  visible(OP_CONDWAIT, (uintptr_t)m, (uintptr_t)c);
  { RT r; (*mtx)[(uintptr_t)m] = 0; release((uintptr_t)m, false); }
  th[self].condblocked = true; th[self].pend = Op{OP_LOCK, (uintptr_t)m, (uintptr_t)c};
  int k = choose(); if (k != self) { handoff(k); sem_w(&th[self].sem); }
  RT r; (*mtx)[(uintptr_t)m] = self + 1; acquire((uintptr_t)m);
  return 0;
}
static void wake(pthread_cond_t *c, bool all) {
  visible(OP_CONDSIG, 0, (uintptr_t)c);
  for (int t = 0; t < nth; t++) if (th[t].used && th[t].condblocked && th[t].pend.b == (uintptr_t)c) { th[t].condblocked = false; if (!all) break; }
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) { if (!managed() || in_rt) { init_real(); return real_cs(c); } wake(c, false); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) { if (!managed() || in_rt) { init_real(); return real_cb(c); } wake(c, true); return 0; }

unsigned int std::thread::hardware_concurrency() noexcept {
  if (hwc) return hwc;
  long n = sysconf(_SC_NPROCESSORS_ONLN);
  return n > 0 ? n : 1;
}

// ---------------------------------------------------------------- memory: frees are deferred to the end of an execution
extern "C" void *__libc_malloc(size_t); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t); extern "C" void __libc_free(void *);
static inline bool track() { return g_active && self >= 0 && !in_rt; }
static void *reg(void *p, size_t n) { if (p && track()) { RT r; (*blocks)[(uintptr_t)p] = n; } return p; }
extern "C" void *malloc(size_t n) { return reg(__libc_malloc(n), n); }
extern "C" void *calloc(size_t a, size_t b) { return reg(__libc_calloc(a, b), a * b); }
extern "C" void *memalign(size_t al, size_t n) { return reg(__libc_memalign(al, n), n); }
extern "C" void *aligned_alloc(size_t al, size_t n) { return reg(__libc_memalign(al, n), n); }
extern "C" int posix_memalign(void **p, size_t al, size_t n) { *p = reg(__libc_memalign(al, n), n); return *p ? 0 : ENOMEM; }
extern "C" void free(void *p) { if (p && track()) { RT r; deferred->push_back(p); return; } __libc_free(p); }
extern "C" void *realloc(void *p, size_t n) {
  if (!track()) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  void *q = malloc(n); size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); return q;
}

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
#define ACC(p, n, w) do { if (managed() && !in_rt) access((uintptr_t)(p), n, w, PC); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *) { ACC(p, 8, true); }
void __tsan_vptr_read(void **p) { ACC(p, 8, false); }
#define RW(N) void __tsan_read##N(void *p) { ACC(p, N, false); } void __tsan_write##N(void *p) { ACC(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { ACC(p, N, false); } void __tsan_unaligned_write##N(void *p) { ACC(p, N, true); } \
  /* volatile: a scheduling point that orders nothing */ \
  void __tsan_volatile_read##N(void *p) { if (managed() && !in_rt) visible(OP_LOAD, (uintptr_t)p); } void __tsan_volatile_write##N(void *p) { if (managed() && !in_rt) visible(OP_STORE, (uintptr_t)p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { ACC(p, n, false); }
void __tsan_write_range(void *p, size_t n) { ACC(p, n, true); }
void __tsan_atomic_thread_fence(int) { if (managed()) visible(OP_FENCE, 0); }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { if (managed() && !in_rt) { visible(OP_LOAD, (uintptr_t)p); if (mo_acq(mo)) acquire((uintptr_t)p); } return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { if (managed() && !in_rt) { visible(OP_STORE, (uintptr_t)p); if (mo_rel(mo)) release((uintptr_t)p, false); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
static void rmw##N(const volatile void *p, int mo) { if (managed() && !in_rt) { visible(OP_RMW, (uintptr_t)p); if (mo_acq(mo)) acquire((uintptr_t)p); if (mo_rel(mo)) release((uintptr_t)p, true); } } \
TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { rmw##N(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int) { rmw##N(p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int) { rmw##N(p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int) { rmw##N(p, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// library calls made by the code under test (linked with -Wl,--wrap)
void *__wrap_memcpy(void *d, const void *s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { ACC(d, n, true); return memset(d, c, n); }
static size_t blk(void *p) { RT r; auto i = blocks->find((uintptr_t)p); return i == blocks->end() ? 8 : i->second; }
static char fftw_planner; // the FFTW planner is not thread safe: treat every planner call as a write to it
#define FN(name) static void *f = dlsym(RTLD_NEXT, name); if (!f) f = dlsym(RTLD_DEFAULT, name)
void __wrap_fftw_execute_dft_r2c(void *p, double *x, void *y) {
  FN("fftw_execute_dft_r2c"); if (managed()) { ACC(x, blk(x), false); ACC(y, blk(y), true); } ((void (*)(void *, double *, void *))f)(p, x, y); }
void __wrap_fftw_execute_dft_c2r(void *p, void *x, double *y) {
  FN("fftw_execute_dft_c2r"); if (managed()) { ACC(x, blk(x), true); ACC(y, blk(y), true); } ((void (*)(void *, void *, double *))f)(p, x, y); }
void *__wrap_fftw_plan_dft_r2c_1d(int n, double *x, void *y, unsigned fl) { FN("fftw_plan_dft_r2c_1d"); ACC(&fftw_planner, 1, true); RT r; return ((void *(*)(int, double *, void *, unsigned))f)(n, x, y, fl); }
void *__wrap_fftw_plan_dft_c2r_1d(int n, void *x, double *y, unsigned fl) { FN("fftw_plan_dft_c2r_1d"); ACC(&fftw_planner, 1, true); RT r; return ((void *(*)(int, void *, double *, unsigned))f)(n, x, y, fl); }
void __wrap_fftw_destroy_plan(void *p) { FN("fftw_destroy_plan"); ACC(&fftw_planner, 1, true); RT r; ((void (*)(void *))f)(p); }
}

// ---------------------------------------------------------------- signal dispositions and Octave's output stream
static char sigcell[65];
extern "C" int __sigaction(int, const struct sigaction *, struct sigaction *);
extern "C" int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (managed() && !in_rt && s > 0 && s < 65) visible(a ? OP_RMW : OP_LOAD, (uintptr_t)&sigcell[s]);
  return __sigaction(s, a, o);
}
extern "C" sighandler_t signal(int s, sighandler_t h) {
  struct sigaction a = {}, o = {}; a.sa_handler = h; a.sa_flags = SA_RESTART;
  return sigaction(s, &a, &o) ? SIG_ERR : o.sa_handler;
}
extern "C" int raise(int s) {
  if (managed() && !in_rt && s > 0 && s < 65) visible(OP_LOAD, (uintptr_t)&sigcell[s]);
  return syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), s);
}
static char oct_stream; // Octave's output stream is an object of the interpreter: not for use from two threads
extern "C" void *__wrap__ZN6octave10__stdout__Ev() {
  static void *(*f)() = (void *(*)())dlsym(RTLD_DEFAULT, "_ZN6octave10__stdout__Ev");
  ACC(&oct_stream, 1, true);
  return f();
}

// ---------------------------------------------------------------- explorer
namespace mc {
bool active() { return g_active; }
int threads_created() { return created; }
int live_workers() { int n = 0; for (int t = 1; t < nth; t++) n += th[t].used && !th[t].env && !th[t].finished; return n; }
void set_hw_concurrency(unsigned n) { hwc = n; }
void fail(const std::string &m) { setviol(m); }
void watch(const void *base, size_t colbytes, int ncols) {
  RT r; wbase = (uintptr_t)base; wcol = colbytes; wn = ncols;
  if (!wmask) wmask = new std::vector<unsigned>;
  wmask->assign(ncols, 0);
}
unsigned watch_mask(int c) { return (*wmask)[c]; }
struct EnvThread { pthread_t t; std::function<void()> f; };
static void *env_main(void *p) { ((EnvThread *)p)->f(); return nullptr; }
EnvThread *env_start(std::function<void()> f) {
  EnvThread *e; { RT r; e = new EnvThread; e->f = f; }
  creating_env = true; pthread_create(&e->t, nullptr, env_main, e); creating_env = false;
  return e;
}
void env_join(EnvThread *e) { pthread_join(e->t, nullptr); RT r; delete e; }

static void reset() {
  for (int i = 0; i < MAXT; i++) { th[i].used = th[i].finished = th[i].joined = th[i].condblocked = th[i].detached = th[i].env = false; th[i].vc = VC(); }
  nth = 1; cur = 0; created = 0; self = 0;
  th[0].used = true; sem_init(&th[0].sem, 0, 0); th[0].vc.c[0] = 1;
  shadow->clear(); syncvc->clear(); mtx->clear(); blocks->clear();
  violation->clear(); sched_rec->clear(); cursleep->clear();
  wbase = 0; wn = 0;
  depth = 0; stop_check = false; diverged = false; n_steps = 0; preempts = 0; replay_pos = 0;
}
static std::string run_once(const Body &body, std::string &outcome) {
  init_real();
  if (!th) {
    th = new T[MAXT]; shadow = new std::unordered_map<uintptr_t, Cell>; syncvc = new std::unordered_map<uintptr_t, VC>; mtx = new std::unordered_map<uintptr_t, int>;
    blocks = new std::map<uintptr_t, size_t>; deferred = new std::vector<void *>; violation = new std::string; sched_rec = new std::vector<int>;
    cursleep = new std::vector<std::pair<int, Op>>;
  }
  reset();
  g_active = true;
  std::string v;
  try { v = body(outcome); } catch (const std::exception &e) { v = std::string("exception: ") + e.what(); }
  // threads the call left behind?
  bool left = false;
  for (int t = 1; t < nth; t++) if (th[t].used && !th[t].finished) left = true;
  if (left) {
    setviol("worker threads still running when the call returned");
    for (int t = 1; t < nth; t++) while (th[t].used && !th[t].finished) { th[0].pend = Op{OP_JOIN, (uintptr_t)t, 0}; int c = choose(); if (c != 0) { handoff(c); sem_w(&th[0].sem); } }
  }
  g_active = false;
  { RT r; for (void *p : *deferred) __libc_free(p); deferred->clear(); }
  if (!violation->empty()) v = *violation;
  if (diverged && v.empty()) v = "schedule replay diverged: the code's behaviour depends on something outside the schedule";
  self = -1;
  return v;
}
Result explore(const Body &body, const Options &opt) {
  Result res;
  if (!stack) stack = new std::vector<Node>;
  stack->clear(); n_nodes = 1;
  bound = opt.preempt_bound; maxsteps = opt.max_steps; race_on = opt.races; sched_replay = nullptr; exploring = true;
  for (;;) {
    std::string out;
    n_access = 0;
    std::string v = run_once(body, out);
    res.steps += n_steps; res.accesses += n_access;
    if (nth > res.max_threads) res.max_threads = nth;
    if (stop_check && v.empty()) res.pruned++;
    else {
      res.execs++;
      res.outcomes.insert(out);
    }
    if (!v.empty()) { res.violation = v; res.schedule = *sched_rec; break; }
    // backtrack
    bool more = false;
    while (!stack->empty()) {
      Node &n = stack->back();
      n.done.push_back(n.chosen);
      int nx = -1;
      for (int t : n.en) {
        bool skip = false;
        for (int s : n.done) skip |= s == t;
        if (bound < 0) for (int s : n.sleep) skip |= s == t;
        if (!skip && bound >= 0 && n.curen && t != n.en[0] && n.cost + 1 > bound) skip = true;
        if (!skip) { nx = t; break; }
      }
      if (nx >= 0) { n.chosen = nx; more = true; break; }
      stack->pop_back();
    }
    if (!more) break;
    if (res.execs + res.pruned >= opt.max_execs) { res.capped = true; break; }
  }
  res.nodes = n_nodes;
  exploring = false;
  return res;
}
std::string replay(const Body &body, const std::vector<int> &s, std::string &outcome, const Options &opt) {
  if (!stack) stack = new std::vector<Node>;
  bound = opt.preempt_bound; maxsteps = opt.max_steps; race_on = opt.races;
  exploring = false; sched_replay = &s;
  std::string v = run_once(body, outcome);
  sched_replay = nullptr;
  return v;
}
} // namespace mc
