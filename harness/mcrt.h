// Controlled scheduler + happens-before race detector for code compiled with
// gcc -fsanitize=thread and linked WITHOUT libtsan (this runtime provides the
// __tsan_* entry points, and interposes pthread_create/join/mutex/cond).
//
// explore() enumerates every interleaving of the visible operations (atomic
// accesses, mutex operations, thread creation/join) of the body, up to
// commutation of independent operations (sleep sets).  One thread runs at a time.
#pragma once
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace mc {

struct Options {
  long max_execs = 2000000;   // cap (reported when hit)
  long max_steps = 200000;    // per execution: more steps = livelock
  int preempt_bound = -1;     // -1: unbounded with sleep sets; >=0: preemption bounded, no sleep sets
  bool races = true;
};

struct Result {
  long execs = 0;             // complete executions checked
  long pruned = 0;            // executions cut as equivalent to an explored one
  long steps = 0;             // visible operations executed
  long nodes = 0;             // scheduling points with more than one enabled thread
  long accesses = 0;          // plain memory accesses checked for races
  int max_threads = 0;
  bool capped = false;
  std::set<std::string> outcomes;
  std::string violation;      // empty: held
  std::vector<int> schedule;  // the failing schedule (thread ids)
};

// body: returns "" or a description of the violation; sets outcome.
typedef std::function<std::string(std::string &outcome)> Body;

Result explore(const Body &body, const Options &opt);
// Runs one recorded schedule; same outcome as the exploration step that found it.
std::string replay(const Body &body, const std::vector<int> &schedule, std::string &outcome, const Options &opt);

// Inside a body: start/join a thread owned by the harness (e.g. the environment
// delivering a cancel request).
struct EnvThread;
EnvThread *env_start(std::function<void()> f);
void env_join(EnvThread *);

bool active();
int live_workers();           // worker threads that have not finished
int threads_created();        // by the body so far (excluding env threads)
// Records which threads write each of ncols consecutive blocks of colbytes bytes.
void watch(const void *base, size_t colbytes, int ncols);
unsigned watch_mask(int col);
void set_hw_concurrency(unsigned n); // 0 = real value
void fail(const std::string &msg);  // record a violation from inside any thread of the body
}
