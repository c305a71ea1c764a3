// Bounded-exhaustive enumeration: every combination of the dimensions of every
// space is run; shards take interleaved cases; the current case is kept in a
// mapped file so that a crash is attributed to it.
//   prog ARGS... PROP TIER [--shard i n] [--progress FILE] [--from K] [--case K] [--list]
#pragma once
#include <fcntl.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace en {
typedef std::vector<int> Idx;
struct Ctx;
struct Space {
  std::string name;
  std::vector<std::pair<std::string, int>> dims;
  std::function<void(Ctx &, const Idx &)> run;
  long size() const { long n = 1; for (auto &d : dims) n *= d.second; return n; }
};
inline std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } if (c < 32) continue; o += c; } return o; }
inline std::string S(double x) { char b[40]; snprintf(b, sizeof b, "%.12g", x); return b; }

struct Ctx {
  FILE *rep = nullptr;
  std::string space, desc; long gidx = 0;
  long cases = 0, steps = 0, validated = 0, calls = 0, values = 0, nontrivial = 0, ambiguous = 0, nviol = 0;
  bool triv = true, failed = false, skipped = false;
  std::unordered_set<uint64_t> states;
  std::set<std::string> keys; std::vector<std::string> samples;
  std::map<std::string, long> per;
  void fail(const std::string &cls, const std::string &msg) {
    failed = true;
    std::string k = space + ": " + cls;
    if (keys.insert(k).second && keys.size() <= 12) {
      fprintf(rep, "{\"violation\":\"%s\",\"key\":\"%s\",\"case\":%ld}\n", jesc(msg + " [" + desc + "]").c_str(), jesc(k).c_str(), gidx);
      fflush(rep);
    }
    nviol++;
  }
  void skip() { skipped = true; }             // the case is outside the quantifier
  void state(const void *p, size_t n) { uint64_t h = 1469598103934665603ull; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } h ^= std::hash<std::string>()(space); states.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 2) samples.push_back(s); }
  // compares n values; amb[i] != 0 marks a value that hangs on a rounding tie
  bool cmp(const std::string &cls, const double *got, const double *want, long n, double rel = 1e-9, const char *amb = nullptr, double scale = 0) {
    double mx = scale;
    for (long i = 0; i < n; i++) mx = std::max(mx, fabs(want[i]));
    if (mx > 0) triv = false;
    state(want, n * sizeof(double));
    for (long i = 0; i < n; i++) {
      if (amb && amb[i]) { ambiguous++; if (!std::isfinite(got[i])) { fail(cls, "not finite at " + std::to_string(i)); return false; } continue; }
      values++;
      if (!(fabs(got[i] - want[i]) <= rel * mx)) {
        fail(cls, "element " + std::to_string(i) + " is " + S(got[i]) + ", should be " + S(want[i]));
        return false;
      }
    }
    return true;
  }
};

inline int run(int argc, char **argv, const std::vector<Space> &spaces) {
  long sh = 0, nsh = 1, only = -1, from = 0; const char *pf = nullptr; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--shard") { sh = atol(argv[i + 1]); nsh = atol(argv[i + 2]); i += 2; }
    else if (a == "--progress") pf = argv[++i];
    else if (a == "--from") from = atol(argv[++i]);
    else if (a == "--case") only = atol(argv[++i]);
    else if (a == "--list") list = true;
  }
  Ctx c;
  c.rep = fdopen(dup(1), "w");
  if (!getenv("VP_STDOUT") && !freopen("/dev/null", "w", stdout)) return 3;
  char *prog = (char *)calloc(1, 4096);
  if (pf) { int fd = open(pf, O_RDWR); if (fd >= 0) { void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) prog = (char *)m; } }
  long base = 0;
  for (const Space &s : spaces) {
    long n = s.size();
    if (list) fprintf(c.rep, "%s: %ld cases from %ld\n", s.name.c_str(), n, base);
    for (long k = 0; k < n && !list; k++) {
      long g = base + k;
      if (only >= 0 ? g != only : (g % nsh != sh || g < from)) continue;
      Idx ix(s.dims.size());
      long q = k;
      for (size_t d = 0; d < s.dims.size(); d++) { ix[d] = q % s.dims[d].second; q /= s.dims[d].second; }
      c.space = s.name; c.gidx = g; c.triv = true; c.failed = false; c.skipped = false;
      c.desc = "case=" + std::to_string(g);
      for (size_t d = 0; d < s.dims.size(); d++) c.desc += " " + s.dims[d].first + "#" + std::to_string(ix[d]);
      *(int64_t *)prog = g;
      snprintf(prog + 8, 4000, "%s | %s", s.name.c_str(), c.desc.c_str());
      struct itimerval tv = {{0, 0}, {60, 0}};
      setitimer(ITIMER_PROF, &tv, nullptr);
      s.run(c, ix);
      if (c.skipped && !c.failed) continue;
      c.cases++; c.per[s.name]++;
      if (!c.triv) c.nontrivial++;
      if (!c.failed) c.validated++;
      if (c.cases == 1 || c.cases % 5003 == 0) c.sample(s.name + ": " + c.desc);
    }
    base += n;
  }
  std::string sm, sp;
  for (auto &x : c.samples) sm += (sm.empty() ? "\"" : ",\"") + jesc(x) + "\"";
  for (auto &x : c.per) sp += (sp.empty() ? "\"" : ",\"") + jesc(x.first) + "\":" + std::to_string(x.second);
  fprintf(c.rep, "{\"stats\":1,\"cases\":%ld,\"states\":%zu,\"steps\":%ld,\"validated\":%ld,\"calls\":%ld,\"values\":%ld,\"nontrivial\":%ld,\"ambiguous\":%ld,\"spaces\":{%s},\"samples\":[%s]}\n",
          c.cases, c.states.size(), c.steps, c.validated, c.calls, c.values, c.nontrivial, c.ambiguous, sp.c_str(), sm.c_str());
  fflush(c.rep);
  return c.nviol ? 1 : 0;
}
} // namespace en
