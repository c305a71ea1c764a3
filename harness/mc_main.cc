// Exhaustive schedule exploration of one family (P01-P04).
//   mc_main PROP TIER DIR FAMILY [--cfg N --schedule a,b,c]
#include <algorithm>
#include <set>
#include <sstream>
#include <unistd.h>
#include "jobs.h"
#include "mcrt.h"

using std::string; using std::vector;
static string prop, tier, fam; static Driver *drv;
static bool thorough() { return tier == "thorough"; }

struct Cfg {
  long No; int hw; string env; bool alpha, multi; int err; vector<int> where; int variant; bool cancel; int bound; string note; long nt = 16;
  string str() const {
    std::ostringstream o;
    o << "family=" << fam << " points=" << No << " processors=" << hw << " DREAM_NUM_THREADS=" << (env.empty() ? "unset" : env) << " attenuation=" << alpha
      << " delay=" << (multi ? "per-point" : "common") << " err_level=" << err << " where=[";
    for (int w : where) o << w;
    o << "] variant=" << variant << (cancel ? " cancel" : "") << " preemptions=" << (bound < 0 ? string("unbounded") : std::to_string(bound));
    return o.str();
  }
};

static vector<Cfg> configs() {
  vector<Cfg> v;
  bool gw = fam.compare(0, 4, "oct_") == 0, conv = fam == "fftconv_p" || gw, das = fam.substr(0, 3) == "das", sir = fam == "rect_sir";
  bool hasatt = !conv && !das && !sir;
  int nvar = das ? 4 : 2;
  if (prop == "P01") {
    for (int va = 0; va < nvar; va++) for (int al = 0; al <= (hasatt ? 1 : 0); al++) for (int mu = 0; mu < 2; mu++)
      for (long No = 2; No <= (thorough() ? 7 : 5); No++) for (int hw = 2; hw <= (thorough() ? 6 : 4); hw++)
        v.push_back({No, hw, "", al != 0, mu != 0, 1, {}, va, false, -1, "all in window"});
    // out-of-window points with each level: the shared state the workers do touch
    if (!conv && !sir) for (int e = 1; e <= 2; e++) for (int m = 1; m < 8; m++)
      v.push_back({3, 2, "", false, false, e, {m & 1, (m >> 1) & 1, (m >> 2) & 1}, 0, false, -1, "some out of window"});
  } else if (prop == "P02") {
    for (int va = 0; va < nvar; va++) for (int al = 0; al <= (hasatt && (thorough() || va == 0) ? 1 : 0); al++) for (int mu = 0; mu < (thorough() ? 2 : 1); mu++)
      for (auto p : vector<std::pair<long, int>>{{1, 1}, {3, 1}, {2, 2}, {3, 2}, {4, 2}, {3, 3}, {5, 2}, {4, 3}}) {
        if (!thorough() && p.first * p.second > 9) continue;
        v.push_back({p.first, p.second, "", al != 0, mu != 0, 1, {}, va, true, -1, "cancelled"});
      }
    if (!conv && !sir) for (int m = 1; m < 8; m++)   // cancellation racing an out-of-window stop
      v.push_back({3, 2, "", false, false, 3, {m & 1, (m >> 1) & 1, (m >> 2) & 1}, 0, true, -1, "cancelled while stopping"});
  } else if (prop == "P03") {
    if (conv || sir) return v;
    for (int va = 0; va < nvar; va++) for (int al = 0; al <= (hasatt && va == 0 ? 1 : 0); al++) for (int e = 1; e <= 4; e++)
      for (long No = 1; No <= (thorough() ? 4 : 3); No++) {
        int tot = 1; for (int i = 0; i < No; i++) tot *= 3;
        for (int m = 0; m < tot; m++) {
          vector<int> w; int q = m; bool early = false; for (int i = 0; i < No; i++) { w.push_back(q % 3); early |= q % 3 == 2; q /= 3; }
          if (das && early && No < 2 && false) continue;
          for (int hw = 1; hw <= std::min<long>(No, thorough() ? 3 : 2) + (thorough() && No == 3 ? 0 : 0); hw++)
            v.push_back({No, hw, "", al != 0, das, e, w, va, false, -1, "out-of-window pattern"});
        }
      }
  } else {
    vector<string> envs = {"", "0", "1", "2", "3", "5", "8", "64"};
    for (const char *e : {"(empty)", "many", " ", "-2", "99999999999999999999", "4294967296"}) envs.push_back(e); // not a usable number: the call works all the same
    if (thorough()) { envs.push_back("4"); envs.push_back("1000000"); envs.push_back("7"); }
    for (const string &e : envs) for (int hw : vector<int>{1, 2, 3, 5, 8}) for (long No = gw ? 1 : 0; No <= (thorough() ? 17 : 9); No++)
      for (int va = 0; va < (thorough() ? nvar : 1); va++) v.push_back({No, hw, e, false, va == 0, 1, {}, va, false, -1, "thread counts", 12});
    if (thorough()) for (const string &e : envs) for (int hw : {2, 3, 8}) for (long No : {1, 2, 3, 4, 5, 6}) v.push_back({No, hw, e, hasatt, false, 1, {}, 1, false, -1, "thread counts", 12});
    // attenuation + cancelled earlier call must not change the split
  }
  return v;
}

struct Prepared {
  JobBuf job; vector<vector<char>> ref; vector<char> outv; char *out; vector<int> oob; int expect; long nwork;
};

static void *zeroed(Prepared &p) { std::fill(p.out, p.out + p.job.outbytes(), 0); return p.out; }

static bool prepare(const Cfg &c, Prepared &p) {
  p.job = small_job(fam, c.No, c.alpha, c.multi, c.err, c.where, c.variant, c.nt);
  if (c.cancel && p.job.is_arr()) {                   // arrays also poll between elements: two are enough
    JobBuf &b = p.job; b.j.num_elements = 2; b.G = {-0.7, 0.6, -0.2, 0.1, 0, -0.1};
    if (b.j.foc_met == ref::F_UD) b.focal = {0.05, 0.12};
    b.apod = {0.5, 0.25};
  }
  p.job.bind();
  unsetenv("DREAM_NUM_THREADS"); mc::set_hw_concurrency(1);   // the reference: each point alone, in one thread
  long cb = p.job.colbytes();
  p.outv.assign(p.job.outbytes() + 16, 0);
  p.out = (char *)drv->out(p.job.rows(), p.job.cols());
  if (!p.out) p.out = p.outv.data();
  p.ref.assign(c.No, {});
  p.oob.assign(c.No, 0);
  bool any = false;
  for (long n = 0; n < c.No; n++) {
    JobBuf s = p.job.single(n);
    if (p.job.is_das()) {
      ref::Pix q = fam == "das" ? ref::das_pixel<double>(p.job.j, n, 1e-9) : ref::das_pixel<float>(p.job.j, n, 1e-4);
      p.oob[n] = q.oob;
    } else if (!p.job.is_conv() && fam != "rect_sir" && !p.job.is_gw()) {
      ref::Col k = ref::column(fam, p.job.j, n);
      if (k.oob_amb || k.grid_amb) { fprintf(stderr, "harness error: ambiguous configuration %s\n", c.str().c_str()); return false; }
      p.oob[n] = k.oob;
    }
    any |= p.oob[n];
    s.j.err_level = 1;                              // never stop: full single-thread result
    vector<char> h(cb + 16, 0);
    s.run(drv, h.data());
    h.resize(cb);
    p.ref[n] = h;
  }
  if (c.env.empty()) unsetenv("DREAM_NUM_THREADS"); else setenv("DREAM_NUM_THREADS", c.env == "(empty)" ? "" : c.env.c_str(), 1);
  mc::set_hw_concurrency(c.hw);
  p.expect = !any ? 0 : c.err == 1 ? 1 : c.err == 2 ? 2 : 3;
  if (p.job.is_gw()) for (auto &r : p.ref) if (r.size() && std::all_of(r.begin(), r.end(), [](char q) { return !q; })) { fprintf(stderr, "harness error: all-zero reference %s\n", c.str().c_str()); return false; }
  long t = c.hw;
  char *end = nullptr; errno = 0;
  long te = strtol(c.env.c_str(), &end, 10);
  if (end != c.env.c_str() && !errno) t = std::min<long>(t, te); // anything else does not limit the number of workers
  p.nwork = std::max<long>(1, std::min<long>(t, c.No));
  return true;
}

enum { UNTOUCHED, COMPLETE, OTHER };
static int colstate(const Prepared &p, long n) {
  long cb = p.job.colbytes();
  const char *q = p.out + n * cb;
  if (!memcmp(q, p.ref[n].data(), cb)) return COMPLETE;
  for (long i = 0; i < cb; i++) if (q[i]) return OTHER;
  return UNTOUCHED;
}
static string S(long x) { return std::to_string(x); }

static string body(const Cfg &c, Prepared &p, string &outcome) {
  long cb = p.job.colbytes();
  void *out = zeroed(p);
  vector<char> in0; // inputs are compared in P22
  mc::watch(out, cb, (int)c.No);
  bool returned = false, begun = false, aborted = false; vector<int> snap(c.No, UNTOUCHED);
  mc::EnvThread *env = nullptr;
  if (c.cancel)
    env = mc::env_start([&]() {
      bool heard = drv->abort();
      aborted = true;
      if (drv->gateway()) {                            // it must answer when a worker was still at work
        begun = heard && !returned && mc::live_workers() > 0;
        for (long n = 0; n < c.No; n++) snap[n] = colstate(p, n);
      } else if (!returned) {
        begun = mc::threads_created() > 0;
        for (long n = 0; n < c.No; n++) { snap[n] = colstate(p, n); if (mc::watch_mask((int)n)) begun = true; }
      } else for (long n = 0; n < c.No; n++) snap[n] = colstate(p, n);
    });
  int err = 0; bool threw = false;
  try { err = p.job.run(drv, out); } catch (const std::exception &) { threw = true; } // kills an Octave session
  returned = true;
  int made = mc::threads_created();
  bool cancelled_at_return = false;
  if (c.cancel) {
    cancelled_at_return = begun;                       // the request reached the call while it was running
    mc::env_join(env);
  }
  bool running = drv->is_running();
  std::ostringstream oc;
  oc << err << (running ? "r" : "s");
  string v;
  long cap = p.nwork == 1 ? 1 : p.nwork;
  if (made > cap) v = "started " + S(made) + " workers where at most " + S(cap) + " may run";
  if (threw) v = "the call ends in a C++ exception";
  bool stopping = p.expect == 3;
  std::map<int, int> late;
  for (long n = 0; n < c.No && v.empty(); n++) {
    int st = colstate(p, n);
    oc << "UCX"[st];
    unsigned m = mc::watch_mask((int)n);
    if (m & (m - 1)) v = "column " + S(n) + " was written by more than one thread";
    if (p.oob[n] && stopping) continue;                // contents unspecified once the call stops with an error
    if (st == OTHER) v = "column " + S(n) + " differs from the same point computed alone in one thread";
    if (st == UNTOUCHED && !c.cancel && !stopping && !p.oob[n]) v = "column " + S(n) + " was not computed";
    if (cancelled_at_return && st == COMPLETE && snap[n] != COMPLETE && m) { int t = __builtin_ctz(m); if (++late[t] > 1) v = "a worker computed " + S(late[t]) + " points after the cancel request"; }
  }
  if (v.empty() && prop == "P03" && err != p.expect) v = "status " + S(err) + " where " + S(p.expect) + " is due";
  if (v.empty() && c.cancel && !stopping && err != 0) v = "status " + S(err) + " from a cancelled call with everything in the window";
  if (v.empty() && c.cancel && cancelled_at_return && running) v = "a cancel request was swallowed: the call is reported as completed";
  if (v.empty() && c.cancel && running && !stopping) for (long n = 0; n < c.No; n++) if (colstate(p, n) != COMPLETE && !p.oob[n]) v = "incomplete column " + S(n) + " in a call reported as completed";
  if (v.empty() && !c.cancel && !running && !stopping) v = "the call is reported as cancelled though nobody cancelled it";
  if (v.empty() && !c.cancel && running && stopping) v = "an out-of-bounds stop is not reported as stopped";
  if (v.empty() && c.cancel && c.err != 3) {             // a later call is unaffected
    zeroed(p);
    int e2 = p.job.run(drv, out);
    if (e2 != p.expect) v = "status " + S(e2) + " from the call after a cancelled one";
    for (long n = 0; n < c.No && v.empty(); n++) if (colstate(p, n) != COMPLETE && !p.oob[n]) v = "the call after a cancelled one does not compute column " + S(n);
    if (v.empty() && !drv->is_running()) v = "the call after a cancelled one is reported as cancelled";
  }
  outcome = oc.str();
  return v;
}

static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  prop = argv[1]; tier = argv[2]; fam = argv[4];
  drv = load_family(argv[3], fam);
  // the code under test reports on stdout; keep our own channel
  FILE *rep = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  long only = -1, part = 0, parts = 1; vector<int> sched;
  for (int i = 5; i < argc; i++) {
    string a = argv[i];
    if (a == "--cfg") only = atol(argv[++i]);
    if (a == "--part") { part = atol(argv[++i]); parts = atol(argv[++i]); }
    if (a == "--schedule") { std::stringstream ss(argv[++i]); string t; while (std::getline(ss, t, ',')) if (!t.empty()) sched.push_back(atoi(t.c_str())); }
  }
  vector<Cfg> cs = configs();
  if (fam.find("fftconv") != string::npos) {         // the FFTW planner measures: plan every length once, before any exploration
    mc::set_hw_concurrency(1);
    for (const Cfg &c : cs) if (c.No) { JobBuf b = small_job(fam, c.No, false, c.multi, 1, {}, c.variant, c.nt); vector<double> o(b.outbytes() / 8 + 2); if (b.is_gw()) b = b.single(0); b.run(drv, o.data()); }
  }
  long execs = 0, pruned = 0, steps = 0, acc = 0, ncfg = 0, nout = 0, replays = 0, nodes = 0; int maxt = 0; bool capped = false;
  std::set<string> samples; string firstsample;
  for (long ci = 0; ci < (long)cs.size(); ci++) {
    if (only >= 0 ? ci != only : ci % parts != part) continue;
    const Cfg &c = cs[ci];
    Prepared p;
    fprintf(stderr, "@cfg %ld %s\n", ci, c.str().c_str());
    if (!prepare(c, p)) return 3;
    mc::Options o; o.preempt_bound = c.bound; o.max_execs = prop == "P04" ? (thorough() ? 60 : 3) : thorough() ? 400000 : 60000;
    auto f = [&](string &oc) { return body(c, p, oc); };
    if (only >= 0 && !sched.empty()) {
      string oc; string v = mc::replay(f, sched, oc, o);
      fprintf(rep, "{\"replay\":\"%s\",\"outcome\":\"%s\"}\n", jesc(v).c_str(), jesc(oc).c_str());
      return v.empty() ? 0 : 1;
    }
    mc::Result r = mc::explore(f, o);
    execs += r.execs; pruned += r.pruned; steps += r.steps; acc += r.accesses; ncfg++; nout += r.outcomes.size(); maxt = std::max(maxt, r.max_threads); nodes += r.nodes; capped |= r.capped && prop != "P04";
    if (samples.size() < 3 && (r.execs > 1 || ci == 0 || ci + 1 == (long)cs.size())) {
      string ocs; for (auto &x : r.outcomes) { ocs += x + " "; if (ocs.size() > 80) break; }
      samples.insert(c.str() + ": " + S(r.execs) + " schedules, outcomes " + ocs);
    }
    if (!r.violation.empty()) {
      string oc; string v2 = mc::replay(f, r.schedule, oc, o); replays++;
      string sc; for (int t : r.schedule) sc += S(t) + ",";
      fprintf(rep, "{\"violation\":\"%s\",\"config\":\"%s\",\"cfg\":%ld,\"schedule\":\"%s\",\"replayed\":\"%s\"}\n", jesc(r.violation).c_str(), jesc(c.str()).c_str(), ci, sc.c_str(), jesc(v2).c_str());
      fflush(rep);
      if (r.violation.find("harness error") != string::npos) return 3;
      break;
    }
    // determinism of the controlled execution: replay the empty deviation twice
    if (only < 0 && (ci / parts % 16) == 0) {
      string o1, o2; mc::replay(f, {}, o1, o); mc::replay(f, {}, o2, o); replays += 2;
      if (o1 != o2) { fprintf(rep, "{\"violation\":\"two runs of one schedule differ: %s / %s\",\"config\":\"%s\",\"cfg\":%ld,\"schedule\":\"\"}\n", o1.c_str(), o2.c_str(), jesc(c.str()).c_str(), ci); break; }
    }
  }
  string sm; for (auto &s : samples) { if (!sm.empty()) sm += ","; sm += "\"" + jesc(s) + "\""; }
  fprintf(rep, "{\"stats\":1,\"family\":\"%s\",\"configs\":%ld,\"execs\":%ld,\"pruned\":%ld,\"steps\":%ld,\"nodes\":%ld,\"accesses\":%ld,\"outcomes\":%ld,\"max_threads\":%d,\"replays\":%ld,\"capped\":%s,\"samples\":[%s]}\n",
          fam.c_str(), ncfg, execs, pruned, steps, nodes, acc, nout, maxt, replays, capped ? "true" : "false", sm.c_str());
  fflush(rep);
  return 0;
}
