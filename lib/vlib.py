"""Runner shared by all checks: parallel sharded runs of the harnesses, known
findings, replay files, evidence."""
import json, os, re, subprocess, sys, time, signal, struct, mmap, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
LEVEL = "model_checking"

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.c = {}
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.assume = [], [], []
        self.exhaustive = True
        self.errors = []
        try:
            self.known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
        except FileNotFoundError:
            self.known = []
        self.known = [k for k in self.known if k["property"] == prop]
        self.hit = set()

    def add(self, **kw):
        for k, v in kw.items():
            self.c[k] = self.c.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s)

    def violation(self, key, text, replay_cmd):
        """key identifies the specific input/call site/history; text is what happened."""
        for i, k in enumerate(self.known):
            if re.search(k["match"], key):
                self.hit.add(i)
                return
        self.viol.append((key, text, replay_cmd))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"], exhaustive=bool(self.exhaustive))
        cov.update(self.c)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=LEVEL,
                  coverage=cov, assumptions=self.assume, wall_s=round(wall, 2), violations=len(self.viol))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.errors and not self.viol:
            for e in self.errors[:5]:
                print("ERROR", e)
            sys.exit(2)
        for i, k in enumerate(self.known):
            if i in self.hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.viol:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for n, (key, text, cmd) in enumerate(self.viol[:20]):
                p = os.path.join(rd, "%s-%d.sh" % (self.prop, n))
                with open(p, "w") as f:
                    f.write("#!/bin/sh\n# %s\n# %s\n%s\n" % (key.replace("\n", " "), text.replace("\n", " ")[:2000], cmd))
                os.chmod(p, 0o755)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  %s: %s" % (key[:400], text[:600]))
            sys.exit(1)
        print("OK %s %s: states=%d transitions=%d traces=%d %s wall=%.1fs" % (self.prop, self.tier, self.states, self.transitions, self.traces,
              json.dumps({k: v for k, v in self.c.items() if not isinstance(v, (list, dict))}), wall))
        sys.exit(0)

def run_proc(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, cwd=cwd, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return "timeout", o, er

def q(cmd):
    return " ".join("'%s'" % c if re.search(r"[^\w./=,:+-]", c) else c for c in cmd)

def rebuild_line(target):
    return "cd %s && python3 checks/run.py --build %s >/dev/null && " % (VERIF, target)

# ---------------------------------------------------------------- schedule exploration
def mc_build():
    exe = build.harness("mc_main", ["mc_main.cc"], "plain", with_mcrt=True, ldflags=["-Wl,--no-as-needed", "-lfftw3"])
    build.families(list(build.FAMILIES), "mc")
    build.gateways("mc")
    return exe

def run_mc(rep, fams, timeout):
    exe = mc_build()
    d = os.path.join(build.BUILD, "mc")
    def one(a):
        f, part, parts = a
        cmd = [exe, rep.prop, rep.tier, d, f, "--part", str(part), str(parts)]
        return f, cmd, run_proc(cmd, timeout)
    # interleave the parts so that the heavy families do not share a slot
    parts = 4 if rep.tier == "quick" else 16
    todo = [(f, p, parts) for p in range(parts) for f in fams]
    with ThreadPoolExecutor(build.JOBS) as ex:
        res = list(ex.map(one, todo))
    seen = set()
    for f, cmd, (rc, out, err) in res:
        base = [exe, rep.prop, rep.tier, d, f]
        cfgl = [l for l in err.splitlines() if l.startswith("@cfg ")]
        cfg = cfgl[-1].split(" ", 2) if cfgl else ["", "0", "(start)"]
        stats = None
        for l in out.splitlines():
            if not l.startswith("{"):
                continue
            j = json.loads(l)
            if "violation" in j:
                key = "family=%s: %s" % (f, j["violation"])
                if key not in seen:
                    seen.add(key)
                    rep.violation(key + " in " + j["config"], j["violation"] + " in " + j["config"] + " schedule " + j["schedule"],
                                  "cd %s && python3 checks/run.py --build mc && %s" % (VERIF, q(base + ["--cfg", str(j["cfg"]), "--schedule", j["schedule"]])))
            if "stats" in j:
                stats = j
        if stats:
            rep.states += stats["nodes"]; rep.transitions += stats["steps"]; rep.traces += stats["execs"] + stats["replays"]
            rep.add(configurations=stats["configs"], complete_schedules=stats["execs"], equivalent_schedules_pruned=stats["pruned"],
                    memory_accesses_race_checked=stats["accesses"], distinct_outcomes=stats["outcomes"])
            rep.c["max_threads"] = max(rep.c.get("max_threads", 0), stats["max_threads"])
            if stats["capped"]:
                rep.exhaustive = False
            for s in stats["samples"][:1]:
                if not any(x.startswith("family=%s " % f) for x in rep.samples):
                    rep.sample(s)
        if rc == 3:
            rep.errors.append("%s: %s" % (f, err[-600:]))
        elif rc != 0:
            die = [l for l in err.splitlines() if l.startswith("MCDIE")]
            what = die[-1][6:] if die else ("no answer within the time limit" if rc == "timeout" else "the process died with status %s" % rc)
            m = re.search(r" schedule=(\S*)", what)
            sch = m.group(1) if m else ""
            what = re.sub(r" schedule=\S*", "", what)
            key = "family=%s: %s" % (f, what)
            if key not in seen:
                seen.add(key)
                rep.violation(key + " in " + cfg[2], what + " in " + cfg[2] + " " + err[-300:], "cd %s && python3 checks/run.py --build mc && %s" % (VERIF, q(base + ["--cfg", cfg[1]] + (["--schedule", sch] if sch else []))))

# ---------------------------------------------------------------- bounded-exhaustive enumeration
def run_enum(rep, exe, args, shards=None, timeout=600, build_target="enum", env=None, tag="", tierarg=True):
    """exe ARGS... PROP TIER --shard i n --progress F ; prints JSON lines (see harness/enumr.h)."""
    shards = shards or build.JOBS
    tmp = tempfile.mkdtemp(prefix="vp_enum_")
    base = [exe] + args + [rep.prop, rep.tier]
    def one(i):
        pf = os.path.join(tmp, "p%d" % i)
        open(pf, "wb").write(b"\0" * 4096)
        skip = 0
        outs = []
        # a crash ends the shard: report it, then go on behind the crashing case (a few times)
        for attempt in range(3):
            r = run_proc(base + ["--shard", str(i), str(shards), "--progress", pf, "--from", str(skip)], timeout, env)
            d = open(pf, "rb").read()
            case, = struct.unpack("<q", d[:8])
            desc = d[8:].split(b"\0")[0].decode(errors="replace")
            outs.append((r, case, desc))
            if r[0] in (0, 1, 3):
                break
            skip = case + 1
        return outs
    with ThreadPoolExecutor(build.JOBS) as ex:
        res = list(ex.map(one, range(shards)))
    shutil.rmtree(tmp, ignore_errors=True)
    keys = set()
    got = dict(cases=0)
    for outs in res:
        for (rc, out, err), case, desc in outs:
            for l in out.splitlines():
                if not l.startswith("{"):
                    continue
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "violation" in j:
                    k = j["key"]
                    if k not in keys:
                        keys.add(k)
                        rep.violation(k, j["violation"], "cd %s && python3 checks/run.py --build %s && %s%s" % (VERIF, build_target, envs(env), q(base + ["--case", str(j["case"])])))
                elif "stats" in j:
                    got["cases"] += j["cases"]
                    rep.states += j["states"]; rep.transitions += j["steps"]; rep.traces += j["validated"]
                    pre = tag
                    rep.add(**{pre + "cases": j["cases"], pre + "calls_of_the_code": j["calls"], pre + "values_compared": j["values"],
                               pre + "nontrivial_cases": j["nontrivial"]})
                    if j.get("ambiguous"):
                        rep.add(**{pre + "values_not_compared_rounding_ties": j["ambiguous"]})
                    for n, v in j.get("spaces", {}).items():
                        rep.c.setdefault("spaces", {})
                        rep.c["spaces"][n] = rep.c["spaces"].get(n, 0) + v
                    for s in j["samples"]:
                        rep.sample(s)
            if rc == 3:
                rep.errors.append(err[-800:])
            elif rc not in (0, 1):
                san = re.findall(r"(?:ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|MemorySanitizer: [^\n]*)", err)
                what = san[0] if san else ("no answer within the time limit" if rc == "timeout" else
                        ("killed by signal %d" % -rc if isinstance(rc, int) and rc < 0 else "ended with status %s" % rc))
                what = re.sub(r"0x[0-9a-f]+", "ADDR", what)[:300]
                where = re.findall(r"#\d+ 0x\S+ in ([^\n(]+)", err)
                where = [w for w in where if "interceptor" not in w and not w.startswith("__")][:1]
                k = re.sub(r"case=\d+", "", desc.split(" | ")[0]) + ": " + what + (" in " + where[0].strip() if where else "")
                if k not in keys:
                    keys.add(k)
                    rep.violation(k, what + " at case %d: %s\n%s" % (case, desc, err[-1500:]), "cd %s && python3 checks/run.py --build %s && %s%s" % (VERIF, build_target, envs(env), q(base + ["--case", str(case)])))
    if not got["cases"] and not keys and not rep.errors and not rep.viol:
        rep.errors.append("%s ran no case" % q(base))
    return got

def envs(env):
    return "".join("%s='%s' " % kv for kv in (env or {}).items())
