#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates seeded/<id> from a spec (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)
and proves it: builds /repo with and without the patch, runs the tests and the demonstration.
  --check also runs the property's quick check against the patched tree."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
ok = True
try:
    for f, old, new, *at in spec["EDITS"]:  # a fourth entry: which of several occurrences
        p = os.path.join(R, f); s = open(p).read(); parts = s.split(old)
        assert len(parts) == 2 or at, (f, len(parts) - 1, old)
        k = at[0] + 1 if at else 1
        open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
    patch = sh("git -C /repo diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(spec["DEMO"].lstrip("\n")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in spec.get("FILES", {}).items(): open(os.path.join(d, n), "w").write(t.lstrip("\n"))
    json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    b = sh("bash /opt/vp/build.sh")
    print("build", b.returncode)
    if b.returncode: print(b.stdout[-2000:]); ok = False
    else:
        t = sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in st if x not in o["passed"]]
        print("tests missing:", miss); ok &= not miss
        r = sh("bash %s/demo.sh" % d, cwd=R); print("demo with patch ->", r.returncode, r.stdout[-300:]); ok &= r.returncode != 0
        if "--check" in sys.argv:
            for p in [spec["PROP"]] + spec.get("ALSO", []):
                c = sh("python3 checks/run.py %s quick" % p, cwd=V)
                print("check", p, "->", c.returncode, "\n".join(l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ") or l.startswith("ERROR"))[:900])
finally:
    sh("git -C /repo checkout -- .")
b = sh("bash /opt/vp/build.sh")
r = sh("bash %s/demo.sh" % d, cwd=R); print("demo clean ->", r.returncode, r.stdout[-300:]); ok &= r.returncode == 0
print("SEED", spec["ID"], "GOOD" if ok else "BAD")
