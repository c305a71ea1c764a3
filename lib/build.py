"""Builds what the checks need from /repo's current working tree.

Objects are cached in /verif/build (git-ignored) keyed by flags, and are reused
only while the content of every file they were compiled from is unchanged."""
import hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DREAM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4
_hash_cache = {}
_lock = threading.Lock()

class BuildError(Exception):
    pass

def file_hash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    with _lock:
        if k in _hash_cache:
            return _hash_cache[k]
    h = hashlib.sha1(open(p, "rb").read()).hexdigest()
    with _lock:
        _hash_cache[k] = h
    return h

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def sh(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()

_cfg = {}
def octave_inc():
    if "oi" not in _cfg:
        _cfg["oi"] = sh("mkoctfile -p INCFLAGS").split()
    return _cfg["oi"]
def octave_libs():
    if "ol" not in _cfg:
        d = sh("mkoctfile -p OCTLIBDIR")
        _cfg["ol"] = (["-L" + d, "-Wl,-rpath," + d] if d else []) + ["-loctinterp", "-loctave"]
    return _cfg["ol"]
PY = "/usr/local/bin/python3" if os.path.exists("/usr/local/bin/python3") else "python3"
def python_inc():
    if "pi" not in _cfg:
        _cfg["pi"] = ["-I" + sh(PY + " -c \"import sysconfig;print(sysconfig.get_paths()['include'])\"")]
        pb = sh(PY + " -m pybind11 --includes")
        if pb:
            _cfg["pi"] += pb.split()
        else:
            for d in sh("find /usr/local /usr/lib /usr/include /opt -type d -path '*include/pybind11' 2>/dev/null | head -1").split():
                _cfg["pi"].append("-I" + os.path.dirname(d))
    return _cfg["pi"]
def python_ext():
    if "pe" not in _cfg:
        _cfg["pe"] = sh(PY + " -c \"import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))\"")
    return _cfg["pe"]

def cmake_sources(target):
    """Source list of a target of oct/ or python/CMakeLists.txt (first definition, OpenCL sources excluded)."""
    sub = {"py": "python", "me": "mex", "jl": "julia"}.get(target[:2], "oct")
    base = os.path.join(REPO, sub)
    txt = open(os.path.join(base, "CMakeLists.txt")).read()
    txt = re.sub(r"#.*", "", txt)
    m = re.search(r"set\s*\(\s*%s_SOURCE_FILES\s+([^)]*)\)" % re.escape(target), txt)
    if not m:
        m = re.search(r"add_library\s*\(\s*%s\s+MODULE\s+([^)]*)\)" % re.escape(target), txt)
    if not m:
        raise BuildError("no source list for " + target)
    return [os.path.normpath(os.path.join(base, w.strip('"'))) for w in m.group(1).split()]

def is_gateway(p):
    b = os.path.basename(p)
    return b.startswith(("oct_", "mex_", "jl_")) or b.startswith("py_") or b.startswith("cl_")

FAMILIES = {
    "line": "py_dreamline", "rect": "py_dreamrect", "rect_f": "py_dreamrect_f", "circ": "py_dreamcirc",
    "circ_f": "py_dreamcirc_f", "sphere": "py_dreamsphere", "cylind": "py_dreamcylind",
    "arr_rect": "py_dream_arr_rect", "arr_circ": "py_dream_arr_circ", "arr_cylind": "py_dream_arr_cylind",
    "arr_annu": "py_dream_arr_annu", "rect_sir": "oct_rect_sir", "das": "py_das", "das_f": "py_das",
    "fftconv_p": "py_fftconv_p",
}
EXTRA_FAMILIES = {"circ_sir": "oct_circ_sir", "scirc_sir": "oct_scirc_sir"}
# thread drivers that live in the Octave front ends
GATEWAYS = ["oct_conv_p", "oct_fftconv_p", "oct_fftconv_ola", "oct_sum_fftconv", "oct_copy_p", "oct_add_p", "oct_circ_sir", "oct_scirc_sir"]
def core_sources(fam):
    return [s for s in cmake_sources(FAMILIES.get(fam) or EXTRA_FAMILIES[fam]) if not is_gateway(s)]

MODES = {
    "plain": dict(cc=["g++"], c=["-O2", "-g1"], l=[]),
    # instrumentation hooks only: the __tsan_* entry points are provided by harness/mcrt.cc
    "mc": dict(cc=["g++"], c=["-O1", "-g1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"], l=["-Wl," + ",".join("--wrap=" + f for f in (
        "memcpy", "memset", "memmove", "fftw_execute_dft_r2c", "fftw_execute_dft_c2r", "fftw_plan_dft_r2c_1d",
        "fftw_plan_dft_c2r_1d", "fftw_destroy_plan", "_ZN6octave10__stdout__Ev"))]),
    "asan": dict(cc=["g++"], c=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,float-divide-by-zero"],
                 l=["-fsanitize=address,undefined"]),
    "tsan": dict(cc=["g++"], c=["-O1", "-g1", "-fsanitize=thread"], l=["-fsanitize=thread"]),
    "cov": dict(cc=["g++"], c=["-O0", "-g1", "--coverage"], l=["--coverage"]),
}
BASE = ["-std=gnu++17", "-fPIC", "-pthread", "-w"]

def core_flags():
    return ["-DDREAM_OCTAVE", "-I" + os.path.join(REPO, "include")] + octave_inc()
def oct_flags():
    return ["-DOCTAVE", "-DDREAM_OCTAVE", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "opencl")] + octave_inc()
def py_flags():
    return ["-DDREAM_PYTHON", "-DHAVE_FFTW", "-I" + os.path.join(REPO, "python/include"), "-I" + os.path.join(REPO, "include")] + python_inc()

def obj(src, flags, mode="plain", tag=""):
    m = MODES[mode]
    cmd = m["cc"] + BASE + m["c"] + flags
    key = hashlib.sha1((" ".join(cmd) + "|" + src + "|" + tag).encode()).hexdigest()[:20]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    dep = out + ".json"
    if os.path.exists(out) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(file_hash(p) == h for p, h in d.items()):
                return out
        except Exception:
            pass
    tmp = "%s.%d.%d.tmp.o" % (out, os.getpid(), threading.get_ident())
    rc, txt = run(cmd + ["-c", src, "-o", tmp, "-MD", "-MF", tmp + ".d"])
    if rc:
        raise BuildError("compiling %s failed:\n%s" % (src, txt[-4000:]))
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    # system headers do not change; hash the rest
    dd = {p: file_hash(p) for p in deps if not p.startswith("/usr/")}
    os.replace(tmp, out)
    os.unlink(tmp + ".d")
    json.dump(dd, open(dep + ".%d" % threading.get_ident(), "w"))
    os.replace(dep + ".%d" % threading.get_ident(), dep)
    return out

def par(fs):
    """Runs thunks in parallel, returns results in order; raises the first error."""
    with ThreadPoolExecutor(JOBS) as ex:
        return [f.result() for f in [ex.submit(g) for g in fs]]

def link(out, objs, flags, mode="plain"):
    key = hashlib.sha1((" ".join([file_hash(o) or "" for o in objs]) + "|" + " ".join(flags) + mode).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
    rc, txt = run(MODES[mode]["cc"] + ["-pthread"] + MODES[mode]["l"] + ["-o", tmp] + objs + flags)
    if rc:
        raise BuildError("linking %s failed:\n%s" % (out, txt[-4000:]))
    os.replace(tmp, out)
    open(kf, "w").write(key)
    return out

def family_so(fam, mode="plain"):
    fl = core_flags()
    objs = par([lambda s=s: obj(s, fl, mode) for s in core_sources(fam)] +
               [lambda: obj(os.path.join(HARN, "adapter.cc"), fl + ["-DFAM_" + fam, "-DFAMNAME=" + fam], mode)])
    return link(os.path.join(BUILD, mode, fam + ".so"), objs, ["-shared", "-Wl,-Bsymbolic", "-lfftw3"], mode)

def families(names, mode="plain"):
    with ThreadPoolExecutor(JOBS) as ex:
        srcs = sorted({s for n in names for s in core_sources(n)})
        fl = core_flags()
        list(ex.map(lambda s: obj(s, fl, mode), srcs))
        list(ex.map(lambda n: obj(os.path.join(HARN, "adapter.cc"), fl + ["-DFAM_" + n, "-DFAMNAME=" + n], mode), names))
    return [family_so(n, mode) for n in names]

def gateways(mode="mc"):
    fl = oct_flags()
    ad = lambda n: (os.path.join(HARN, "octgw.cc"), fl + ["-DGW_" + n[4:], "-DGWNAME=" + n[4:]])
    par([lambda s=s: obj(s, fl, mode) for s in sorted({s for n in GATEWAYS for s in cmake_sources(n)})] + [lambda n=n: obj(*ad(n)) for n in GATEWAYS])
    return par([lambda n=n: link(os.path.join(BUILD, mode, n + ".so"), [obj(s, fl, mode) for s in cmake_sources(n)] + [obj(*ad(n))],
                                 ["-shared", "-Wl,-Bsymbolic"] + octave_libs() + ["-lfftw3"], mode) for n in GATEWAYS])

def harness(name, srcs, mode="plain", flags=(), ldflags=(), with_mcrt=False):
    """Executable from /verif/harness sources (never instrumented unless mode says so)."""
    fl = list(flags) + ["-I" + HARN, "-I" + os.path.join(REPO, "include")]
    objs = par([lambda s=s: obj(s if os.path.isabs(s) else os.path.join(HARN, s), fl, mode) for s in list(srcs) + (["mcrt.cc"] if with_mcrt else [])])
    return link(os.path.join(BUILD, "bin", name), objs, ["-rdynamic", "-ldl"] + list(ldflags), mode)

def oct_gateway_objs(target, mode="plain", extra=()):
    fl = oct_flags() + list(extra)
    return par([lambda s=s: obj(s, fl, mode) for s in cmake_sources(target)])

OCT_FNS = ("add_p circ_sir conv_p copy_p das dream_apodwin dream_arr_annu dream_arr_circ dream_arr_cylind dream_arr_rect dream_att "
           "dreamcirc dreamcirc_f dreamcylind dreamline dreamrect dreamrect_f dreamsphere fftconv_ola fftconv_p rect_sir scirc_sir sum_fftconv").split()
def oct_modules(names=None, mode="plain"):
    """Builds the Octave front ends; returns the directory holding them."""
    names = list(names or OCT_FNS)
    fl = oct_flags()
    srcs = {n: cmake_sources("oct_" + n) for n in names}
    allo = sorted({s for v in srcs.values() for s in v})
    par([lambda s=s: obj(s, fl, mode) for s in allo])
    d = os.path.join(BUILD, "oct_" + mode)
    par([lambda n=n: link(os.path.join(d, n + ".oct"), [obj(s, fl, mode) for s in srcs[n]], ["-shared"] + octave_libs() + ["-lfftw3"], mode) for n in names])
    return d

def oct_harness(name, srcs, mode="plain"):
    return harness(name + ("" if mode == "plain" else "_" + mode), srcs, mode, flags=core_flags(), ldflags=octave_libs())

SHIM = lambda d: os.path.join(VERIF, "harness", d)
MEX_FNS = ["dreamline", "dreamrect", "dreamrect_f", "dreamcirc", "dreamcirc_f", "dreamsphere", "dreamcylind", "dream_arr_rect", "dream_arr_circ", "dream_arr_cylind",
           "dream_arr_annu", "dream_apodwin", "dream_att", "circ_sir", "scirc_sir", "rect_sir", "das", "conv_p", "fftconv_p", "sum_fftconv", "fftconv_ola", "copy_p"]
def mex_modules(mode="plain"):
    """Builds the MATLAB front ends against the stand-in interface; returns the directory holding them."""
    fl = ["-DDREAM_MATLAB", "-DHAVE_FFTW", "-I" + SHIM("mexshim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "opencl")]
    srcs = {n: cmake_sources("mex_" + n) for n in MEX_FNS}
    par([lambda s=s: obj(s, fl, mode) for s in sorted({s for v in srcs.values() for s in v})])
    d = os.path.join(BUILD, "mex_" + mode)
    par([lambda n=n: link(os.path.join(d, n + ".mex"), [obj(s, fl, mode) for s in srcs[n]], ["-shared", "-lfftw3"], mode) for n in MEX_FNS])
    return d
JL_FNS = ["dreamline", "dreamrect", "dreamrect_f", "dreamcirc", "dreamcirc_f", "dreamsphere", "dreamcylind", "dream_arr_rect", "dream_arr_circ", "dream_arr_cylind",
          "dream_arr_annu", "conv_p", "fftconv_p", "das", "das_f"]
def jl_modules(mode="plain"):
    """Builds the Julia front ends against the stand-in interface; returns the directory holding them."""
    fl = lambda n: ["-DDREAM_JULIA", "-DHAVE_FFTW", "-I" + SHIM("jlshim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "julia", "include"), "-I" + os.path.join(REPO, "opencl")] + (["-DUSE_FLOAT"] if n == "das_f" else [])
    srcs = {n: cmake_sources("jl_" + n) for n in JL_FNS}
    par([lambda s=s, f=f: obj(s, list(f), mode) for s, f in sorted({(s, tuple(fl(n))) for n, v in srcs.items() for s in v})])
    d = os.path.join(BUILD, "jl_" + mode)
    par([lambda n=n: link(os.path.join(d, n + ".jlm"), [obj(s, fl(n), mode) for s in srcs[n]], ["-shared", "-lfftw3"], mode) for n in JL_FNS])
    return d
def jl_harness(name, srcs, mode="plain"):
    return harness(name + ("" if mode == "plain" else "_" + mode), srcs, mode, flags=["-I" + SHIM("jlshim")] + core_flags(), ldflags=["-rdynamic"])
def mex_harness(name, srcs, mode="plain"):
    return harness(name + ("" if mode == "plain" else "_" + mode), srcs, mode, flags=["-I" + SHIM("mexshim")] + core_flags(), ldflags=["-rdynamic"])

def py_module(target, modname, mode="plain", extra=()):
    fl = py_flags() + list(extra)
    objs = par([lambda s=s: obj(s, fl, mode) for s in cmake_sources(target)])
    return link(os.path.join(BUILD, "py_" + mode, modname + python_ext()), objs, ["-shared", "-lfftw3"], mode)

PY_MODS = dict(dreamline="py_dreamline", dreamrect="py_dreamrect", dreamrect_f="py_dreamrect_f", dreamcirc="py_dreamcirc", dreamcirc_f="py_dreamcirc_f",
               dreamsphere="py_dreamsphere", dreamcylind="py_dreamcylind", dream_arr_rect="py_dream_arr_rect", dream_arr_circ="py_dream_arr_circ",
               dream_arr_cylind="py_dream_arr_cylind", dream_arr_annu="py_dream_arr_annu", fftconv_p="py_fftconv_p", das="py_das", das_f="py_das_f")
def py_modules(mode="plain"):
    """Builds the Python front ends; returns the directory holding them."""
    ex = lambda m: ["-DUSE_FLOAT"] if m == "das_f" else []
    par([lambda s=s, m=m: obj(s, py_flags() + ex(m), mode) for m, t in PY_MODS.items() for s in cmake_sources(t)])
    par([lambda m=m, t=t: py_module(t, m, mode, ex(m)) for m, t in PY_MODS.items()])
    return os.path.join(BUILD, "py_" + mode)

def py_harness(name, srcs, mode="plain"):
    v = sh(PY + " -c \"import sysconfig;print(sysconfig.get_config_var('LDVERSION'))\"")
    d = sh(PY + " -c \"import sysconfig;print(sysconfig.get_config_var('LIBDIR'))\"")
    return harness(name + ("" if mode == "plain" else "_" + mode), srcs, mode, flags=python_inc() + ["-fvisibility=hidden", "-Wno-attributes"], ldflags=["-L" + d, "-Wl,-rpath," + d, "-lpython" + v])

# ---- OpenCL: the kernels compiled for the host, the host code linked to harness/clrt.cc
def write_if_changed(p, txt):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return p
def cl_files():
    d = os.path.join(REPO, "opencl")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cl"))
def cl_generate():
    """The kernel texts as C arrays (what the build makes with xxd) and one C++ file per kernel file."""
    d = os.path.join(BUILD, "clgen")
    srcs = []
    for f in cl_files():
        b = os.path.basename(f)
        raw = open(f, "rb").read()
        var = "__" + b.replace(".", "_")
        write_if_changed(os.path.join(d, b + ".h"), "unsigned char %s[] = {%s};\nunsigned int %s_len = %d;\n" % (var, ",".join(map(str, raw)), var, len(raw)))
        code = re.sub(r"/\*.*?\*/", " ", raw.decode("utf-8", "replace"), flags=re.S)
        code = re.sub(r"//[^\n]*", "", code)
        names = re.findall(r"\b(?:__)?kernel\s+(?:__attribute__\s*\(\(.*?\)\)\s*)?void\s+(?:__attribute__\s*\(\(.*?\)\)\s*)?(\w+)\s*\(", code)
        if not names:
            raise BuildError("no kernel in " + f)
        stem = b[:-3]
        t = '#include "clshim.h"\nnamespace ktext {\n#include "%s.h"\n}\nnamespace clk_%s { using namespace clb;\n#include "%s"\n' % (os.path.join(d, b), stem, f)
        t += 'static struct S { S() { clrt::sources().push_back({"%s", ktext::%s, ktext::%s_len}); } } s_;\n' % (stem, var, var)
        for n in names:
            t += 'static clrt::Reg r_%s(clrt::describe(&%s, "%s", "%s"), [](void **a) { clrt::invoke(&%s, a); });\n' % (n, n, stem, n, n)
        srcs.append(write_if_changed(os.path.join(d, "clk_%s.cc" % stem), t + "}\n"))
    return srcs
CL_FNS = ["dreamrect", "dreamcirc", "rect_sir", "das", "das_uni"]
def cl_sources(fn):
    s = cmake_sources("oct_" + fn)
    txt = re.sub(r"#.*", "", open(os.path.join(REPO, "oct/CMakeLists.txt")).read())
    m = re.search(r"set\s*\(\s*oct_%s_SOURCE_FILES\s+\$\{oct_%s_SOURCE_FILES\}\s+([^)]*)\)" % (fn, fn), txt)
    if m:
        s += [os.path.normpath(os.path.join(REPO, "oct", w.strip('"'))) for w in m.group(1).split()]
    return s
def cl_flags():
    return ["-DUSE_OPENCL", "-I" + os.path.join(BUILD, "clgen")] + [f for f in oct_flags() if not f.endswith("/opencl")]
def cl_modules(mode="plain"):
    cl_generate()
    fl = cl_flags()
    par([lambda s=s: obj(s, fl, mode) for s in sorted({s for n in CL_FNS for s in cl_sources(n)})])
    d = os.path.join(BUILD, "octcl_" + mode)
    par([lambda n=n: link(os.path.join(d, n + ".oct"), [obj(s, fl, mode) for s in cl_sources(n)], ["-shared"] + octave_libs(), mode) for n in CL_FNS])
    return d
def cl_harness(name, srcs, mode="plain"):
    return harness(name + ("" if mode == "plain" else "_" + mode), list(srcs) + ["clrt.cc"] + cl_generate(), mode, flags=core_flags() + ["-DCL_TARGET_OPENCL_VERSION=120"], ldflags=octave_libs())
