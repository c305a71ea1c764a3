"""What each check runs."""
import os, re
import build, vlib
from vlib import run_mc, run_enum
CHECK, BUILD = {}, {"mc": vlib.mc_build}
ALLF = list(build.FAMILIES)

def quick(rep): return rep.tier == "quick"
MC_ASSUME = ["interleavings at every atomic access, lock, thread creation and join of the real code, up to commutation of independent operations; plain accesses are checked for races, so nothing finer can differ",
             "sequentially consistent atomics"]

def p01(rep):
    rep.assume += MC_ASSUME
    run_mc(rep, ALLF + (build.GATEWAYS if rep.prop != "P03" else []), 300 if quick(rep) else 1500)
def p02(rep):
    rep.assume += MC_ASSUME + ["the request is the write the signal handlers make, delivered once"]
    run_mc(rep, ALLF + build.GATEWAYS, 400 if quick(rep) else 3000)
CHECK.update(P01=p01, P02=p02, P03=p01, P04=p01)

# ---- numerical core against the reference models (sir_enum.cc)
SIRF = [f for f in ALLF if f not in ("das", "das_f", "fftconv_p", "rect_sir")]
def sir_build(fams=None):
    exe = build.harness("sir_enum", ["sir_enum.cc"])
    build.families(ALLF, "plain")
    return exe
BUILD["sir"] = sir_build
def run_sir(rep):
    run_enum(rep, sir_build(), [os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200, build_target="sir")
ENUM_ASSUME = ["every combination of the listed alphabets of sizes, steps, windows, positions and options; nothing is claimed for values outside them",
               "samples that hang on a rounding tie (within 1e-6 sample) are not compared; they are counted"]
def p03(rep):
    p01(rep)
    run_sir(rep)
    rep.assume += ENUM_ASSUME
def sir(rep):
    run_sir(rep)
    rep.assume += ENUM_ASSUME
CHECK.update(P03=p03, P05=sir, P06=sir, P07=sir, P08=sir, P09=sir, P10=sir, P11=sir)

def sir2_build():
    exe = build.harness("sir2_enum", ["sir2_enum.cc", os.path.join(build.REPO, "extra_src/circ_sir.cc"), os.path.join(build.REPO, "extra_src/scirc_sir.cc")], flags=build.core_flags())
    build.families(["rect_sir"], "plain")
    return exe
BUILD["sir2"] = sir2_build
def p12(rep):
    run_enum(rep, sir2_build(), [os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200, build_target="sir2")
    rep.assume += ENUM_ASSUME[:1] + ["samples within 2e-11 (relative) of a discontinuity may take either value", "the sampled response may differ by the bound of the trapezoid rule it documents"]
CHECK["P12"] = p12

# ---- Octave front ends in an embedded interpreter
def oct_build(mode="plain"):
    build.families(ALLF + list(build.EXTRA_FAMILIES), "plain")
    build.oct_modules(None, mode)
    return build.oct_harness("oct_enum", ["oct_enum.cc"], mode)
BUILD["oct"] = oct_build
BUILD["oct_asan"] = lambda: oct_build("asan")
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=1:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
def run_oct(rep, mode="plain", tag="", shards=None):
    run_enum(rep, oct_build(mode), [os.path.join(build.BUILD, "oct_" + mode), os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200,
             build_target="oct" if mode == "plain" else "oct_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag, shards=shards)
def mex_build(mode="plain"):
    build.families(ALLF + list(build.EXTRA_FAMILIES), "plain")
    build.mex_modules(mode)
    return build.mex_harness("mex_enum", ["mex_enum.cc"], mode)
BUILD["mex"] = mex_build
BUILD["mex_asan"] = lambda: mex_build("asan")
def jl_build(mode="plain"):
    build.families(ALLF + list(build.EXTRA_FAMILIES), "plain")
    build.jl_modules(mode)
    return build.jl_harness("jl_enum", ["jl_enum.cc"], mode)
BUILD["jl"] = jl_build
BUILD["jl_asan"] = lambda: jl_build("asan")
def run_jl(rep, mode="plain", tag=""):
    run_enum(rep, jl_build(mode), [os.path.join(build.BUILD, "jl_" + mode), os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200,
             build_target="jl" if mode == "plain" else "jl_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag)
def run_mex(rep, mode="plain", tag=""):
    run_enum(rep, mex_build(mode), [os.path.join(build.BUILD, "mex_" + mode), os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200,
             build_target="mex" if mode == "plain" else "mex_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag)

def octp(rep):
    run_oct(rep)
    run_oct(rep, "asan", "memory_monitored_")
    run_mex(rep, tag="matlab_")
    run_mex(rep, "asan", "matlab_memory_monitored_")
    if rep.prop == "P13":             # no other convolution functions in Julia
        run_jl(rep, tag="julia_")
        rep.assume.append(JL_ASSUME)
    rep.assume += ENUM_ASSUME[:1] + ["calls are made through an embedded Octave interpreter that loads the compiled front ends; the second pass repeats them with AddressSanitizer in the front ends", MEX_ASSUME]
CHECK.update(P13=octp, P14=octp, P15=octp)

def das_build():
    exe = build.harness("das_enum", ["das_enum.cc"])
    build.families(["das", "das_f"], "plain")
    return exe
BUILD["das"] = das_build
def p16(rep):
    run_enum(rep, das_build(), [os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200, build_target="das")
    rep.assume += ENUM_ASSUME[:1] + ["image values for which a travel time is within rounding of a sample boundary are not compared; they are counted",
                                     "sample times between -1 and 0 samples are not compared (truncation towards zero)"]
CHECK["P16"] = p16


# ---- all front ends: Octave and Python
def py_build(mode="plain"):
    build.families(ALLF, "plain")
    build.py_modules(mode)
    return build.py_harness("py_enum", ["py_enum.cc"], mode)
BUILD["py"] = py_build
BUILD["py_asan"] = lambda: py_build("asan")
def run_py(rep, mode="plain", tag=""):
    run_enum(rep, py_build(mode), [os.path.join(build.BUILD, "py_" + mode), os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200,
             build_target="py" if mode == "plain" else "py_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag)

MEX_ASSUME = "the MATLAB front ends are compiled and called against a stand-in for MATLAB's MEX interface (harness/mexrt.h); MATLAB itself is not present"
JL_ASSUME = "the Julia front ends are compiled and called against a stand-in for Julia's C interface and CxxWrap (harness/jlshim); Julia itself is not present"
FE_ASSUME = [MEX_ASSUME, JL_ASSUME, "calls are made through the compiled front ends loaded into an embedded Octave interpreter and an embedded Python interpreter; the expected result comes from the numerical core called directly (P03-P16 decide the core itself)"]
def fe(rep):
    run_oct(rep)
    run_py(rep, tag="python_")
    run_mex(rep, tag="matlab_")
    run_jl(rep, tag="julia_")
    rep.assume += ENUM_ASSUME[:1] + FE_ASSUME
def fe_asan(rep):
    fe(rep)
    run_oct(rep, "asan", "memory_monitored_")
    run_py(rep, "asan", "python_memory_monitored_")
    run_mex(rep, "asan", "matlab_memory_monitored_")
    run_jl(rep, "asan", "julia_memory_monitored_")
    rep.assume += ["the second pass repeats every call with AddressSanitizer and UBSan compiled into the front ends and the core"]
CHECK.update(P17=fe_asan, P18=fe_asan, P19=fe_asan, P20=fe)

# GPU functions: the OpenCL kernels and their host code, through the Octave front ends, on a host OpenCL runtime
def cl_build(mode="plain"):
    build.cl_modules(mode)
    return build.cl_harness("cl_enum", ["cl_enum.cc"], mode)
BUILD["cl"] = cl_build
BUILD["cl_asan"] = lambda: cl_build("asan")
def gpu(rep):
    def run(mode, tag):
        run_enum(rep, cl_build(mode), [os.path.join(build.BUILD, "octcl_" + mode), os.path.join(build.REPO, "opencl")], timeout=800 if quick(rep) else 7200,
                 build_target="cl" if mode == "plain" else "cl_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag)
    run("plain", "")
    run("asan", "memory_monitored_")
    rep.assume += ENUM_ASSUME[:1] + [
        "the kernels' source text is compiled by the host C++ compiler and executed by a host OpenCL runtime (harness/clrt.cc) that checks argument sizes, buffer bounds and the work-group rule and runs the work items in both orders; no GPU device or vendor driver is involved",
        "native_* functions are taken as exact as the host's, so accuracy of a device's native_sqrt/native_recip is not judged"]
CHECK["P21"] = gpu

# memory discipline of the numerical core
def mem_build(mode="plain"):
    build.families(ALLF, mode)
    return build.harness("mem_enum" + ("" if mode == "plain" else "_" + mode), ["mem_enum.cc", os.path.join(build.REPO, "extra_src/circ_sir.cc"), os.path.join(build.REPO, "extra_src/scirc_sir.cc")], mode, flags=build.core_flags())
BUILD["mem"] = mem_build
BUILD["mem_asan"] = lambda: mem_build("asan")
def p22(rep):
    def run(mode, tag):
        run_enum(rep, mem_build(mode), [os.path.join(build.BUILD, mode)], timeout=800 if quick(rep) else 7200,
                 build_target="mem" if mode == "plain" else "mem_asan", env=ASAN_ENV if mode == "asan" else None, tag=tag)
    run("plain", "")
    run("asan", "memory_monitored_")
    rep.assume += ENUM_ASSUME[:1] + ["reads of arguments past either end are seen by inaccessible pages, writes to arguments by write protection, reads of uninitialised memory by two runs with different fills of heap, stack and output; memory inside the library's own allocations by AddressSanitizer"]
CHECK["P22"] = p22

# a property of the core also holds through the front ends
def with_fe(core):
    def f(rep):
        core(rep)
        run_oct(rep, tag="octave_")
        if rep.prop != "P12":         # no analytic functions in Python
            run_py(rep, tag="python_")
        run_mex(rep, tag="matlab_")
        if rep.prop != "P12":
            run_jl(rep, tag="julia_")
        rep.assume += FE_ASSUME
    return f
CHECK.update({p: with_fe(CHECK[p]) for p in "P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P16".split()})
def octpy(rep):
    octp(rep)
    run_py(rep, tag="python_")
CHECK.update(P13=octpy)

# memory is given back: the core and both front ends, repeated calls with every heap block counted
def p23(rep):
    run_enum(rep, mem_build(), [os.path.join(build.BUILD, "plain")], timeout=800 if quick(rep) else 7200, build_target="mem")
    run_oct(rep, tag="octave_")
    run_py(rep, tag="python_")
    run_mex(rep, tag="matlab_")
    run_jl(rep, tag="julia_")
    rep.assume += ENUM_ASSUME[:1] + FE_ASSUME + ["heap blocks of the whole process are counted by standing in for the C allocator; growth counts as a leak when it continues, at about a block or more per call, over some 1400 identical calls"]
CHECK["P23"] = p23

# the helper functions written in the Octave language
def m_build():
    return build.oct_harness("m_enum", ["m_enum.cc"])
BUILD["m"] = m_build
def p24(rep):
    run_enum(rep, m_build(), [os.path.join(build.REPO, "m_files")], timeout=800 if quick(rep) else 7200, build_target="m")
    rep.assume += ENUM_ASSUME[:1] + ["the formula of Del Grosso (1974) is coded from its publication; pressures are the absolute ones the documentation speaks of; the printed precision of the unit factors (5 digits) is granted"]
CHECK["P24"] = p24
