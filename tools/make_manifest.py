#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code: dynamic partial-order exploration of all thread schedules under a controlled scheduler"
ENUM = "bounded exhaustive model checking: every combination of the bounded alphabets is executed on the real code and compared with a reference model"
HIST = "bounded exhaustive model checking of call histories: every sequence up to the bound is executed in the real host and compared with a reference model"
T = {
 "P01": (SCHED, "All interleavings of up to 3 workers (reduction by commutation; every plain access race-checked) for every driver, including those of the Octave gateways; assumes sequentially consistent atomics and the interposed pthread/atomic operations are the only synchronisation."),
 "P02": (SCHED + ", the cancel request being one more thread", "All points at which one cancel request can arrive, in all interleavings within the bound; request = the write made by the signal handlers."),
 "P03": (SCHED + "; plus exhaustive window positions, levels and element subsets against a reference model", "Schedules of up to 3 workers, window positions sliding over the whole response, every subset of 4 elements early/late."),
 "P04": (SCHED + "; plus every point count x thread setting x processor count within bounds against the single-thread result", "Counts and settings up to the stated bounds."),
 "P05": (ENUM, "Alphabets of apertures, steps, windows, delays, velocities, sound speeds and positions; nothing is claimed between their values."),
 "P06": (ENUM, "As P05, over all focusing methods and focal distances."),
 "P07": (ENUM, "As P05, over positive/negative radii of curvature, including the flat limit."),
 "P08": (ENUM, "Layouts of 1 to 8 elements, all focus x steer x apodization settings, all element orders of up to 4 (5) elements."),
 "P09": (ENUM, "Seven ring layouts, every shift of every ring by -24..24 samples, all focus x apodization settings."),
 "P10": (ENUM, "Per element one-hot weights and single-cell elements measure each delay and weight on its own."),
 "P13": (ENUM, "All shapes up to 26x26 (64x64) in the core; all shape/mode/wisdom/thread combinations through the Octave front end, every sequence of 3 calls of 18 kinds; repeated with memory monitoring."),
 "P14": (ENUM, "All combinations of lengths, block lengths, shapes, modes, wisdom forms and threads through the Octave front ends; repeated with memory monitoring."),
 "P15": (ENUM, "All row and column ranges from -1 to size+1 of matrices up to 4x4 (5x5), sources of matching and non-matching size; repeated with memory monitoring."),
 "P16": (ENUM, "All methods x numbers of elements x layouts x grids x delays x media in both precisions; pixels at rounding ties are not compared."),
 "P12": (ENUM, "Alphabets of sides/radii, positions (including exactly on edges, corners and the axis), steps and delays, velocities; closed form coded independently in the harness."),
 "P11": (ENUM, "Lossy filter by direct summation of the documented spectrum; windows up to 128 samples."),
 "P17": (HIST, "Histories of up to 3 (4) calls over call kinds that differ in one argument, in Octave, Python, MATLAB and Julia (the last two on stand-in interfaces); first calls of a session in a fresh process; expected image from a freshly built core object."),
 "P18": (ENUM, "Every argument position x malformed value (wrong shape, type, length, keyword) and every argument count for every front-end function, in all four hosts (MATLAB and Julia on stand-in interfaces); also with memory monitoring."),
 "P19": (ENUM, "Every function x argument layout, class and option spelling in all four hosts (MATLAB and Julia on stand-in interfaces) against the core called directly, bit for bit; also with memory monitoring."),
 "P20": (HIST, "Every function x outcome (success, refused, out of bounds, cancelled by each signal) x previously installed handler; signal handlers, thread environment, error state and a following call are compared."),
 "P21": (ENUM, "The kernels' own source and the host code run on a host OpenCL runtime through the Octave front ends: every combination of the alphabets, histories of calls, and every single device operation of every call failing; no vendor driver or device arithmetic is judged."),
 "P23": (HIST + " (here: heap use that does not grow)", "Every function x outcome in all four hosts and every core family x option, repeated up to 1300 times; a growth that is neither on every call nor 64 bytes per call is not seen; the device runtime's objects are not counted."),
 "P24": (ENUM, "Alphabets of temperatures, pressures in every unit and spelling, salinities, shapes; element layouts, focal depths, angles and sound speeds, in the embedded Octave; plotting is not judged."),
 "P22": (ENUM, "All families x sizes down to one point/sample/cell/element/ring x window positions x options: inputs write-protected, every buffer exact next to inaccessible pages, two fills of fresh memory compared bit for bit; repeated with AddressSanitizer/UBSan."),
}
chk = []
for p, (t, n) in T.items():
    chk.append(dict(property=p, quick_cmd="python3 checks/run.py %s quick" % p, thorough_cmd="python3 checks/run.py %s thorough" % p,
                    evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n))
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason="check not built yet") for p in allp if p not in T]
m = dict(version=1, setup_cmd="python3 checks/run.py --setup", checks=chk, not_applicable=na,
         hooks=dict(guard="none", enable="No hooks: /repo is built unmodified; instrumentation is added by compiler flags (-fsanitize=thread entry points provided by harness/mcrt.cc) and link-time wrapping.", source_commits=[]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
