#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line) from the table below.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TR = ["src/dreamline.cc", "src/dreamrect.cc", "src/dreamrect_f.cc", "src/dreamcirc.cc", "src/dreamcirc_f.cc",
      "src/dreamsphere.cc", "src/dreamcylind.cc", "src/dream_arr_rect.cc", "src/dream_arr_circ.cc",
      "src/dream_arr_cylind.cc", "src/dream_arr_annu.cc", "extra_src/rect_sir.cc"]

prop("P01", "Threaded results do not depend on the thread schedule",
  "For every parallel computation the toolbox offers (all transducer and array responses, the analytic rectangular response, delay-and-sum imaging, FFT convolution), the output is bit-for-bit the output of the same computation done one observation point (or column) at a time in a single thread, whatever the interleaving of the worker threads. "
  "The workers never race on data and never deadlock, and all of them have finished when the call returns.",
  ["schedules", "configurations"],
  "every interleaving of 2-3 worker threads (and the caller) at every shared-memory synchronisation point, for every parallel function, with and without attenuation, delay per point or common",
  "The tests run each function once under whatever schedule the OS picks and check no values at all.",
  TR + ["extra_src/das.cc", "extra_src/fftconv_p.cc", "src/attenuation.cc", "include/fft.h"],
  [("contiguous split of points between threads", "start/stop computation in each top-level driver"),
   ("per-thread scratch buffers", "FFTVec/FFTCVec buffers allocated in each thread function"),
   ("atomic running flag", "running_* globals"), ("join of all threads", "end of each driver")],
  ["output matrix after the call returns", "happens-before relation of every memory access"])

prop("P02", "Cancelling stops every worker and never leaves half-written columns",
  "If a running computation is cancelled, every worker stops after at most the observation point it is working on, the call returns, and the computation is reported as cancelled. "
  "Every output column is then either exactly the completed result or untouched, and no cancellation that came before a call began or after it ended changes the result of a later call.",
  ["schedules", "fault_sequences", "histories"],
  "a cancel request delivered at every scheduling point of every interleaving of 1-3 workers, followed by a fresh call",
  "No test cancels anything.",
  TR + ["extra_src/das.cc", "extra_src/fftconv_p.cc"],
  [("running flag polled once per point", "thread functions"), ("flag re-armed at call entry", "top-level drivers / set_running in das")],
  ["is-running status after the call", "output columns"])

prop("P03", "Out-of-window reporting depends only on the error level and the input",
  "When part of a response (or a requested image sample) falls outside the time window, the call reports it: with 'ignore' and 'warn' the status is non-zero of that kind and all in-window samples are still delivered; with 'stop' the status is the out-of-bounds error; when everything fits the status is zero. "
  "This holds whichever observation points, array elements or surface cells are affected, before or after the window, for any number of threads and any schedule.",
  ["inputs", "schedules", "configurations"],
  "every subset of affected observation points x elements, before/after the window, every error level, 1-4 threads, every interleaving for small cases, every function",
  "The tests use windows where everything fits; an error status is never inspected.",
  ["src/dream_error.cc"] + TR + ["extra_src/das.cc"],
  [("status per worker combined after join", "top-level drivers"), ("status mapping", "src/dream_error.cc"),
   ("status combined over elements/annuli", "serial array functions")],
  ["returned status", "output samples"])

prop("P04", "Every point is computed exactly once for any thread count",
  "For every number of observation points (or matrix columns) and every thread-count setting, including settings larger than the machine or than the number of points, zero, one and values that are not a number (which are ignored), each point is computed by exactly one worker and the output equals the single-threaded output. "
  "The number of workers never exceeds the setting, the number of processors or the number of points, and is at least one.",
  ["configurations", "inputs"],
  "all (number of points 1..N, DREAM_NUM_THREADS unset/0/1..M, processor count 0..K) for every parallel function",
  "The tests run with the default environment and one size per function.",
  TR + ["extra_src/das.cc", "extra_src/fftconv_p.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc"],
  [("thread count clamp", "top-level drivers"), ("n*No/nthreads split", "top-level drivers")],
  ["set of columns written per worker", "number of threads created"])

prop("P05", "Flat line, rectangular and circular responses follow the Rayleigh sum",
  "The response of a strip, rectangular or circular piston is the sum over its surface cells of v*dS/(2*pi*r*dt), placed at the sample nearest to (r/c - delay)/dt, with the cell grid given by the spatial step sizes and cells whose centre lies on the aperture counted once. "
  "It is therefore linear in the velocity, shifts with the start time given commonly or per point, is symmetric in the observation point, and every sample not hit by a cell stays zero.",
  ["inputs", "configurations"],
  "all combinations of an alphabet of apertures, steps, sampling intervals, lengths, media, delays (single and per point) and observation points on, beside and far from the axis on both sides",
  "The tests plot one parameter set and assert no values.",
  ["src/dreamline.cc", "src/dreamrect.cc", "src/dreamcirc.cc"],
  [("cell loop and sample index", "serial kernels dreamrect_serial/dreamcirc_serial/dreamline_serial")],
  ["every output sample"])

prop("P06", "Focused pistons delay each cell by the documented focusing law",
  "A focused rectangular or circular piston gives the response of the flat piston in which each surface cell is advanced or retarded by the documented focusing law for the chosen method (x, y, xy, x+y) and focal distance, relative to a fixed common reference set by the aperture's side lengths, diagonal or radius, and equals the flat piston when focusing is off.",
  ["inputs", "configurations"],
  "all focusing methods x focal distances x apertures x observation points x sampling settings of the alphabet",
  "The tests plot one focal setting and assert no values.",
  ["src/dreamrect_f.cc", "src/dreamcirc_f.cc"],
  [("focusing delay per cell", "dreamrect_f_serial/dreamcirc_f_serial and their focusing helpers")],
  ["every output sample"])

prop("P07", "Curved pistons sum cells on the true concave or convex surface",
  "The response of a spherical or cylindrical piston is the Rayleigh sum over cells lying on the curved surface: concave for a positive radius of curvature, convex for a negative one, spherical cells having their projected area and cylindrical cells stepping along the arc, each at its depth on the curve. "
  "For a radius much larger than the aperture it agrees with the flat piston.",
  ["inputs", "configurations"],
  "all combinations of an alphabet of curvatures (both signs, tight to nearly flat), apertures, steps, observation points and sampling settings",
  "The tests plot one setting per sign and assert no values.",
  ["src/dreamsphere.cc", "src/dreamcylind.cc"],
  [("curved cell loops", "dreamsphere_f/_d and dreamcylind_f/_d serial kernels")],
  ["every output sample"])

prop("P08", "Array response is the weighted, delayed sum of its element responses",
  "The response of an array of rectangular, circular or cylindrical elements is the sum over elements of the single-element response at the element's position, scaled by the apodization weight and shifted by the focusing plus steering delay of that element. "
  "With focusing, steering and apodization off it is the plain sum, it does not depend on the order of the elements, and user-given delays and weights are applied to the element they belong to.",
  ["inputs", "configurations"],
  "all combinations of focusing x steering x apodization methods x element layouts (1-7 elements, on and off axis, arbitrary order) x element kinds x attenuation on/off",
  "The tests plot one combination and assert no values.",
  ["src/dream_arr_rect.cc", "src/dream_arr_circ.cc", "src/dream_arr_cylind.cc", "src/arr_functions.cc"],
  [("element loop", "dream_arr_*_serial"), ("delay/weight laws", "src/arr_functions.cc")],
  ["every output sample"])

prop("P09", "Annular array response is the delayed, weighted sum of its rings",
  "The response of an annular array is the sum over the centre disc and the rings of (outer disc response minus inner disc response), each scaled by its apodization weight and shifted by its focusing delay, whole rings being shifted together. "
  "Samples of a ring shifted out of the time window are dropped and never written outside the output, and with one disc and no focusing the result is the circular piston.",
  ["inputs", "configurations"],
  "all combinations of ring layouts (1-7 radii), focusing methods and user delays (including negative and larger than the window), apodization methods, observation points",
  "The tests plot one setting and assert no values.",
  ["src/dream_arr_annu.cc", "src/arr_functions.cc"],
  [("ring assembly", "resp_annular/superpos_annular"), ("ring delays and weights", "focusing_annular/apodization_annular")],
  ["every output sample", "memory outside the output"])

prop("P10", "Focusing, steering and apodization laws follow the manual",
  "The delay applied to an element is the documented function of its position: focusing in x, y or xy refers every element to the outermost one and never delays a more distant element more (x+y sums the two one-dimensional paths); steering is linear in position with the documented angles; and the apodization weights are the documented window functions of distance over half aperture. "
  "Delays and weights depend only on geometry and parameters, not on the medium's attenuation, the observation point or previous calls.",
  ["inputs", "configurations"],
  "all methods x parameter alphabets x element positions, measured on the public response of small-element arrays and on the apodization-window function",
  "The tests exercise a few methods visually.",
  ["src/arr_functions.cc", "oct/oct_dream_apodwin.cc"],
  [("focusing, beamsteering, apodization, distance", "src/arr_functions.cc")],
  ["sample index and amplitude of each element's contribution", "window vector"])

prop("P11", "Attenuation applies the documented lossy propagation filter",
  "With a positive attenuation coefficient each contribution at distance r is replaced by its documented frequency-dependent absorption with the matching dispersion, around the same arrival sample; with zero attenuation the result is exactly the lossless one; and the response changes continuously and stays real and finite as the coefficient grows. "
  "The stand-alone attenuation function returns the same filter that the transducer functions use.",
  ["inputs", "configurations"],
  "all combinations of coefficients (0, tiny, moderate, large), window lengths (even, odd, 1, power of two, prime), sampling intervals, distances and arrival positions including first and last sample",
  "The tests run attenuation for at most one parameter set and assert no values.",
  ["src/attenuation.cc", "oct/oct_dream_att.cc"] ,
  [("Green's function in the frequency domain", "Attenuation::att")],
  ["every output sample"])

prop("P12", "Analytic responses equal the closed-form solutions",
  "The analytic rectangular and circular responses equal the closed-form baffled-piston solutions at every sample, for observation points inside, on the edge of, and outside the shadow of the aperture, scaled by the velocity; they are symmetric under reflection of the observation point. "
  "The sampled circular response is the average of the continuous one over each sampling interval.",
  ["inputs", "configurations"],
  "all combinations of apertures, observation points in all four quadrants and all regions, media, velocities, delays (single and per point) and integration lengths",
  "No test calls these functions.",
  ["extra_src/rect_sir.cc", "extra_src/circ_sir.cc", "extra_src/scirc_sir.cc", "extra_src/oct_rect_sir.cc", "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc"],
  [("piecewise closed forms", "rect_sir_serial/circ_sir/scirc_sir")],
  ["every output sample"])

prop("P13", "FFT convolution equals direct convolution in every mode and shape",
  "Column-wise FFT convolution of a matrix with a matrix or vector equals the direct linear convolution of length M+K-1 for all lengths, including one and odd, even and prime ones; in-place mode replaces, adds to or subtracts from exactly the given output matrix. "
  "Supplying, requesting or omitting a planning string, in any order of calls, never changes the numbers beyond rounding.",
  ["inputs", "histories", "configurations"],
  "all shapes (M,K 1..N; 1..C columns; vector or matrix second argument; row or column vectors) x modes x planning-string use, and all call sequences up to a depth mixing sizes and modes",
  "The tests compare one size on a plot or run without asserting values.",
  ["extra_src/fftconv_p.cc", "extra_src/fftconv.cc", "include/fft.h", "extra_src/oct_fftconv_p.cc", "python/src/py_fftconv_p.cc"],
  [("zero-padded FFT product", "fftconv"), ("mode dispatch", "fftconv / gateways"), ("plan and wisdom handling", "include/fft.h")],
  ["every output sample", "input matrices"])

prop("P14", "Direct, overlap-add and summed convolutions give the exact result",
  "Time-domain, overlap-and-add (for every block length from one to the signal length) and summed multi-channel convolution agree with direct convolution of the same data for all shapes and in-place modes (the summed one carrying its documented 1/(M+K-1) scale). "
  "Inputs are never modified and in-place mode changes exactly the given output matrix.",
  ["inputs", "configurations"],
  "all shapes (M,K up to N, columns up to C, channels up to L), all block lengths, all in-place modes, thread counts",
  "Only the time-domain function is run by a test, without asserting values; the others are never called.",
  ["extra_src/conv.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/fftconv.cc"],
  [("direct sum", "conv"), ("block loop", "smp_dream_fftconv_ola"), ("channel sum", "add_fftconv")],
  ["every output sample", "input matrices"])

prop("P15", "Parallel copy and add touch exactly the addressed sub-matrix",
  "The in-place parallel copy (add) stores (adds) the source matrix into exactly the addressed rows and columns of the destination and leaves every other element, and the source, unchanged. "
  "Row or column ranges that do not lie inside the destination or do not match the source are refused without changing anything.",
  ["inputs", "configurations"],
  "all destination sizes up to N x N, all (also invalid) row and column ranges, all source sizes, several thread counts",
  "No test calls these functions.",
  ["extra_src/oct_copy_p.cc", "extra_src/oct_add_p.cc"],
  [("range checks", "gateways"), ("column split", "gateways")],
  ["destination and source matrices", "memory outside them"])

prop("P16", "Delay-and-sum image is the sum of samples at the travel times",
  "Each image value is the sum, over the transmit (and receive) elements, of the recorded sample (index truncated) at the double-path travel time between the elements and that point plus the system delay: transmitter and receiver identical for SAFT (delay counted on both legs), all pairs for TFM, and for row-column arrays the distance to the nearest point of the crossed electrode stripe, with columns or rows transmitting. "
  "This holds for any numbers of transmit and receive elements, in single and double precision, with common or per-point delay, and samples beyond the record never contribute.",
  ["inputs", "configurations"],
  "all element counts (square and non-square), all methods, both precisions, image points inside and outside the stripes in all four directions, delays",
  "The tests use one geometry per method with equal element counts and assert no values; some do not even run.",
  ["extra_src/das.cc", "include/das.h"],
  [("travel time and index", "das_*_serial")],
  ["every image value"])

prop("P17", "Imaging results depend only on the arguments of the current call",
  "A delay-and-sum call made through any front end returns the image of its own arguments, regardless of which calls (other sizes, methods, precisions, failed or cancelled calls) were made before it in the same session. "
  "The same holds for every transducer and convolution function.",
  ["histories"],
  "all sequences of calls up to a depth over an alphabet of calls differing in method, sizes, precision, validity and outcome, through the Octave, Python, MATLAB and Julia front ends",
  "Each test makes one or a few calls of one kind per process.",
  ["extra_src/oct_das.cc", "python/src/py_das.cc", "include/das.h"],
  [("cached computation object and change detection", "gateways / das_setup_has_changed")],
  ["returned image of each call"],
  [("cached object", "kept between calls to keep GPU buffers", "extra_src/oct_das.cc, python/src/py_das.cc")])

prop("P18", "Malformed arguments are refused with an error and nothing else",
  "Calling any front-end function with too few or too many arguments, or an argument of wrong shape, size, kind or keyword, reports an error and returns no result; the session stays usable, no memory outside the arguments is touched, and a following well-formed call gives the right answer. "
  "Well-formed arguments are never refused.",
  ["inputs", "programs", "histories"],
  "for every front-end function: every argument position x every malformed variant of an alphabet (wrong column count, wrong length, empty, wrong keyword, wrong type), every argument count, each followed by a valid call",
  "The tests only pass well-formed arguments.",
  ["include/arg_parser.h", "include/arg_parser_python.h", "oct/oct_dreamrect.cc", "python/src/py_dreamrect.cc", "extra_src/oct_das.cc", "python/src/py_das.cc", "mex/mex_dreamrect.cc", "extra_src/mex_das.cc", "include/mex_args.h", "include/arg_parser_julia.h", "julia/include/jl_das.hpp"],
  [("argument parsers", "include/arg_parser.h, include/arg_parser_python.h"), ("gateways", "oct/*.cc, python/src/*.cc, mex/*.cc, extra_src/oct_*.cc, extra_src/mex_*.cc")],
  ["error raised in the host", "following call's result"])

prop("P19", "All front ends compute exactly what the core computes",
  "For the same well-formed arguments every front-end function (Octave, Python, MATLAB, Julia) returns the matrix the numerical core computes for them, with one column per observation point and the status as an optional second output: every documented argument, keyword, default and unit reaches the computation, and arguments are never modified. ",
  ["inputs", "programs"],
  "every front-end function x an alphabet of argument tuples varying each argument separately and in pairs, including every keyword and optional argument",
  "The tests run one argument tuple per function and assert no values, never comparing front ends.",
  ["oct/oct_dreamrect.cc", "python/src/py_dreamrect.cc", "python/src/py_dream_arr_rect.cc", "mex/mex_dream_arr_rect.cc", "julia/src/jl_dream_arr_rect.cc", "include/arg_parser.h", "include/arg_parser_python.h"],
  [("argument decoding", "gateways and argument parsers")],
  ["returned matrices", "argument contents after the call"])

prop("P20", "A call leaves the host session as it found it",
  "After any front-end call, successful, refused, out of bounds or cancelled, the host process has the signal handlers and blocked signals it had before, no worker threads left over, and the same environment. "
  "An interrupt during a call cancels that call, also in a host that blocks the signal and waits for it in a thread of its own, as Octave and Julia do. "
  "In particular an interrupt after the call reaches the host's own handler.",
  ["histories", "fault_sequences"],
  "every front-end function x every outcome, all call sequences up to a depth; signal dispositions, thread count and environment observed after each call",
  "No test observes process state.",
  ["oct/oct_dreamrect.cc", "python/src/py_dreamrect.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_das.cc", "python/src/py_das.cc"],
  [("save and restore of handlers", "gateways"), ("join of threads", "drivers")],
  ["signal dispositions", "thread count", "environment"])

prop("P21", "GPU kernels compute the same numbers as the CPU code",
  "Each GPU kernel, executed for every work item, produces the result of the corresponding CPU function for the same arguments (delay-and-sum in all methods, rectangular and circular pistons, analytic rectangle), up to rounding. "
  "The uniform-grid kernels equal the general ones on the grid their limits describe. Asking for the GPU never changes the result of a call: every number of observation points works, and delays, attenuation, missing receivers and earlier calls have the same effect as on the CPU. "
  "When a device operation fails the call ends in an error that leaves the session usable; it never returns an image or response that the device did not compute.",
  ["inputs", "configurations"],
  "all bounded configurations of P05/P12/P16 restricted to what the kernels support, kernels executed on the host work item by work item",
  "No test runs a kernel; the build only checks that the host code compiles.",
  ["opencl/das_double.cl", "opencl/das_float.cl", "opencl/das_uni_double.cl", "opencl/das_uni_float.cl", "opencl/dreamrect.cl", "opencl/dreamcirc.cl", "opencl/rect_sir.cl"],
  [("kernels mirroring the CPU loops", "opencl/*.cl"), ("host code that passes the arguments", "opencl/cl_*.cc, include/das.h, include/das_uni.h"), ("device selection", "oct/oct_dreamrect.cc, extra_src/oct_das.cc")],
  ["output buffer of each kernel", "returned matrix", "error or result of a call whose device operation failed"])

prop("P22", "No computation touches memory outside its arguments",
  "For well-formed arguments of every size, the numerical core reads only the arguments it was given and writes only the output matrix, and does not depend on uninitialised memory. "
  "Inputs are bit-for-bit unchanged by the call.",
  ["inputs", "configurations"],
  "all bounded configurations of the other properties, run with every buffer allocated to its exact size under an address/undefined-behaviour monitor, plus degenerate sizes (one point, one sample, one cell, one element, one ring)",
  "The tests run unmonitored with generous sizes.",
  TR + ["src/arr_functions.cc", "extra_src/das.cc", "extra_src/fftconv_p.cc", "extra_src/fftconv.cc", "extra_src/conv.cc", "src/attenuation.cc"],
  [("index checks before every store", "serial kernels"), ("buffer sizing", "drivers")],
  ["memory monitor reports", "input buffers"])

prop("P23", "A call releases everything it allocates except its result",
  "Any call of a front-end function or of the numerical core, repeated in a session, leaves the process with no more memory in use than before, once its result is dropped: work arrays, thread handles, transform plans and wisdom strings are released. "
  "This holds for successful, refused, out-of-bounds and cancelled calls, in every mode and for every number of threads, and the transform plans belong to one call or are shared safely.",
  ["histories", "fault_sequences"],
  "every front-end function x outcome (success, each refused argument, out of bounds, cancelled), every core family x option, each repeated until the process stops growing or has grown on every one of hundreds of calls",
  "No test looks at memory use, and one call leaks too little to notice.",
  TR[:4] + ["extra_src/fftconv_p.cc", "include/fft.h", "oct/oct_dreamrect.cc", "extra_src/oct_das.cc", "extra_src/oct_conv_p.cc", "python/src/py_dreamrect.cc"],
  [("release of per-call work data", "drivers"), ("destruction of plans", "include/fft.h"), ("release on error paths", "gateways")],
  ["live heap blocks and bytes of the process"])

prop("P24", "The helper functions return the delays and sound speeds they document",
  "arr_focus_delays returns, for every set of element positions, focal depth, steering angle and sound speed, non-negative delays in microseconds that make the waves of all elements arrive at the focus at the same time (or, for a negative depth, leave as if from a virtual source behind the array), one per element. "
  "h2o_soundspeed returns the sound speed of the published formula for every temperature, salinity, pressure and pressure unit, elementwise for arrays: the same physical pressure given in another unit, spelled in any case, gives the same speed.",
  ["inputs"],
  "every combination of bounded alphabets of arguments, units, spellings and array shapes, run in Octave",
  "No test calls these functions.",
  ["m_files/arr_focus_delays.m", "m_files/h2o_soundspeed.m"],
  [("focusing law", "m_files/arr_focus_delays.m"), ("unit conversion and polynomial", "m_files/h2o_soundspeed.m")],
  ["returned values and shapes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
