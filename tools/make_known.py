#!/usr/bin/env python3
"""Writes known_findings.json: the repairs made to /repo (commit ids looked up by
subject) and the genuine defects recorded but not repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBJ = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    SUBJ[s] = h
FIXED = [
 ("P03", "fix: report out-of-window status when a single worker thread is used", "with one worker the status of every transducer and of delay-and-sum was lost: an out-of-window response returned 'none'"),
 ("P03", "fix: spherical transducer drops the warn/ignore out-of-window status", "dreamsphere returned status none for 'warn' and 'ignore'"),
 ("P03", "fix: arrays lose the out-of-window status of all but the last element", "arrays kept only the status of the last element"),
 ("P09", "fix: annular rings are shifted one sample too far and may be written out of bounds", "delays between half a sample and one sample moved the ring too far; a ring shifted before the window was written at h[-1]"),
 ("P09", "fix: annular array ignores the hann and hamming apodization", "hann and hamming weights were not applied by the annular array (also P10)"),
 ("P10", "fix: apodization of an array with all elements in the center is NaN", "0/0 in the normalised radius of a single centred element"),
 ("P16", "fix: row-column delay-and-sum mixes up the number of rows and columns", "row-column imaging with different numbers of transmit and receive elements read the wrong geometry"),
 ("P12", "fix: rect_sir uses the wrong side of one sub-rectangle inside the aperture", "rect_sir inside the aperture with a != b"),
 ("P12", "fix: rect_sir ignores the normal velocity", "v was not applied"),
 ("P12", "fix: analytic responses are NaN at samples on the arrival of an edge", "acos/asin argument above 1 by rounding"),
 ("P12", "fix: scirc_sir is non-zero before the time of emission in the aperture plane", "negative times in the averaged response"),
 ("P13", "fix: convolution results with a single element are lost", "1x1 results were narrowed to a copy and lost (use after free) in fftconv_p, conv_p, fftconv_ola, sum_fftconv"),
 ("P14", "fix: in-place operations on a temporary matrix write to freed memory", "in-place output given as scalar or temporary (also P15, P18)"),
 ("P14", "fix: fftconv_ola uses the wrong columns of A when B is a vector", "fftconv_ola with a vector B used wrong columns"),
 ("P18", "fix: fftconv_ola never returns for a zero block length", "block_len = 0 looped for ever"),
 ("P14", "fix: wrong in-place results from fftconv_ola", "in-place modes of fftconv_ola added/replaced overlapping blocks wrongly"),
 ("P13", "fix: in-place mode ignored when a wisdom string is also given", "'+=' and '-=' with a wisdom string replaced the output (also P14)"),
 ("P14", "fix: sum_fftconv with one-sample input signals", "sum_fftconv with one-sample signals"),
 ("P14", "fix: sum_fftconv adds to the output in in-place mode", "in-place sum_fftconv added to what the output held"),
 ("P18", "fix: conv_p silently ignores a 4th argument that is not a string", "conv_p(A,B,C,non-string) was accepted and did nothing"),
 ("P15", "fix: copy_p and add_p read and write outside the matrices", "column split of the last worker"),
 ("P15", "fix: copy_p and add_p accept row and column ranges outside the matrix", "ranges with zero/negative indices"),
 ("P20", "fix: convolution functions leave their signal handlers installed", "handlers stayed installed after refused calls"),
 ("P20", "fix: transducer and imaging functions leave their signal handlers installed", "handlers stayed installed after refused or failing calls of the transducer, array, analytic and imaging front ends"),
]
FIXED += [
 ("P19", "fix: arguments that are not full double matrices are read after they are freed", "single, integer, sparse and range arguments of the Octave functions gave garbage"),
 ("P18", "fix: argument checks accept delay and annular array arguments of the wrong shape", "delay and ring matrices were accepted"),
 ("P19", "fix: das reads arguments that are not full matrices after they are freed", "range, sparse and scalar arguments of das"),
 ("P17", "fix: single precision das marks the (not existing) double precision object as running", "the first single-precision das call of a session crashed"),
 ("P19", "fix: das ignores the compute device when the verbose argument is also given", "das(...,'gpu','on')"),
 ("P18", "fix: das reads outside the data matrix when it has too few A-scans", "Y with too few columns was accepted"),
 ("P19", "fix: Python front ends read outside the shape of one-dimensional arrays", "1-D arrays (also P18)"),
 ("P19", "fix: Python annular array ignores all radii but the first of a row vector", "radii given as a row"),
 ("P19", "fix: Python array functions ignore the apodization window parameter", "win_par had no effect in Python"),
 ("P18", "fix: Python das accepts unknown compute devices", "device='nope'"),
 ("P19", "fix: misspelled verbose keyword argument of the Python das", "verbose= was rejected"),
 ("P20", "fix: Python das leaves its signal handler installed", "SIGABRT handler stayed installed"),
 ("P10", "fix: dream_apodwin without apodization and with user defined weights", "'off' and 'ud' of dream_apodwin (also P19)"),
 ("P19", "fix: Python annular array wants one user defined delay and weight per radius instead of per ring", "'ud' focusing and apodization of the Python annular array"),
 ("P20", "fix: restoring a signal handler loses the flags it was installed with", "sa_flags and mask were lost"),
 ("P20", "fix: restoring a signal handler in the convolution functions loses its flags", "sa_flags and mask were lost in the convolution, copy and circular SIR functions; errors left the handlers installed"),
 ("P18", "fix: Python front ends accept three-dimensional arrays and ignore the rest of the data", "3-D arrays"),
 ("P18", "fix: Octave front ends accept unknown compute devices", "device 'nope' in Octave"),
 ("P20", "fix: cancelled analytic response calls return an unfinished result", "circ_sir, scirc_sir and rect_sir returned partly written matrices after a signal"),
 ("P21", "fix: GPU calls fail when the number of points is not a multiple of 64", "the fixed work-group size made the kernel launch fail for most numbers of points and uninitialised memory was returned"),
 ("P21", "fix: failing OpenCL calls are ignored by the GPU functions", "failing device operations returned uninitialised results, or threw through the interpreter and ended the session (also P20)"),
 ("P21", "fix: GPU calls ignore attenuation and one delay per observation point", "alpha and all but the first delay had no effect with 'gpu'"),
 ("P21", "fix: das without receivers reads out of bounds on the GPU", "Gr=[] with a method other than 'saft' made empty buffers and ran the wrong kernel"),
 ("P21", "fix: das_uni cannot be loaded in Octave (undefined symbol dream_err_msg)", "every call of das_uni failed in Octave"),
 ("P21", "fix: das_uni reads freed memory and data of the wrong size", "the data matrix was used after it was freed; the number of A-scans was not checked; Gr=[] divided by zero"),
 ("P21", "fix: das_uni grids lose their last point to rounding", "0:0.1:0.3 had 3 points instead of 4"),
 ("P21", "fix: rect_sir loses samples on the GPU at the corner arrival times", "acos argument above 1 by rounding"),
 ("P23", "fix: free the thread array after each call", "every multithreaded call left its array of thread handles allocated"),
 ("P23", "fix: destroy the FFTW plans and free the wisdom strings", "every call that made transforms left its plans allocated, and every returned wisdom string its C copy"),
 ("P20", "fix: CTRL-C does not cancel in hosts that block SIGINT (Octave, Julia)", "Octave and Julia block SIGINT and SIGTERM in the calling thread and wait for them elsewhere: the handlers of the functions were never called, and CTRL-C did not stop any computation (also P02)"),
 ("P04", "fix: a DREAM_NUM_THREADS value that is not a number ends the host session", "with DREAM_NUM_THREADS empty or not a number every function ended the whole Octave (MATLAB, Julia) session with an uncaught std::invalid_argument"),
 ("P04", "fix: scirc_sir ignores DREAM_NUM_THREADS", "the thread setting had no effect in scirc_sir"),
 ("P02", "fix: worker threads write to Octave's output stream", "cancelled workers used octave_stdout from several threads"),
 ("P02", "fix: cancel flag of circ_sir and scirc_sir is not atomic", "the cancel flag was volatile only (also P01)"),
 ("P02", "fix: cancelled conv_p and sum_fftconv calls return without an error", "a signal during conv_p or sum_fftconv gave no error"),
 ("P20", "fix: MATLAB front ends leave their signal handlers installed", "handlers stayed installed after errors, and lost their flags"),
 ("P19", "fix: Octave functions overwrite each other's cancel flags", "four-byte cancel flags were written over one-byte ones of other oct-files (seen with AddressSanitizer)"),
 ("P18", "fix: MATLAB front ends read arguments of other classes as double precision data", "cells, structs, strings, single and integer arrays"),
 ("P19", "fix: MATLAB dreamrect, dreamcirc and rect_sir ignore the device, and the error level when a device is given", "'ignore' with a device stopped; unknown devices were accepted (P18)"),
 ("P10", "fix: MATLAB dream_apodwin without apodization and with user defined weights", "'off' and 'ud'"),
 ("P16", "fix: MATLAB das reads outside the data matrix, and has no object when the precision changes", "single precision calls used a null object; too few A-scans (P18); device and verbose arguments"),
 ("P18", "fix: MATLAB conv_p ignores a 4th argument that is not a string, and does not free its threads", "also P23"),
 ("P19", "fix: MATLAB fftconv_p ignores the in-place mode when a wisdom string is also given, and does not free its threads", "also P23"),
 ("P13", "fix: wrong in-place results, columns and zero block length in MATLAB fftconv_ola", "'=', '-=', vector B with several columns, zero block length"),
 ("P14", "fix: MATLAB sum_fftconv with one-sample input signals, and memory leaks", "U with one row was reshaped"),
 ("P15", "fix: MATLAB copy_p copies the wrong number of columns", "columns were counted from A, so data beyond B was read and beyond the range written"),
 ("P02", "fix: MATLAB circ_sir and scirc_sir use a cancel flag which is not atomic, and do not free their threads", "also P23"),
 ("P10", "fix: Julia array functions ignore the apodization window parameter", "also P03, P08, P09, P19"),
 ("P09", "fix: Julia annular array wants one user defined delay and weight per radius instead of per ring", "also P10, P19"),
 ("P18", "fix: Julia front ends read from an empty delay vector", "an empty delay was accepted"),
 ("P19", "fix: Julia das refuses the gpu device and accepts unknown ones", "also P16, P18"),
 ("P18", "fix: Julia das reads outside the data when there are too few A-scans", "also P17"),
 ("P20", "fix: Julia functions leave their signal handlers installed", "all transducer functions and das"),
 ("P23", "fix: Julia conv_p and fftconv_p do not free their threads", "one block for each call"),
 ("P20", "fix: cancelled Julia convolutions return a partial result as if complete", "also P02"),
 ("P24", "fix: wrong terms in h2o_soundspeed", "wrong powers, and an exponent read as a subtraction (thousands of m/s off with salinity)"),
]
FINDINGS = [
 ("P21", r"^das_uni( single)?: das_uni .* with one delay per point$", "das_uni accepts one delay per observation point but uses the first delay for all points (no kernel argument for the others exists)"),
]
if os.path.exists(os.path.join(V, "tools", "known_extra.py")):
    exec(open(os.path.join(V, "tools", "known_extra.py")).read())
out = dict(findings=[dict(property=p, match=m, what=w) for p, m, w in FINDINGS],
           fixed=["fixed: property=%s %s %s" % (p, SUBJ[s], w) for p, s, w in FIXED])
for s in SUBJ:
    if s.startswith("fix:") and s not in [f[1] for f in FIXED]:
        print("not recorded:", SUBJ[s], s)
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
