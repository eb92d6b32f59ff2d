"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

DWT = ["pywt/_dwt.py", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/c/wt.template.c", "pywt/_extensions/c/convolution.template.c"]

prop("C01", "Single-level DWT = extend, filter, decimate - for every length, filter, mode",
 """For every non-empty signal, decomposition filter pair and extension mode, dwt (and downcoef, level by level, for the
 part asked for) returns exactly the signal extended by that mode's rule, convolved with the decomposition filters and
 decimated by two, for both approximation and detail. The number of coefficients is floor((N+F-1)/2), or ceil(N/2) for
 periodization, and is what dwt_coeff_len reports. This holds equally when the signal is much shorter or much longer than the filter.""",
 ["inputs", "configurations"], "all N>=1 (N>=2 for the whole-sample modes), all filter lengths, 9 modes, 4 dtypes, both parts, every level of downcoef, any axis",
 "tests compare a few signals with a few built-in wavelets (mostly N=8..20); the C loops have separate branches for N<F, odd/even N, each mode, and the multiply reflected boundary, so the case space is N x F x mode x dtype",
 DWT, [("downsampling_convolution, downsampling_convolution_periodization", "pywt/_extensions/c/convolution.template.c"), ("dwt_single/dwt_axis", "pywt/_extensions/_dwt.pyx"), ("dwt_buffer_length", "pywt/_extensions/c/common.c")],
 ["pywt.dwt", "pywt.downcoef", "pywt.dwt_coeff_len"])

prop("C02", "Inverse DWT and upcoef are exact upsample-filter-trim synthesis",
 """For every pair of coefficient arrays, reconstruction filters and mode, idwt returns the upsampled coefficients convolved with
 the reconstruction filters and summed, trimmed to 2*len-F+2 samples (2*len, circularly, for periodization), and a coefficient
 argument given as None acts exactly as zeros. upcoef returns the full synthesis of one branch over the requested number of levels,
 and a positive take no longer than the result returns its central part of that length.""",
 ["inputs", "configurations"], "all coefficient lengths >= F/2, all even filter lengths, 9 modes, None on either side, dtypes and mixed dtypes, upcoef levels and take values",
 "tests check round trips and a handful of values; a round trip with the coefficients of dwt cannot see synthesis errors that cancel on the range of dwt, nor None/take/mixed-dtype handling for every length",
 DWT, [("upsampling_convolution_valid_sf, _periodization, upsampling_convolution_full", "pywt/_extensions/c/convolution.template.c"), ("idwt, upcoef", "pywt/_dwt.py")],
 ["pywt.idwt", "pywt.upcoef"])

prop("C03", "Perfect reconstruction of one DWT level",
 """For every signal, every built-in discrete wavelet (and every custom perfect-reconstruction bank) and every extension mode,
 idwt of dwt returns the original signal to working precision and the accuracy of the published coefficients (better than 1e-10; the approximate dmey about 5e-3), with exactly one extra trailing sample when the signal's length is odd.
 Summing the reconstructions from the approximation alone and the detail alone gives the same signal.""",
 ["inputs", "configurations"], "all signals, lengths >= 1, ~106 built-in wavelets, 9 modes, real/complex, single/double precision, any axis",
 "the tests' sweep uses one or two lengths per wavelet and compares at 1e-10ish; the guarantee is for every length, mode and filter",
 DWT + ["pywt/_extensions/c/wavelets_coeffs.template.h"], [("dwt/idwt filter and trim offsets", "pywt/_extensions/c/convolution.template.c")], ["pywt.dwt", "pywt.idwt"])

prop("C04", "Multilevel 1-D DWT: composition, lengths, level limits and round trip",
 """wavedec to level n returns [cA_n, cD_n, ..., cD_1] where each pair is the single-level DWT of the previous approximation along the chosen axis,
 the default level is the largest one at which at least one coefficient is free of boundary effects (dwt_max_level), and waverec folds idwt back
 over the list, dropping the one surplus approximation sample whenever the next detail is shorter, with None details acting as zeros.
 waverec of wavedec returns the original signal (plus at most one trailing sample), for every length, level, mode and axis.""",
 ["inputs", "configurations"], "all lengths, levels 0..max and beyond, 9 modes, axes, dtypes, None details",
 "odd/even length patterns across levels multiply (2^levels trimming patterns); tests use a few lengths",
 ["pywt/_multilevel.py", "pywt/_dwt.py", "pywt/_extensions/c/common.c"], [("wavedec/waverec", "pywt/_multilevel.py"), ("_check_level", "pywt/_multilevel.py"), ("dwt_max_level", "pywt/_extensions/c/common.c")],
 ["pywt.wavedec", "pywt.waverec", "pywt.dwt_max_level", "pywt.dwtn_max_level"])

prop("C05", "Separable 2-D and n-D DWT: axes, key order and per-axis wavelets and modes",
 """The n-D single-level DWT equals applying the 1-D DWT successively along each transformed axis, each with that axis's own wavelet and mode, and the
 result under a key is the subband whose i-th letter ('a' or 'd') was taken along the i-th listed axis; 2-D results name them cA and (cH, cV, cD)
 with horizontal detail = detail along the first listed axis. The inverse is the separable synthesis of whichever subbands are given (missing or None ones count as zero),
 untransformed axes are carried along independently, and negative and reordered axes mean the same axes.""",
 ["inputs", "configurations"], "ranks 1..4, all axis subsets and orders (negative too), distinct wavelet/mode per axis, missing subbands, all dtypes",
 "tests use symmetric axis choices and square arrays, where swapped axes, swapped cH/cV or a wrong wavelet on one axis are invisible",
 ["pywt/_multidim.py"], [("dwtn/idwtn", "pywt/_multidim.py"), ("_wavelets_per_axis, _modes_per_axis", "pywt/_utils.py")],
 ["pywt.dwt2", "pywt.idwt2", "pywt.dwtn", "pywt.idwtn"])

prop("C06", "Multilevel 2-D and n-D DWT: recursion on the approximation and round trip",
 """wavedec2/wavedecn to level n return the coarsest approximation followed by detail subbands from coarsest to finest, each level being the single-level
 n-D transform of the previous approximation over the same axes, and the default level is the smallest over the axes of each axis's own maximum.
 waverec2/waverecn fold the inverse back over them, trimming only the surplus sample on odd-sized axes, treating missing or None subbands as zeros;
 round trips return the original for every shape, axis choice, level and mode.""",
 ["inputs", "configurations"], "shapes with mixed odd/even sizes, levels, per-axis wavelets and modes, missing subbands, axes subsets",
 "odd/even patterns per axis and level, and missing-subband combinations, are far more than the tests' few shapes",
 ["pywt/_multilevel.py", "pywt/_multidim.py"], [("wavedec2, waverec2, wavedecn, waverecn, _match_coeff_dims", "pywt/_multilevel.py"), ("_fix_coeffs", "pywt/_multilevel.py")],
 ["pywt.wavedec2", "pywt.waverec2", "pywt.wavedecn", "pywt.waverecn", "pywt.dwtn_max_level"])

prop("C07", "Coefficient containers pack and unpack losslessly; shapes and sizes predicted",
 """Packing a wavedec/wavedec2/wavedecn coefficient list into one array (with or without per-band padding) or one vector, and unpacking it again,
 returns the same coefficients in the same structure, and the slices returned with the packing address exactly each subband (every element stored once, padding elsewhere).
 wavedecn_shapes and wavedecn_size predict exactly the shapes and number of elements that wavedecn produces for that shape, wavelet, mode, level and axes.""",
 ["inputs", "configurations"], "all coefficient trees over shapes x axes x modes x levels, three output formats, padding values",
 "tests check round trips (where a consistent permutation or overlap of blocks with equal values is invisible) on even square shapes",
 ["pywt/_multilevel.py"], [("coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs, wavedecn_shapes, wavedecn_size", "pywt/_multilevel.py")],
 ["pywt.coeffs_to_array", "pywt.array_to_coeffs", "pywt.ravel_coeffs", "pywt.unravel_coeffs", "pywt.wavedecn_shapes", "pywt.wavedecn_size"])

prop("C08", "Fully separable n-D DWT equals 1-D multilevel transforms axis by axis",
 """fswavedecn returns the array obtained by running the multilevel 1-D DWT along each listed axis in turn, each axis with its own wavelet, mode and level,
 and its result object addresses every block by one level index per axis, reports the approximation, slices and per-axis settings consistently, and accepts
 replacement of a block only by one of the same shape. fswaverecn of the result returns the original array (plus at most one sample per odd-sized axis).""",
 ["inputs", "configurations"], "ranks 1..3, axis subsets, per-axis levels/wavelets/modes, block reads and writes",
 "tests use a few shapes with equal settings on all axes; block addressing with unequal levels per axis is not compared with an independent definition",
 ["pywt/_multilevel.py"], [("fswavedecn, fswaverecn, FswavedecnResult", "pywt/_multilevel.py")], ["pywt.fswavedecn", "pywt.fswaverecn", "pywt.FswavedecnResult"])

prop("C09", "Stationary transform is the undecimated a-trous transform and shift-covariant",
 """swt, swt2 and swtn return, for each level from the requested start level, the circular undecimated filtering of the previous approximation with the filters
 upsampled by 2^(level-1), in the documented order with the documented trimming of approximations and axis/subband naming; with norm=True each level's filters are divided by sqrt(2).
 Every output has the input's shape and circularly shifting the input circularly shifts every coefficient array. The largest allowed level, and the default, is the number of times every transformed axis's length can be halved.""",
 ["inputs", "configurations"], "all lengths divisible by 2^level, levels, start levels, trim/norm flags, axes, filters longer or shorter than the signal",
 "tests compare mostly swt2 with swtn and a few Matlab references at start level 0; filters longer than the signal at deep levels are rarely reached",
 ["pywt/_swt.py", "pywt/_extensions/_swt.pyx", "pywt/_extensions/c/wt.template.c", "pywt/_extensions/c/convolution.template.c"],
 [("swt, swt2, swtn", "pywt/_swt.py"), ("downsampling_convolution_periodization with fstep", "pywt/_extensions/c/convolution.template.c"), ("swt_max_level", "pywt/_extensions/c/common.c")],
 ["pywt.swt", "pywt.swt2", "pywt.swtn", "pywt.swt_max_level"])

prop("C10", "Inverse stationary transform inverts and averages consistently",
 """iswt, iswt2 and iswtn return the original signal from the output of the matching forward transform, for every wavelet, level, axes, trim and norm setting.
 On arbitrary coefficients they return the average over the decimated phase reconstructions at each level, so they are linear, circular-shift covariant,
 consistent with one another across 1-D, 2-D and n-D, and the approximation used is the coarsest one.""",
 ["inputs", "configurations"], "all admissible lengths and levels, arbitrary (also inconsistent) coefficients, per-axis wavelets, subsets of axes, dtypes",
 "tests only round-trip consistent coefficients, which any left inverse satisfies",
 ["pywt/_swt.py"], [("iswt, iswt2, iswtn", "pywt/_swt.py"), ("idwt_single in periodization mode", "pywt/_extensions/_dwt.pyx")], ["pywt.iswt", "pywt.iswt2", "pywt.iswtn"])

prop("C11", "Multiresolution analysis is additive and each part is one subband's image",
 """mra, mra2 and mran return components with the input's shape whose sum (imra, imra2, imran) is the input; each component is the inverse transform of the
 decomposition with every other coefficient set to zero, in the documented order, for both the swt and dwt variants, every level, mode and axes choice.
 Computing or summing components does not change them.""",
 ["inputs", "configurations", "histories"], "lengths, levels, both transforms, modes, axes, repeated summation of the same component list",
 "tests check additivity only, on a few signals, and only once per component list",
 ["pywt/_mra.py"], [("mra, mra2, mran, imra, imra2, imran", "pywt/_mra.py")], ["pywt.mra", "pywt.mra2", "pywt.mran", "pywt.imra", "pywt.imra2", "pywt.imran"])

prop("C12", "Packet nodes hold the transform named by their path; orders are consistent",
 """In a 1-D, 2-D or n-D wavelet packet tree the data of the node at any path is the data of its parent transformed once and restricted to the last path component,
 however and in whatever order nodes are accessed, and paths, levels, maximum level, parents and node names are consistent with that.
 get_level lists every node of a level exactly once, in natural (lexicographic) order or in frequency order (the Gray-code order, in 2-D a grid of row and column frequencies),
 and walks, leaf listings and format conversions visit what their documentation says.""",
 ["inputs", "histories", "configurations"], "tree depths, wavelets, modes, axes, any order of lazily creating nodes",
 "tests look at a few fixed paths and levels; the tree is a lazily built stateful object whose content must not depend on access history",
 ["pywt/_wavelet_packets.py"], [("BaseNode, Node, Node2D, NodeND, WaveletPacket, WaveletPacket2D, WaveletPacketND", "pywt/_wavelet_packets.py"), ("get_graycode_order", "pywt/_wavelet_packets.py")],
 ["pywt.WaveletPacket", "pywt.WaveletPacket2D", "pywt.WaveletPacketND", "Node.data/path/level/maxlevel"],
 [("tree", "which nodes exist and the data each holds", "BaseNode attributes")])

prop("C13", "Wavelet packet edits and reconstruction: history decides only via current leaves",
 """After any sequence of node reads, writes, deletions, decompositions and reconstructions, reconstructing a packet tree yields the inverse transform of exactly the
 leaves present (absent siblings of a present node counting as zero), trimmed to the size the node's data had where that is known, and the stored data of any node changes only when
 the caller writes it, decomposes its parent or asks for an updating reconstruction. An untouched full or partial tree reconstructs the original data for every size, depth and mode; deleted nodes are gone and recomputed from their parent on next access.""",
 ["histories", "inputs"], "sequences of get/set/del/decompose/reconstruct(update) on 1-D, 2-D and n-D trees, odd sizes, all modes",
 "a state machine with an unbounded number of histories; tests run a few scripted ones",
 ["pywt/_wavelet_packets.py"], [("__getitem__, __setitem__, __delitem__, decompose, reconstruct, _reconstruct", "pywt/_wavelet_packets.py")],
 ["WaveletPacket*.reconstruct", "node access by path", "get_leaf_nodes"],
 [("tree", "which nodes exist and the data each holds", "BaseNode attributes")])

prop("C14", "Thresholding follows its defining piecewise formula elementwise",
 """threshold (soft, hard, garrote, greater, less) and threshold_firm apply their documented formula to every element independently of all other elements and of the array's shape,
 using the magnitude and keeping the sign or phase for real and complex data, with strict versus non-strict comparison at the threshold as documented and the substitute value where data is removed.
 The result has the data's shape, thresholds given per element apply per element, and the input is left unchanged.""",
 ["inputs"], "all data and thresholds including values equal to the threshold, zeros, negatives, complex, integers, 0-d to n-d, scalar and array thresholds",
 "tests use one or two 5-element arrays; position- or equality-dependent mistakes are invisible there",
 ["pywt/_thresholding.py"], [("soft, hard, nn_garrote, greater, less, threshold_firm", "pywt/_thresholding.py")], ["pywt.threshold", "pywt.threshold_firm"])

prop("C15", "Built-in discrete wavelets are correct PR banks with truthful attributes",
 """Every built-in discrete wavelet's filters form a perfect-reconstruction two-channel bank to the accuracy of the published coefficients (better than 1e-10; the approximate dmey about 5e-3); those flagged orthogonal are orthonormal with time-reversed/modulated
 companion filters, those flagged biorthogonal satisfy biorthogonality, rbio is bior with analysis and synthesis exchanged, and the declared filter lengths, vanishing moments,
 family and symmetry match the filters. Every name in wavelist constructs, names are case-insensitive aliases of the same filters, and single- and double-precision transforms use the same (rounded) filters.""",
 ["configurations"], "all ~106 discrete wavelet names, all shifts of the bank identities, all moments, both precisions",
 "tests check a few identities at loose tolerance and compare a few names with Matlab; a single wrong digit in one table passes",
 ["pywt/_extensions/c/wavelets.c", "pywt/_extensions/c/wavelets_coeffs.template.h", "pywt/_extensions/wavelets_list.pxi", "pywt/_extensions/_pywt.pyx"],
 [("coefficient tables", "pywt/_extensions/c/wavelets_coeffs.template.h"), ("discrete_wavelet", "pywt/_extensions/c/wavelets.c")],
 ["pywt.Wavelet attributes", "pywt.wavelist", "pywt.families"])

prop("C16", "Custom filter banks and filter utilities keep the documented relations",
 """A Wavelet built from a user's filter bank (a 4-tuple, or an object offering one) uses exactly those filters, zero-padded only to even length, and reports them, their inverse bank
 (synthesis and analysis exchanged and time-reversed) and lengths consistently. qmf and orthogonal_filter_bank return the alternating-sign reversal and the four mutually consistent filters they document.
 Reported filter lists are copies: changing them, or the caller's original lists, never changes the wavelet.""",
 ["inputs", "configurations", "histories"], "filter lengths (odd, even, unequal), scalar types, flags, mutation after construction",
 "tests construct one custom bank; padding, unequal lengths and aliasing are not explored",
 ["pywt/_extensions/_pywt.pyx", "pywt/_functions.py"], [("Wavelet.__cinit__, filter_bank, inverse_filter_bank", "pywt/_extensions/_pywt.pyx"), ("qmf, orthogonal_filter_bank", "pywt/_functions.py")],
 ["pywt.Wavelet(filter_bank=...)", "pywt.qmf", "pywt.orthogonal_filter_bank"])

prop("C17", "pad extends exactly as the transforms do",
 """pad(x, widths, mode) returns, along every axis separately, the values of the named extension mode's rule at the padded positions for any widths (also many times the signal's length,
 asymmetric, zero), with the original in the middle (periodization first repeats the last sample of an odd-sized axis). Its rule is the same one the DWT uses, so transforming a sufficiently padded signal gives in the interior the coefficients that the mode itself gives.""",
 ["inputs", "configurations"], "lengths >= 1, widths 0..several periods on each side, 9 modes, ranks 1..3, dtypes",
 "tests use 5-sample signals with a few equal widths",
 ["pywt/_dwt.py"], [("pad", "pywt/_dwt.py")], ["pywt.pad", "pywt.dwt"])

prop("C18", "CWT is the correlation with scaled, sampled wavelets, per axis and scale",
 """cwt returns for each scale, in order, the convolution of the signal with the integrated wavelet resampled at that scale, differentiated and centred to the signal's length; it is linear in the data,
 acts independently along the chosen axis, gives the same coefficients whether scales are asked one by one or together, and method 'fft' agrees with 'conv'.
 The coefficients are complex exactly when the wavelet or data is, and the returned frequencies are scale2frequency divided by the sampling period.""",
 ["inputs", "configurations"], "continuous wavelets of every family, fractional and large scales, data lengths, ranks and axes, complex data, both methods, precision",
 "tests compare a few wavelets with Matlab values at integer scales on 1-D data",
 ["pywt/_cwt.py", "pywt/_functions.py"], [("cwt", "pywt/_cwt.py"), ("integrate_wavelet, scale2frequency", "pywt/_functions.py")], ["pywt.cwt", "pywt.scale2frequency", "pywt.frequency2scale"])

prop("C19", "Wavelet functions, integrals and frequencies follow from the filters or formulas",
 """wavefun of a discrete wavelet at level n is the n-fold cascade of its filters on the grid of spacing 2^-n (both pairs for biorthogonal ones), continuous wavelets sample their documented closed form on the documented grid with
 the documented number of points and their parameters, and integrate_wavelet is the running integral of those samples. central_frequency is the dominant DFT frequency of that function,
 and scale2frequency and frequency2scale are inverse, inversely proportional maps through it.""",
 ["inputs", "configurations"], "all wavelets, levels, lengths, bounds and parameters (bandwidth, centre frequency, order)",
 "tests check single levels and a few families against formulas",
 ["pywt/_extensions/_pywt.pyx", "pywt/_functions.py", "pywt/_extensions/c/cwt.template.c", "pywt/_extensions/_cwt.pyx"],
 [("Wavelet.wavefun, ContinuousWavelet.wavefun", "pywt/_extensions/_pywt.pyx"), ("gaus, mexh, morl, cgau, shan, fbsp, cmor", "pywt/_extensions/c/cwt.template.c"), ("integrate_wavelet, central_frequency", "pywt/_functions.py")],
 ["Wavelet.wavefun", "ContinuousWavelet.wavefun", "pywt.integrate_wavelet", "pywt.central_frequency"])

prop("C20", "Invalid requests are rejected cleanly; valid ones are accepted; nothing hangs",
 """Every call with an unsupported argument (unknown wavelet or mode, empty data, axis out of range or literally repeated in a multilevel, stationary or packet transform, level negative or beyond what is defined, coefficient shapes that do not fit, odd length for a stationary transform,
 over-long take of the wrong kind, continuous wavelet where a discrete one is needed) raises an ordinary Python exception, and every call within the documented domain succeeds.
 No call crashes the process, loops forever, or returns uninitialised data, and mode and wavelet names, enum members and objects are interchangeable.""",
 ["inputs", "configurations"], "the product of argument classes of every public transform",
 "tests sample individual bad arguments; the combination space and non-termination are not covered",
 ["pywt/_extensions/_pywt.pyx", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_multilevel.py", "pywt/_multidim.py", "pywt/_swt.py", "pywt/_utils.py"],
 [("Modes.from_object, _as_wavelet, _check_level, _check_swt_level", "several")], ["every public function: result or exception"])

prop("C21", "Transforms never modify inputs and depend only on the values passed",
 """No transform, inverse, thresholding, padding or packing call modifies the arrays, lists or dictionaries passed to it, also when it raises. The result depends only on the element values and shape: not on memory layout
 (strides, order, negative steps, offsets, read-only or byte-swapped storage), not on the data surrounding a view in memory, and not on whether a list or an array was passed; results do not read outside the given data.""",
 ["inputs", "configurations"], "every public function x layouts of each array argument x shapes",
 "tests pass fresh contiguous arrays almost everywhere",
 ["pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/c/wt.template.c", "pywt/_dwt.py", "pywt/_multidim.py", "pywt/_swt.py", "pywt/_multilevel.py", "pywt/_mra.py"],
 [("strided copies into temporaries in *_axis", "pywt/_extensions/c/wt.template.c"), ("asarray(order='C')", "pywt/_dwt.py")], ["arguments before and after; results across layouts"])

prop("C22", "Linearity, complex data and precision rules hold for every transform",
 """Every forward and inverse transform is linear; a complex transform equals the transform of the real part plus i times that of the imaginary part; single precision results are the double precision ones to single rounding.
 float32/float64/complex64/complex128 input keeps its precision in the output, half precision becomes single, integers and other reals become double, extended complex becomes complex128, and this is the same for 1-D, n-D and axis variants.""",
 ["inputs", "configurations"], "all transforms x input dtypes x shapes and axes",
 "tests check dtype on single functions and linearity nowhere; four C instantiations of each kernel exist",
 ["pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/_pywt.pyx", "pywt/_extensions/c/wt.c", "pywt/_extensions/c/convolution.c", "pywt/_extensions/c/templating.h"],
 [("_check_dtype", "pywt/_extensions/_pywt.pyx"), ("four template instantiations", "pywt/_extensions/c")], ["result dtype and values"])

prop("C23", "Results do not depend on call history or on concurrent threads",
 """A call's result is a function of its arguments only: it is the same whatever calls were made before in the process, whatever was done to objects returned earlier, and whatever other threads are doing with the same
 or other wavelets and transforms. Concurrent calls sharing wavelets, modes or read-only data give each thread the result it would get alone.""",
 ["schedules", "histories"], "sequences of API calls (with mutation of returned objects) and interleavings of threads sharing objects",
 "one test runs a thread pool over one function; order effects, caches and shared scratch memory are not explored",
 ["pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/_pywt.pyx", "pywt/_swt.py", "pywt/_functions.py", "pywt/_cwt.py"],
 [("GIL released around C kernels working on caller-owned buffers", "pywt/_extensions/*.pyx"), ("no module-level mutable state", "pywt")], ["results of calls"],
 [("wavelet objects", "filters shared between threads", "Wavelet"), ("process", "anything surviving a call", "module state")])

prop("C24", "Pickling and copying keep wavelets and packet trees equivalent",
 """Unpickling or copying a Wavelet or ContinuousWavelet (built-in or custom, with changed attributes) gives an object with the same filters or parameters and reported attributes, hence the same transforms.
 Unpickling or deep-copying a wavelet packet tree, at any point of its history, gives a tree with the same nodes, data, axes, wavelet and mode that then behaves identically.""",
 ["histories", "configurations"], "all wavelet names, custom banks, attribute changes, packet trees after any history",
 "tests pickle two trees and one wavelet and compare a few values",
 ["pywt/_extensions/_pywt.pyx", "pywt/_wavelet_packets.py"], [("Wavelet.__reduce__, ContinuousWavelet.__reduce__, WaveletPacket*.__reduce__", "pywt/_extensions/_pywt.pyx, pywt/_wavelet_packets.py")],
 ["pickle.loads(pickle.dumps(obj))", "copy.copy/deepcopy"])

prop("C25", "Orthonormal transforms preserve energy and inner products",
 """With an orthogonal wavelet, a periodization-mode DWT of any depth and rank (even sizes at every level) preserves the sum of squared magnitudes and inner products of signals, and so does a periodized wavelet packet basis formed by any set of leaves.
 The normalised stationary transform with trimmed approximations preserves the sum of squared magnitudes for orthogonal wavelets at every level and rank.""",
 ["inputs", "configurations"], "orthogonal built-in wavelets, lengths, levels, ranks, packet leaf sets",
 "tests check energy for a few swt calls only",
 ["pywt/_dwt.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_wavelet_packets.py"], [("norm=True filter scaling", "pywt/_swt.py"), ("periodization", "pywt/_extensions/c/convolution.template.c")],
 ["pywt.wavedec*", "pywt.swt*", "pywt.WaveletPacket"])

prop("C26", "Demo signals and datasets are deterministic, fresh and of the documented form",
 """demo_signal(name, n) returns the documented test signal sampled at n points for every listed name (case-insensitively), a fixed-length signal where the length is fixed, and rejects unknown names and missing or unsupported lengths.
 Dataset loaders return the documented shape and type, identical values on every call, and an array the caller may change without affecting later calls.""",
 ["inputs", "histories"], "all names, lengths, repeated calls with mutation in between",
 "tests compare one length per signal",
 ["pywt/data/_readers.py", "pywt/data/_wavelab_signals.py"], [("demo_signal", "pywt/data/_wavelab_signals.py"), ("ascent, aero, camera, ecg, nino", "pywt/data/_readers.py")],
 ["pywt.data.demo_signal", "pywt.data.ecg and others"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
