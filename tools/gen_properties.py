#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Fallible calls reject bad lengths, strides and hops with the documented error",
  "Every fallible entry point (complex, split, strided and real FFT, planned and stack transforms, 2-D/3-D FFT, STFT/ISTFT in batch, parallel, single-frame and streaming form, Hilbert, Goertzel, cepstrum) returns an error exactly when its arguments are unusable and succeeds otherwise. "
  "An empty input, unequal or too small buffers, a zero stride and a zero hop each yield their own documented error kind, whatever the other arguments are.",
  ["inputs", "configurations"], "for all combinations of buffer lengths, strides, hop sizes and dimensions",
  "Tests try a handful of wrong lengths per call; whether a comparison is ==, <, or missing shows only at lengths nobody tried.",
  ["src/fft.rs", "src/rfft.rs", "src/ndfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs", "src/hilbert.rs", "src/goertzel.rs", "src/cepstrum.rs"],
  [("length/stride/hop checks at the head of each Result-returning function", "src/fft.rs, src/rfft.rs, src/ndfft.rs, src/stft.rs"), ("FftError", "src/fft.rs")],
  observe=["the Result of each public function"])
p("C02", "No public call panics, overflows or indexes out of range on any lengths",
  "For every combination of buffer lengths, strides, hop sizes, counts and levels a public transform, window, wavelet, cepstrum, spectrogram or streaming call either completes or returns its error; it never panics through an index, slice, integer overflow, division by zero or unreachable branch. "
  "The only panics are the documented argument assertions of the infallible calls (such as equal-length requirements).",
  ["inputs", "configurations"], "for all lengths (0, 1, odd, non-power-of-two, mutually inconsistent), strides, hops, counts and levels, with slices and counts up to 2^31 elements",
  "Unit tests pick a few sizes, mostly powers of two with consistent buffers; an off-by-one at the last frame or at length 1 needs the length that triggers it.",
  ["src/fft.rs", "src/rfft.rs", "src/ndfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs", "src/wavelet.rs", "src/window.rs", "src/window_more.rs", "src/hartley.rs", "src/czt.rs", "src/hilbert.rs", "src/goertzel.rs", "src/cepstrum.rs", "src/visual/spectrogram.rs"],
  [("argument checks before indexing; loop bounds; slice ranges", "all transform modules")])
p("C03", "A call that returns an error leaves the caller's buffers untouched",
  "When a transform call rejects its arguments (wrong length, zero stride or hop, unsupported size), none of the caller's input, output or scratch buffers has been modified. "
  "The caller can therefore retry with the same data.",
  ["inputs"], "for all argument combinations that are rejected, in the std build",
  "Tests assert the error value, never the buffer contents after it, and only for one or two rejected shapes.",
  ["src/fft.rs", "src/rfft.rs", "src/ndfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs"],
  [("validation precedes the first write on every path to an error return", "src/fft.rs, src/rfft.rs, src/stft.rs, src/ndfft.rs")])
p("C04", "Outputs always have the documented shape",
  "Every call that allocates its result returns exactly the documented number of elements for every input: as many samples as the input for DCT, DST, Hartley, Hilbert and vector FFTs, the requested count for windows and chirp-z, half the (padded) length for a wavelet level, one entry per item for batches, and one frame per hop for spectrogram magnitudes. "
  "Streaming resynthesis hands back exactly one hop of samples per pushed frame.",
  ["inputs"], "for all input lengths, counts, levels, window and hop sizes",
  "Tests look at a few even or power-of-two sizes; length formulas such as (n+1)/2 or n/2+1 agree there with wrong ones.",
  ["src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/hilbert.rs", "src/czt.rs", "src/window.rs", "src/window_more.rs", "src/wavelet.rs", "src/cepstrum.rs", "src/stft.rs", "src/visual/spectrogram.rs", "src/fft.rs", "src/num.rs"],
  [("result vectors are created with, or pushed to, the documented length", "src/dct.rs … src/wavelet.rs")])
p("C05", "A transform's result never depends on what its instance computed before",
  "Reusing an FFT instance, planner or plan gives, for any sequence of sizes and directions, the same result as a fresh instance: neither the length nor the contents of recycled work buffers can reach an output. ",
  ["histories", "inputs"], "for all sequences of transforms of any sizes on one instance, then any transform",
  "Tests use a fresh instance per size, or one size repeatedly; a large transform followed by a small one on the same instance is not tried.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs"],
  [("work buffers are taken, resized, sliced to the current size and fully overwritten before they are read", "src/fft.rs stockham_fft_with_threshold, fft; src/rfft.rs RfftPlanner")],
  state=[("planner scratch", "recycled buffers", "src/fft.rs FftPlanner, src/rfft.rs RfftPlanner, src/dst.rs DstPlanner")])
p("C06", "Planner caches return the table that belongs to the requested size and kind",
  "A cached twiddle, Bluestein, pack, cosine or sine table is determined by the key it is stored under: two requests that need different tables never share an entry, and a hit returns what a miss would have built.",
  ["histories", "inputs"], "for all sequences of requested sizes and kinds on one planner",
  "Tests request one or two sizes from a planner; a key collision needs two particular sizes in a particular order.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "build.rs"],
  [("HashMap caches keyed by transform size", "src/fft.rs FftPlanner::get_twiddles/get_bluestein, src/rfft.rs, src/dct.rs DctPlanner, src/dst.rs DstPlanner")])
p("C07", "Shared planner state is never reachable from two places at once",
  "An FFT instance with interior mutable state cannot be shared between threads by safe code, and inside one call no borrowed view of its planner is held while another part of the call can take it again. "
  "Parallel workers never touch it.",
  ["schedules", "programs"], "for all safe programs using the crate, and all call paths inside it",
  "Aliasing of interior state is undefined behaviour that tests on one thread cannot show.",
  ["src/fft.rs", "src/rfft.rs", "src/stft.rs"],
  [("UnsafeCell-held planner, taken buffers instead of held borrows", "src/fft.rs ScalarFftImpl")])
p("C08", "Unsafe code is typed, initialised, in bounds and supported by the CPU",
  "Every reinterpreting cast is reached only when the element type has been checked, every raw element access stays inside the buffer it came from, no buffer is exposed before it is initialised, and instructions of an optional CPU extension run only where that extension is known to be present.",
  ["inputs", "configurations", "programs"], "for all element types, lengths, build features and CPUs",
  "The tests run on one modern CPU and with two element types; undefined behaviour need not show in a passing test.",
  ["src/fft.rs", "src/rfft.rs", "src/num.rs", "src/dst.rs"],
  [("TypeId guards", "src/fft.rs"), ("target_feature functions", "src/rfft.rs, src/num.rs"), ("raw pointer loads/stores", "src/fft.rs fft_split_simd, src/rfft.rs")])
p("C09", "Stack-only and caller-scratch entry points never allocate",
  "The calls documented as stack-only or as using caller-provided buffers do not allocate heap memory themselves, on any path: every *_stack transform (FFT, real FFT, DCT, DST, Hartley, Haar, windows), the strided FFT with caller scratch, the 2-D/3-D FFTs' own code, the per-frame STFT calls (frame, inverse_frame) and the streaming STFT's next_frame and the inverse's flush, and the real-FFT planner's *_with_scratch calls once their tables are cached. "
  "Error returns do not allocate either.",
  ["inputs", "configurations"], "for all inputs and build configurations",
  "No test counts allocations, and an allocation on a rare path changes no result.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/wavelet.rs", "src/window.rs", "src/ndfft.rs", "src/stft.rs"],
  [("fixed-size arrays and caller-provided slices only", "the *_stack functions, per-frame functions in src/stft.rs, src/ndfft.rs")])
p("C10", "SIMD, fused, parallel and scalar variants evaluate the same formula",
  "Wherever the library has more than one implementation of a step (vector lanes and scalar tail, fused and plain complex multiply, single and double precision, vectorised and portable real-FFT packing, parallel and sequential loops), each computes the same algebraic function of the same input elements.",
  ["configurations", "inputs"], "for all inputs, lengths, and build configurations/CPU features that select a variant",
  "Tests run one or two feature sets on one CPU and compare within loose tolerances at a few sizes; the code of other configurations is never run.",
  ["src/fft.rs", "src/rfft.rs", "src/num.rs", "src/fft_kernels.rs"],
  [("paired implementations", "src/num.rs mul/mul_fma; src/fft.rs fft_split_simd; src/rfft.rs packed/direct/avx")])
p("C11", "Parallelism and tuning settings never change results",
  "Thresholds, cache sizes, thread counts, block sizes and the environment variables behind them influence only where work runs, never what is computed: both outcomes of every decision they control perform the same transform.",
  ["configurations", "schedules"], "for all values of the setters and environment variables, and all thread schedules",
  "Settings are process-global and read once; tests exercise a couple of values and never compare results across them.",
  ["src/fft.rs", "src/stft.rs"],
  [("threshold functions and setters", "src/fft.rs"), ("par_iter over disjoint frames", "src/stft.rs parallel, inverse_parallel")])
p("C12", "Results are a function of the arguments alone",
  "No transform, window, wavelet, cepstrum or spectrogram result depends on the clock, random numbers, the environment, the file system, hash iteration order or thread interleaving.",
  ["schedules", "configurations", "histories"], "for all runs, machines and schedules with equal arguments",
  "A test cannot enumerate ambient state.",
  ["src"], [("pure computation on arguments; ambient reads confined to the parallel threshold", "src/fft.rs")])
p("C13", "Every call terminates",
  "Every public call finishes for every input: each loop makes progress towards its bound and no call path recurses without a decreasing size.",
  ["inputs", "configurations"], "for all inputs and build configurations",
  "Non-termination occurs only for inputs or configurations nobody ran (size zero, no-std).",
  ["src"], [("bounded loops; no recursion except guarded delegation", "src")])
p("C14", "Song identification stays consistent when reading a file fails",
  "Indexing a song either succeeds and remembers it under both its file name and the hash of its full content, or fails with the I/O error and leaves the index exactly as it was; a look-up that fails also leaves it as it was. "
  "A known file name is answered without reading the file, and unknown names are identified by the hash of every byte of the content.",
  ["fault_sequences", "inputs", "histories"], "for all files, index histories and I/O failures at any read",
  "Tests use small readable files; failing opens and reads, and files longer than one read buffer, are not tried.",
  ["src/media/index.rs"], [("hash_file / index_song / identify", "src/media/index.rs")])
p("C15", "Developer tools report failure and pass the chosen configuration on",
  "A failing child process or file operation makes the task runner or the sanity-check tool exit unsuccessfully, never silently succeed; every build, test and benchmark command carries the detected features, and every benchmark command the detected compiler flags; user-supplied text is passed as an argument and never interpreted by a shell.",
  ["fault_sequences", "configurations"], "for all commands, detected configurations and child/file failures",
  "Tests inspect constructed commands for a few configurations and never make a child or a file operation fail.",
  ["xtask/src/lib.rs", "xtask/src/main.rs", "sanity-check/src/lib.rs", "sanity-check/src/main.rs"],
  [("exit status propagation", "xtask/src/main.rs"), ("command builders", "xtask/src/lib.rs"), ("? on every fallible call", "sanity-check/src")])
p("C16", "Batch, multi-channel, planned and convenience calls apply exactly their own transform",
  "Each batch, multi-channel, vector, split, strided, planned and convenience form applies the transform it is named after (same kind, same direction, same wavelet family) once to every item in order, and skips none.",
  ["inputs"], "for all item counts and lengths",
  "Tests cover some wrappers with one or two items; a wrapper of a sibling kind or a skipped last item passes them.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/wavelet.rs", "src/cepstrum.rs", "src/num.rs"],
  [("delegation", "batch_*, multi_channel_*, *_multi, *_vec, FftPlan methods, Simd*Impl methods")])
p("C17", "All STFT forms cut and overlap frames identically",
  "Frame k of the batch, parallel, streaming and single-frame forward transforms is the window times samples k*hop to k*hop+window-1, zero beyond the end; the inverse forms add frame k, windowed, back at the same place and divide by the summed squared window.",
  ["inputs", "histories"], "for all signals, windows, hop sizes and numbers of frames",
  "Round-trip tests use hop = window/2 and full frames; an error in the last partial frame or in one of the forms does not show.",
  ["src/stft.rs"], [("framing index arithmetic", "src/stft.rs")])
p("C18", "Multi-dimensional transforms visit every line of every axis once",
  "A 2-D or 3-D FFT applies the 1-D transform exactly once to every row, every column and (in 3-D) every depth line, gathering and writing back the same elements.",
  ["inputs"], "for all dimensions including non-square and size-1 axes",
  "Tests use square or power-of-two shapes, where swapped strides coincide.",
  ["src/ndfft.rs"], [("row/column/tube index arithmetic", "src/ndfft.rs")])
p("C19", "Double-precision transforms keep double precision",
  "In a double-precision transform no intermediate value, twiddle or constant is rounded through single precision.",
  ["inputs", "configurations"], "for all sizes and inputs of the double-precision instantiation",
  "Tests compare double-precision results with single-precision tolerances.",
  ["src/fft.rs", "src/fft_kernels.rs", "src/rfft.rs", "src/num.rs", "src/dst.rs"],
  [("Float::from_f32 used only for exactly representable values", "src/num.rs, src/fft.rs, src/fft_kernels.rs")])
p("C20", "Fixed-size kernels and direct formulas are the transforms they claim to be",
  "The unrolled 2-, 4-, 8- and 16-point kernels compute every output as the DFT's linear combination of the inputs, and the direct-sum transforms (DCT I-IV, DST I-IV, Hartley) use each type's own cosine/sine argument for every pair of indices.",
  ["inputs"], "for all input values and lengths",
  "Tests check a few vectors; linearity over all inputs and every index pair is not enumerated.",
  ["src/fft_kernels.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs"],
  [("straight-line kernels", "src/fft_kernels.rs"), ("double loops", "src/dct.rs, src/dst.rs, src/hartley.rs")])
p("C21", "Every wavelet decomposition can be reconstructed level by level",
  "Whatever length and number of levels the forward multi-level wavelet transform accepts, the matching inverse accepts its output and returns a signal at least as long as the input, for every wavelet family.",
  ["inputs"], "for all lengths and level counts, including odd intermediate lengths",
  "Tests use power-of-two lengths where no level is odd.",
  ["src/wavelet.rs"], [("padding on the forward side, truncation on the inverse side", "src/wavelet.rs multi_level_forward/multi_level_inverse")])
p("C22", "Single-level wavelet inverses undo the forward transforms",
  "For every wavelet family, the single-level inverse applied to the output of the matching single-level forward transform returns every sample whose filters stay inside the signal (for Haar: every sample) unchanged, up to the precision of the published coefficients.",
  ["inputs"], "for all input values and even lengths",
  "The filter-bank identity is about every coefficient pair; tests check Haar and a round trip of short signals with tolerances wide enough to hide wrong filters.",
  ["src/wavelet.rs"], [("analysis and synthesis taps", "src/wavelet.rs haar/db2/db4/sym4/coif1 forward and inverse")])
# Numeric properties: stated, decided not to be in reach of static analysis
p("C90", "Transforms approximate the mathematical transform to rounding error",
  "Each forward transform agrees with its defining sum within a small multiple of machine precision and each inverse undoes it.",
  ["inputs"], "for all finite inputs and sizes",
  "Error growth depends on values and sizes that tests only sample.",
  ["src/fft.rs", "src/rfft.rs"], [("floating-point butterflies", "src/fft.rs")])
p("C91", "Streaming resynthesis reconstructs the signal",
  "With a window satisfying the overlap-add condition, resynthesised samples equal the original signal within rounding.",
  ["inputs", "histories"], "for all signals, windows and hop sizes satisfying the condition",
  "Numerical equality over all windows cannot be sampled.",
  ["src/stft.rs"], [("overlap-add with normalisation", "src/stft.rs")])
p("C92", "Parallel execution is never slower than its threshold promises",
  "Above the configured threshold parallel execution is used and pays off.",
  ["configurations"], "for all machines", "Timing is machine dependent.",
  ["src/fft.rs"], [("should_parallelize_fft", "src/fft.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
