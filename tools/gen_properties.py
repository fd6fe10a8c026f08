#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays one JSON object per line)."""
import json
ALG="src/algorithm/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Planned DCT types 1-4 compute the textbook sum at every length",
 "For every length n >= 1 (n >= 2 for type 1) and every finite input, the instance the planner returns for DCT type 1, 2, 3 or 4 replaces the buffer with the unnormalised textbook cosine sum of that type, up to rounding error of the element type. This holds for f32 and f64 alike, whichever internal algorithm the planner picks for that length.",
 ["inputs","configurations"],"all lengths x all input vectors x {f32,f64} x the four types",
 "The planner tests stop at length 19, use one pseudo-random vector per length, and accept an absolute error of 1e-3 in f32/f64; the recursive power-of-two path, all large composite/prime lengths and small errors are never looked at.",
 ["src/plan.rs",ALG+"type1_naive.rs",ALG+"type1_convert_to_fft.rs",ALG+"type2and3_butterflies.rs",ALG+"type2and3_splitradix.rs",ALG+"type2and3_convert_to_fft.rs",ALG+"type2and3_naive.rs",ALG+"type4_naive.rs",ALG+"type4_convert_to_fft.rs",ALG+"type4_convert_to_type3.rs","src/twiddles.rs"],
 [("length-based algorithm choice","src/plan.rs plan_new_dct1/plan_new_dct2/plan_new_dct4"),("FFT/DCT3/split-radix reductions and twiddle tables",ALG)],
 observe=["DctPlanner::plan_dct1..4 + process_dctN(_with_scratch)"])
p("C02","Planned DST types 1-4 compute the textbook sum at every length",
 "For every length n >= 1 and every finite input, the instance the planner returns for DST type 1, 2, 3 or 4 replaces the buffer with the unnormalised textbook sine sum of that type, up to rounding error of the element type, for f32 and f64. An instance planned through any of the type-2/3 (or type-4) entry points serves all sine and cosine transforms of that family equally.",
 ["inputs","configurations"],"all lengths x all input vectors x {f32,f64} x four types x the planner entry points that share an instance",
 "Planner tests stop at length 19; DST1 only switches to its FFT algorithm at length 25 and the planner's split-radix DST2/DST3 starts at 32, so those planned paths are never run.",
 ["src/plan.rs",ALG+"type1_naive.rs",ALG+"type1_convert_to_fft.rs",ALG+"type2and3_butterflies.rs",ALG+"type2and3_splitradix.rs",ALG+"type2and3_convert_to_fft.rs",ALG+"type4_naive.rs",ALG+"type4_convert_to_fft.rs",ALG+"type4_convert_to_type3.rs"],
 [("algorithm choice","src/plan.rs plan_new_dst1, plan_dst2/3/4 delegating to plan_dct2/4"),("sign/reversal identities",ALG)],
 observe=["DctPlanner::plan_dst1..4 + process_dstN(_with_scratch)"])
p("C03","Planned DCT/DST types 5-8 compute the textbook sum at every length",
 "For every length n >= 1 and every finite input, the instance the planner returns for DCT or DST type 5, 6, 7 or 8 replaces the buffer with the unnormalised textbook sum of that type (half-integer period), up to rounding error of the element type, for f32 and f64. This includes the lengths at which the planner switches from the direct to the FFT-based algorithm for DST types 6 and 7.",
 ["inputs","configurations"],"all lengths x all input vectors x {f32,f64} x eight transforms",
 "Planner tests stop at length 19 while DST6/7 switch algorithm at 45; tests for some of these types start at length 6; one vector per length with 1e-3 tolerance.",
 ["src/plan.rs",ALG+"type5_naive.rs",ALG+"type6and7_naive.rs",ALG+"type6and7_convert_to_fft.rs",ALG+"type8_naive.rs"],
 [("index arithmetic on the periodic twiddle table",ALG+"type5_naive.rs, type6and7_naive.rs, type8_naive.rs"),("DST6/7 via odd FFT",ALG+"type6and7_convert_to_fft.rs")],
 observe=["DctPlanner::plan_dct5..8, plan_dst5..8"])
p("C04","MDCT output equals the windowed textbook sum and overwrites the output",
 "For every even length n, every window of 2n values and every pair of input halves, the forward MDCT writes to each output cell the textbook sum over the windowed 2n-sample input, up to rounding error, for the planned, the direct and the DCT4-based implementation over any inner DCT4. The result does not depend on what the output buffer held before, and the inputs are left as they were.",
 ["inputs","configurations"],"all even lengths x windows x input pairs x prior output contents x implementations x {f32,f64}",
 "Tests use lengths up to 20 plus 100/104, three smooth symmetric windows, zeroed output buffers and one vector; asymmetric windows and dirty outputs are never tried.",
 ["src/mdct/mdct_via_dct4.rs","src/mdct/mdct_naive.rs","src/mdct/mod.rs","src/plan.rs"],
 [("fold into -D-Cr / A-Br then DCT4","src/mdct/mdct_via_dct4.rs process_mdct_with_scratch"),("direct sum","src/mdct/mdct_naive.rs")],
 observe=["Mdct::process_mdct_with_scratch"])
p("C05","IMDCT adds the windowed inverse onto the existing output",
 "For every even length n, every window and every spectrum, the inverse MDCT adds the windowed textbook inverse sum to what the two output halves already contain, up to rounding error, and changes nothing else. Adding several blocks into the same buffers gives the sum of their individual contributions, in any order.",
 ["inputs","histories","configurations"],"all even lengths x windows x spectra x prior contents x orders of accumulation x implementations x {f32,f64}",
 "Tests check the planned inverse only through a fixed reconstruction test on zeroed buffers, and one algorithm-level test with all-ones output and three symmetric windows.",
 ["src/mdct/mdct_via_dct4.rs","src/mdct/mdct_naive.rs","src/mdct/mod.rs"],
 [("unfold with += / -= per quarter","src/mdct/mdct_via_dct4.rs process_imdct_with_scratch"),("direct sum with +=","src/mdct/mdct_naive.rs")],
 observe=["Mdct::process_imdct_with_scratch"])
p("C06","Overlapped MDCT streams reconstruct perfectly (TDAC)",
 "Encoding a signal as consecutive half-overlapping MDCT blocks and overlap-adding their inverses returns the interior of the signal exactly up to rounding, scaled by n for the all-ones window, n/2 for the mp3 and vorbis windows and any other power-complementary symmetric window, and 1 for the three invertible windows. It holds for every even n, every number of blocks, every signal, and any order in which blocks are encoded and decoded.",
 ["inputs","histories","configurations"],"all even lengths x built-in and power-complementary windows x stream lengths x encode/decode orders x signals",
 "The test uses five blocks in one order, one pseudo-random f32 signal and lengths 2..18, 100, 104 with an absolute tolerance of 1e-3.",
 ["src/mdct/mdct_via_dct4.rs","src/mdct/window_fn.rs","src/mdct/mdct_naive.rs"],
 [("time-domain alias cancellation","src/mdct/*"),("scale folded into invertible windows","src/mdct/window_fn.rs")],
 observe=["Mdct::process_mdct_with_scratch, process_imdct_with_scratch over a stream"])
p("C07","Each transform followed by its inverse transform returns the input",
 "Applying a planned transform and then its mathematical inverse partner (DCT1/DCT1, DCT2/DCT3, DCT4/DCT4, DCT5/DCT5, DCT6/DCT7, DCT8/DCT8, and the DST counterparts) to any input returns the input times the fixed factor of that pair (half the transform's period length), up to rounding, in both directions, for every length.",
 ["inputs","configurations"],"all lengths x inputs x pairs x both directions x {f32,f64}",
 "The repository's inverse tests run the test-suite's own reference functions, not the library, so no library round trip of a DCT or DST is tested at all.",
 ["src/plan.rs",ALG],
 [("consistent normalisation of the half-weighted end terms",ALG)],
 observe=["pairs of planned instances on one buffer"])
p("C08","Every public algorithm works over any compatible inner component",
 "Every public transform algorithm, built directly or by nesting over any inner FFT/DCT of a permitted length (however much scratch that inner component asks for and whatever it leaves in it), runs with exactly the scratch it reports and computes the same result as the textbook definition of its type. So all algorithms for one transform and length are interchangeable.",
 ["configurations","inputs","programs"],"all algorithms x all nestings up to a size x inner components with arbitrary scratch demand and scratch behaviour x inputs",
 "Unit tests build each algorithm over one kind of inner component (naive or one planner) with zeroed scratch for lengths up to 20 (odd DCT4: 99, split radix: 128, DST2/DST3 by split radix: none).",
 [ALG,"src/mdct/mdct_via_dct4.rs"],
 [("scratch length computation and scratch hand-over to inner components",ALG+"*_convert_to_fft.rs, type2and3_splitradix.rs, type4_convert_to_type3.rs, src/mdct/mdct_via_dct4.rs")],
 observe=["constructors ::new and process_*; unsafe process_inplace_* of the butterflies"])
p("C09","Results never depend on scratch contents or on oversized scratch",
 "For every transform instance, the output of a call with caller-supplied scratch is bit-for-bit the same whatever values the scratch holds on entry (zeros, NaN, leftovers of any other call) and however much longer than required it is, and equals the output of the convenience call that allocates its own scratch. Scratch cells beyond the required length are neither read nor modified.",
 ["inputs","histories","configurations"],"all instances x inputs x scratch contents x scratch lengths >= required x sequences of calls sharing one scratch",
 "All existing tests hand over freshly zeroed scratch of exactly the required length.",
 [ALG,"src/mdct/mdct_via_dct4.rs","src/common.rs","src/lib.rs","src/array_utils.rs"],
 [("scratch is sliced to the required length","src/common.rs validate_buffers!"),("every scratch cell is written before it is read",ALG+"*_convert_to_fft.rs"),("default process_* methods","src/lib.rs")],
 observe=["process_*_with_scratch and process_*"])
p("C10","Wrong buffer lengths and short scratch are always rejected",
 "Every processing call whose buffer length differs from the instance's length (any of the three buffers for MDCT/IMDCT), or whose scratch is shorter than the instance reports, panics; every call with matching lengths and sufficient scratch returns normally. This holds in builds with and without debug assertions, and a wrong call never returns as if it had worked.",
 ["inputs","configurations"],"all instances x operations x buffer lengths x scratch lengths x build profiles",
 "No existing test makes a call with wrong lengths.",
 ["src/common.rs",ALG,"src/mdct/"],
 [("validate_buffer!/validate_buffers!/validate_buffers_mdct! and the cold error functions","src/common.rs")],
 observe=["every process_* entry point"])
p("C11","Processing touches only the slices it was given",
 "No constructor, planning or processing call, valid or rejected, at any length, reads or writes memory outside the slices passed in and its own allocations, or performs any other undefined behaviour. This covers the unchecked indexing in the split-radix and butterfly code and the reinterpretation of scratch as complex numbers.",
 ["inputs","configurations"],"all instances x operations x lengths x (valid and invalid) buffer/scratch sizes and placements",
 "An out-of-bounds unchecked access usually lands in live heap memory and the numerical tests still pass; tests never place buffers at the edge of mapped memory nor run wrong lengths.",
 [ALG+"type2and3_splitradix.rs",ALG+"type2and3_butterflies.rs","src/array_utils.rs",ALG+"*_convert_to_fft.rs"],
 [("length validation before unchecked access",ALG+"type2and3_splitradix.rs, type2and3_butterflies.rs"),("into_complex_mut halves the length","src/array_utils.rs")],
 observe=["process_* on guard-page-delimited slices; the same calls under Miri"])
p("C12","What a planner returns depends only on the request, not its history",
 "For any sequence of planning requests (any kinds, lengths, windows, including requests that panic, at whatever point) made earlier on the same or another planner, the instance returned for a request has the requested length and produces the results of an instance from a fresh planner given only that request: bit for bit for element types other than f32 and f64, and up to rounding for those two (whose FFTs come from rustfft's own planner, which may pick another of its algorithms for a length after other requests). In particular an MDCT request always honours the window passed in that request.",
 ["histories","configurations"],"all sequences of planning requests up to a depth over colliding lengths, kinds and windows",
 "Each existing test uses a new planner per length, so cached entries and cross-kind reuse are never exercised.",
 ["src/plan.rs"],
 [("one cache per transform family keyed by length","src/plan.rs plan_*"),("recursive planning through the caches","src/plan.rs plan_new_dct2/4/mdct")],
 state=[("*_cache","instances planned so far, by length","src/plan.rs DctPlanner")],
 observe=["DctPlanner::plan_*"])
p("C13","A planner shares repeated plans and never shares across planners",
 "Repeating a request on a planner returns the same shared instance (same-family requests of one length - types 2/3, type 4, types 6/7 - too), distinct requests return distinct instances, and building on already planned sizes repeats no setup work for them. Two planners never share instances, and instances remain usable after their planner is dropped, in whatever order things are dropped.",
 ["histories"],"all sequences of plan / new planner / drop planner / use steps up to a depth",
 "No test plans twice on one planner or drops a planner before use.",
 ["src/plan.rs"],
 [("HashMap caches of Arcs","src/plan.rs"),("plan_dct3/plan_dst2/plan_dst3/plan_dst4/plan_dct7/plan_dst7 delegate","src/plan.rs")],
 state=[("*_cache","instances planned so far, by length","src/plan.rs DctPlanner")],
 observe=["Arc::ptr_eq on returned instances; twiddle conversions performed during a plan call"])
p("C14","One instance may be used from many threads at once",
 "Concurrent calls on the same instance (same or different operations, each with its own buffer and scratch), or on instances sharing internal components, produce in every interleaving exactly the bits each call produces when run alone, and never deadlock.",
 ["schedules","configurations"],"all interleavings of 2-3 concurrent calls at arithmetic granularity up to a preemption bound",
 "The only concurrency test checks at compile time that the traits are Send + Sync; nothing runs two threads.",
 ["src/lib.rs","src/plan.rs",ALG,"src/mdct/"],
 [("process_* take &self and keep all working state in caller buffers",ALG),("Sync + Send supertraits","src/lib.rs")],
 observe=["process_* on shared Arcs with a scalar type whose every arithmetic operation is a scheduling point"])
p("C15","Constructors accept exactly the valid configurations",
 "Every algorithm constructor and planner request accepts each configuration its documentation allows, yielding an instance of the documented length, and panics on each one it forbids: FFTs of the wrong parity or of inverse direction, split-radix halves that are not n/2 and n/4 of a power of two greater than two, odd MDCT lengths, window functions returning the wrong number of values, and DCT1 of length 1. A rejected request leaves the planner fully usable.",
 ["inputs","configurations","histories"],"all constructors x inner lengths x directions x window sizes, followed by valid use",
 "No existing test constructs anything invalid.",
 [ALG,"src/mdct/mdct_naive.rs","src/mdct/mdct_via_dct4.rs","src/plan.rs"],
 [("assertions in ::new",ALG+"*, src/mdct/*")],
 observe=["::new of every public algorithm, DctPlanner::plan_dct1/plan_mdct"])
p("C16","Calls with caller-supplied scratch never allocate",
 "Processing with caller-supplied scratch performs no heap allocation or deallocation, for every planned instance, operation and length; the convenience calls without scratch allocate at most one scratch buffer of exactly the reported length and free it.",
 ["inputs","configurations"],"all planned instances x operations x lengths x {f32,f64}",
 "No test observes allocation, and an added allocation changes no result.",
 ["src/lib.rs",ALG,"src/mdct/"],
 [("scratch slicing instead of local Vecs",ALG),("default process_* methods allocate get_scratch_len()","src/lib.rs")],
 observe=["global allocator of the harness during process_* calls"])
p("C17","Planned transforms of every length cost O(n log n)",
 "For every length, prime lengths included, the planned DCT/DST types 1-4, DST types 6 and 7 and MDCT/IMDCT perform at most a fixed constant times n log n arithmetic operations per call, and use scratch of at most a fixed constant times n elements.",
 ["inputs","configurations"],"all lengths x all planned O(n log n) transforms",
 "A planner that falls back to an O(n^2) algorithm returns the same values, so no value-comparing test can see it.",
 ["src/plan.rs",ALG],
 [("algorithm choice by length","src/plan.rs plan_new_*")],
 observe=["number of arithmetic operations executed on the element type per process_* call; get_scratch_len()"])
p("C18","Transforms are linear across the whole dynamic range",
 "Scaling the input by any power of two or negating it scales or negates the output bit-for-bit (absent overflow and underflow), the zero input gives zero output, and the transform of any sum is the sum of the transforms up to rounding. No absolute threshold, special value or coincidence between input values (zeros, equal, opposite or integer samples) changes what is computed.",
 ["inputs"],"all instances x lengths x inputs over {special small-value lattices, sparse and dense vectors} x scale exponents",
 "Tests use samples drawn from [0,10) once per length; special values and other magnitudes are not covered.",
 [ALG,"src/mdct/"],
 [("branch-free arithmetic on samples",ALG)],
 observe=["process_* on scaled, negated and superposed inputs"])
p("C19","Any numeric type meeting the trait bounds gets correct results",
 "Transforms instantiated with a user-defined element type that satisfies the public numeric trait (not f32 or f64) compute, for every length and every input, the same mathematical result as the definition, to the accuracy of the type and of f64-computed constants. No result is routed through a lower-precision type.",
 ["inputs","configurations"],"all lengths x inputs x user-defined numeric types x all planned and direct algorithms",
 "All tests instantiate f32 or f64 only; the portable FFT path and generic constants are never run with another type.",
 ["src/common.rs","src/twiddles.rs",ALG,"src/plan.rs"],
 [("blanket DctNum impl with half()/two()","src/common.rs"),("twiddles computed in f64 and converted by from_f64","src/twiddles.rs")],
 observe=["process_* with user-defined element types"])
p("C20","Window functions return the documented values at every size",
 "For every size, each built-in window function returns exactly that many values, equal to its documented formula (all ones, sine, Vorbis power-sine; the invertible variants scaled by the square root of 2/size, with a further factor sqrt 2 for the windowed ones) to rounding error of the element type. The windows are symmetric and, for even sizes, the squares of entries half a window apart sum to the constant needed for perfect reconstruction.",
 ["inputs","configurations"],"all sizes x six windows x element types",
 "The unit test checks one identity for two of the six windows up to size 38 with 1e-3 tolerance.",
 ["src/mdct/window_fn.rs"],
 [("closed-form evaluation in f64","src/mdct/window_fn.rs")],
 observe=["mdct::window_fn::*"])
p("C21","Accuracy stays at machine precision up to very large lengths",
 "The error of a planned transform relative to the norm of its output stays within a small multiple of the element type's machine epsilon (growing at most like log n for the fast transforms on signals whose energy is spread, and never faster than sqrt n), for f32 and f64, at every length including very large powers of two, primes and their neighbours.",
 ["inputs","configurations"],"all small lengths and all structurally boundary lengths up to 2^20 x {f32,f64} x all transforms",
 "Tests accept an absolute error of 1e-3 for inputs of size 10 and lengths of at most 104, so a transform using single-precision constants for f64, or losing accuracy with length, passes.",
 ["src/twiddles.rs",ALG,"src/plan.rs"],
 [("constants computed in f64 from integer indices","src/twiddles.rs, "+ALG),("index arithmetic modulo the table length",ALG+"*_naive.rs")],
 observe=["process_* at large lengths against an independent f64 reference"])
p("C22","Instances keep no memory between calls",
 "Any sequence of calls on an instance - repeated, of different operations, with different data, with calls in between that are rejected for wrong lengths or broken off by a panic of the element type - leaves it unchanged: each valid call gives bit-for-bit the result the same call gives on a newly built instance.",
 ["histories"],"all call sequences up to a depth on every kind of instance, including calls that panic at any point",
 "Tests call each instance once or twice with valid arguments and compare with tolerance.",
 [ALG,"src/mdct/","src/lib.rs"],
 [("process_* take &self; no interior mutability",ALG)],
 observe=["sequences of process_* on one instance"])
p("C23","Reported length and scratch size are correct and sufficient",
 "Every instance reports exactly the length it was planned or built for; the scratch length it reports never changes and is enough for every operation the instance offers at that length.",
 ["inputs","configurations","histories"],"all planned and directly built instances x lengths x operations, before and after use",
 "Lengths are asserted up to 19 only; scratch sufficiency is only met by accident of the sizes tried.",
 [ALG,"src/mdct/","src/plan.rs","src/lib.rs"],
 [("Length and RequiredScratch impls",ALG),("len recovered from table sizes",ALG+"*_naive.rs")],
 observe=["len(), get_scratch_len(), process_*_with_scratch with exactly that much scratch"])
p("C24","Planning costs near-linear time and memory, and everything is released",
 "For every length, planning a transform holds (during and after planning) at most a fixed constant times n elements of heap memory and performs at most a fixed constant times n log n arithmetic operations and constant conversions, also for the direct algorithms. Serving many requests from one planner never takes more memory than separate planners would, repeating requests takes none, and once a planner and all instances it returned are dropped, in either order, every byte they acquired is released.",
 ["inputs","configurations","histories"],"all lengths x all planned transforms and MDCT; all request sequences up to a depth followed by every drop order",
 "Tests look only at output values: a quadratic table, an exponential recursion or a reference cycle that leaks returns the same values.",
 ["src/plan.rs",ALG,"src/mdct/","src/twiddles.rs"],
 [("tables of O(n) twiddles",ALG),("sub-plans shared through the planner's caches","src/plan.rs"),("Arc ownership without cycles","src/plan.rs")],
 observe=["heap bytes held after plan_*, operations on the element type during plan_*, heap balance after drop"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
if __name__=="__main__":
    import subprocess
    print(len(P),"properties")
