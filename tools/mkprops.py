import json
P=[]
def add(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
KER=["src/otfft_avxdif4.h","src/otfft_avxdit4.h","src/otfft_avxdif8.h","src/otfft_avxdit8.h","src/otfft_avxdif16.h","src/otfft_avxdit16.h"]
KERO=[k.replace(".h","omp.h") for k in KER]
SIX=["src/otfft_sixstep.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h"]
add("C01","Power-of-two complex FFT equals the DFT in every mode",
 "For every length N = 2^k, 1 <= k <= 24, every backend and every input vector, the complex FFT object replaces x by the discrete Fourier transform X_k = c * sum_j x_j exp(-2 pi i jk/N) (forward) or with exp(+2 pi i jk/N) (inverse), in natural order, up to floating-point rounding. The factor c is 1/N for fwd, fwdn and invn, 1 for fwd0, inv and inv0, and 1/sqrt(N) for fwdu and invu.",
 ["inputs","configurations"],"every complex input vector, all power-of-two lengths handled by the dedicated kernels, 8 modes, 3 instruction-set backends",
 "Tests transform one or two fixed signals at a few lengths with a loose tolerance on the auto-selected backend; a wrong twiddle or swapped output that is invisible for that signal, length, mode or backend passes.",
 ["src/otfft_algo.cpp","src/otfft_misc.h"]+KER+KERO+SIX,
 [("FFT0::setup selects the kernel family per log2 N","src/otfft_algo.cpp"),("fwdfft/invfft template recursion over butterflies","src/otfft_avxdi*.h"),("twiddle tables init_W/init_Wr1","src/otfft_misc.h")],
 [("W","twiddle table: W[p+(k-1)N/r] and W[N+rp+k] hold exp(-2 pi i kp/N)","src/otfft_misc.h init_Wt")],["ComplexFFT::fwd..invn output array"])
add("C02","Any-length complex FFT equals the DFT (mixed radix)",
 "For every admissible length N up to 2^30 that is not one of the dedicated power-of-two sizes - composite, prime or a larger power of two, including 0 and 1 - and every input, the complex FFT object computes the same discrete Fourier transform, inverse and normalisation factors as for powers of two, up to rounding.",
 ["inputs","configurations"],"all N in 0..2^30 outside {2^1..2^24}, every input vector, all modes and backends",
 "Tests sample a handful of lengths; radix combinations, large prime factors, vector-tail cases and size-threshold paths are not reached.",
 ["src/otfft_mixedradix.h","src/otfft_algo_mixed.cpp","src/otfft_algo.cpp"],
 [("recursive factorisation with radix 4/2/3/5/7.. butterflies and a general radix","src/otfft_mixedradix.h"),("log_N==-1 dispatch","src/otfft_algo.cpp FFT0::setup")],[],["ComplexFFT::fwd..invn output array"])
add("C03","Real FFT forward equals the DFT of the real signal",
 "For every even N up to 2^30 and every real x, the real FFT's fwd/fwd0/fwdu/fwdn writes y_k = c * sum_p x_p exp(-2 pi i kp/N) for all k in 0..N-1 (the full Hermitian-symmetric spectrum), with c = 1/N, 1, 1/sqrt(N), 1/N, and leaves x unmodified, up to rounding.",
 ["inputs","configurations"],"all even N, all real inputs, 4 modes, backends, serial and parallel paths",
 "Tests check selected bins of selected signals at a few lengths; they do not compare every bin for every length class nor check that the input is untouched.",
 ["src/otfft_algo.cpp","src/otfft_misc.h"],[("half-length complex FFT plus post-twiddle by U","src/otfft_algo.cpp RFFT::fwd*"),("weight table","src/otfft_algo.cpp RFFT::setup")],
 [("U","U[p] = (1 + sin(2 pi p/N) + i cos(2 pi p/N))/2 for p in 0..N","src/otfft_algo.cpp RFFT::setup")],["RealFFT::fwd* output y, input x"])
add("C04","Real FFT inverse recovers the real signal of a Hermitian spectrum",
 "For every even N up to 2^30 and every Hermitian-symmetric spectrum x, the real FFT's inv/inv0/invu/invn writes y_p = c * sum_k x_k exp(+2 pi i kp/N) for every p in 0..N-1, with c = 1, 1, 1/sqrt(N), 1/N, up to rounding.",
 ["inputs","configurations"],"all even N, all Hermitian spectra, 4 modes, backends, serial and parallel paths",
 "Tests only round-trip a few signals at a few lengths, so compensating forward/inverse errors and untested lengths or modes escape.",
 ["src/otfft_algo.cpp"],[("pre-twiddle by U then half-length inverse FFT","src/otfft_algo.cpp RFFT::inv*")],[],["RealFFT::inv* output y"])
add("C05","DCT-II and its inverse compute the documented cosine sums",
 "For every even N up to 2^30 and every real x, the cosine transform's fwd/fwdn/fwd0 replace x by X_k = c * sum_p x_p cos(pi k (2p+1)/(2N)) with c = 1/N for fwd and fwdn and 1 for fwd0, and invn replaces X by the x for which fwd0 yields X, while inv and inv0 yield N times that, up to rounding.",
 ["inputs","configurations"],"all even N, all real inputs, 6 modes, backends, serial and parallel paths",
 "Tests check round trips on single lengths; coefficients, scaling per mode and the parallel code path at large N are not compared with the definition.",
 ["src/otfft_algo.cpp"],[("even/odd reordering, real FFT and weight V","src/otfft_algo.cpp DCT0")],[("V","V[p] = exp(-+ i pi p/(2N))","src/otfft_algo.cpp DCT0::setup")],["RealDCT::* in-place array"])
add("C06","Bluestein FFT equals the DFT for every length",
 "For every N in 1..2^28, prime or not, and every input, the Bluestein object's eight transforms compute the same discrete Fourier transforms with the same normalisation factors as the complex FFT, up to rounding.",
 ["inputs","configurations"],"all N in 1..2^28, every input vector, 8 modes, backends, serial and parallel paths",
 "Tests use a few lengths; the circular-convolution length, index arithmetic modulo 2N and chirp table must be right for every N.",
 ["src/otfft_algo.cpp"],[("chirp-z convolution via power-of-two FFT of length L >= 2N-1","src/otfft_algo.cpp Bluestein")],[("W","W[p] = exp(-i pi p/N), p in 0..2N","src/otfft_algo.cpp Bluestein::setup"),("L","smallest power of two >= 2N-1","src/otfft_algo.cpp Bluestein::setup")],["ComplexFFT::* in-place array"])
add("C07","Every transform stays inside its arrays and its index arithmetic",
 "For every supported length, mode and backend, construction, setup and every transform read and write only inside the caller's arrays of the documented size (N elements) and the object's own live work areas and tables, never write a read-only input, and never overflow signed index arithmetic or index a released or null area.",
 ["inputs","configurations"],"all lengths in the documented range, all modes, backends and thread counts, all input values",
 "Out-of-bounds access by a vector lane or an off-by-one table read usually does not change the sampled results; tests run without sanitizers at a few lengths.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h"]+KER+KERO+SIX,[("buffer sizes chosen in setup and loop bounds of kernels","src/*.h")],[],["memory accesses of every public operation"])
add("C08","Results do not depend on thread count or OpenMP schedule",
 "For every length, mode and backend the outcome of setup and of every transform is the same for every number of OpenMP threads and every interleaving: within each parallel region no two threads access the same location without an intervening barrier unless both only read, and every element is computed exactly once or identically.",
 ["schedules","configurations"],"all interleavings and all team sizes >= 1 of every parallel region at all lengths that reach one",
 "A missing barrier, shared temporary or overlapping partition shows only under particular timing and team sizes; tests run one schedule and mostly below the parallel thresholds.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h"]+KERO+SIX,[("omp parallel / for / single regions and their implicit barriers","src/*omp.h, src/otfft_algo.cpp")],[],["contents of output arrays and tables after each parallel region"])
add("C09","A transform depends only on the length last set up and its input",
 "Re-running setup on an object with any length after any sequence of previous setups and transforms gives exactly the behaviour of a freshly created object of that length, and the result of a transform does not depend on stale contents of work areas or on earlier transforms. Transforms never modify the object's tables.",
 ["histories","inputs"],"all sequences of setup(n) and transform calls, all work-area contents",
 "Tests create a fresh object per case; stale tables, skipped re-initialisation and work-area reads need particular histories.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft_misc.h"],[("setup releases and rebuilds every member","src/otfft_algo.cpp"),("simd_array::setup","inc/otfft_complex.h")],[],["output arrays after arbitrary call histories"])
add("C10","Factory returns the requested transform on a backend the CPU supports",
 "For every CPU feature set and requested optimisation, each factory function returns an object of exactly the requested transform kind and length whose backend is the requested one (AUTO: the best supported of AVX2, AVX, SSE2) and is supported by the CPU, and throws std::domain_error when the requested backend is unavailable; deleting the returned handle destroys exactly that object.",
 ["configurations"],"all combinations of CPU feature bits, optimisation requests, transform kinds and lengths",
 "The tests run on one CPU and can see only one feature combination.",
 ["src/otfft.cpp","src/otfft_factory.h","inc/otfft.h"],[("sysinfo feature detection and ordered dispatch","src/otfft.cpp")],[],["type and backend of the object returned by Factory::create*"])
add("C11","Objects release what they own exactly once, also when allocation fails",
 "For every transform object and every sequence of construction, setup and destruction, including an allocation failure at any point, every block the object allocated is released exactly once by the matching deallocation function, nothing is used after release, and a failed construction or setup reports std::bad_alloc and leaks nothing.",
 ["histories","fault_sequences"],"all call histories and all points at which an allocation can fail",
 "Tests never inject allocation failures and do not check for leaks or double frees across re-setup histories.",
 ["inc/otfft_complex.h","src/otfft_algo.cpp"],[("simd_array ownership","inc/otfft_complex.h"),("FFT0::obj unique_ptr and catch/rethrow in setup","src/otfft_algo.cpp")],[],["allocation and release events"])
add("C12","Forward and inverse transforms invert each other",
 "For every length and input, applying inv after fwd, invn after fwd0, or invu after fwdu (and each pair in the other order) restores the original data up to rounding, for the complex, real, cosine (fwd/inv, fwd0/invn) and Bluestein transforms.",
 ["inputs","configurations"],"all lengths, inputs, backends and matching mode pairs",
 "Tests round-trip a few signals at a few lengths and only some mode pairs.",
 ["src/otfft_algo.cpp","src/otfft_misc.h"],[("mode-dependent scale factors","src/otfft_misc.h, src/otfft_algo.cpp")],[],["array after a forward/inverse pair"])
add("C13","complex_t arithmetic follows complex-number algebra, also when aliased",
 "Every public complex_t operator and helper (construction, conversion, +, -, *, /, compound assignments, conj, norm, abs, arg, polar, expj, jx, mjx, neg) returns the mathematically defined complex value for all operands, including when an operand aliases the object being modified.",
 ["inputs"],"all operand values and all aliasing patterns between operand and target",
 "There are no tests of the operators beyond incidental use and none with aliasing operands.",
 ["inc/otfft_complex.h"],[("operator definitions","inc/otfft_complex.h")],[],["return values and target object"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
