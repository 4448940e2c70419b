C['C07'] = (T, 'proof', 'Bounds, null, read-only, overflow and lifetime obligations of every access executed symbolically for every supported length (symbolic outside the dedicated powers of two), all modes and backends, transforms and construction.')
C['C08'] = (T, 'proof', 'For every parallel region reached by any supported length: any two iterations/threads without a barrier in between access disjoint cells unless both read, for all team sizes and schedules.')
for k in ('C07', 'C08'): NA.pop(k, None)
C['C03'] = (T, 'proof', 'For every even N up to 2^30 (symbolic; powers of two one by one): for all real inputs the N outputs of fwd/fwd0/fwdu/fwdn are the DFT with the documented factor and the input is unchanged. Class contracts of RFFT and FFT0 are verified against their bodies.')
C['C04'] = (T, 'proof', 'For every even N up to 2^30 and every Hermitian input: outputs of inv/inv0/invu/invn are the real sequence given by the inverse DFT with the documented factor.')
C['C05'] = (T, 'proof', 'For every even N up to 2^30 (symbolic) and all inputs: fwd/fwd0/fwdn and inv/inv0/invn equal the documented cosine sums.')
C['C06'] = (T, 'proof', 'For every N up to 2^28 (symbolic, one proof per convolution length) and all inputs: the chirp transform equals the DFT with the documented factor in all eight modes.')
C['C02'] = (T, 'proof', 'For every length 0..2^30 outside the dedicated powers of two (symbolic; powers of two one by one) and all inputs: every output of all eight modes is the DFT sum with the documented factor. The recursive mixed radix routines carry verified contracts (any factorisation, any radix), by induction on the remaining length.')
C['C13'] = (T, 'proof', 'Every complex_t operation, for all operand values and every aliasing of its pointers (also repeated calls on modified operands), equals its definition over the complex numbers; reals instead of rounded doubles; sqrt, sin, cos, atan2 uninterpreted.')
for k in ('C13', 'C02', 'C03', 'C04', 'C05', 'C06'): NA.pop(k, None)
C['C09'] = (T, 'proof', 'By induction over any history of construction, setup and transforms: setup from every reachable kind of earlier state leaves an object equal to a new one of that length; every transform is verified with arbitrary stale contents of the work areas and leaves the tables unchanged.')
C['C10'] = (T, 'proof', 'For every CPU feature word and requested optimisation (all bits symbolic): kind, length and backend of the returned object, the exception otherwise, and the deleter; src/otfft.cpp verified as compiled, cpuid/xgetbv instructions are the symbolic inputs.')
C['C11'] = (T, 'proof', 'By induction over any history of construction, setup and destruction with every allocation allowed to fail: blocks owned are exactly those reachable, each is released once by the matching function, failures report std::bad_alloc and leak nothing.')
C['C12'] = (T, 'proof', 'Lemma over the verified class contracts (transform equals its defining sum): composition of each pair restores the input for every length; the class contracts are re-verified by this check.')
for k in ('C09', 'C10', 'C11', 'C12'): NA.pop(k, None)
