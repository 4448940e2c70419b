// Calls of the public factory interface, compiled to IR together with src/otfft.cpp on every run.
#include "otfft.h"
using namespace OTFFT;
extern "C" {
#define K1(N,F,O) void *vp_fac_##N##_##O(int n) { return Factory::F(n, OptimizationType::OPTIMIZED_FFT_##O).release(); }
#define K(N,F) K1(N,F,AUTO) K1(N,F,SSE2) K1(N,F,AVX) K1(N,F,AVX2) \
    void *vp_fac_##N##_default(int n) { return Factory::F(n).release(); } \
    void *vp_fac_##N##_none() { return Factory::F().release(); }
K(complex, createComplexFFT)
K(bluestein, createBluesteinFFT)
K(real, createRealFFT)
K(dct, createDCT)
void vp_del_complex(ComplexFFT *p) { ComplexFFTPtr h(p); }
void vp_del_real(RealFFT *p) { RealFFTPtr h(p); }
void vp_del_dct(RealDCT *p) { RealDCTPtr h(p); }
}
