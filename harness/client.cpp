// Client scenarios: plain calls through the public interface of one backend, compiled to IR together with
// the real sources on every run.  Nothing of the library is re-implemented here.
#include "otfft_types.h"
#include "otfft_misc.h"
#include "otfft.h"
#include "otfft_platform.h"
#ifdef USE_AVX2
#include "otfft_avx2.h"
#endif
#ifdef USE_AVX
#include "otfft_avx.h"
#endif
#ifdef USE_SSE2
#include "otfft_sse2.h"
#endif
using namespace OTFFT;
namespace NS = OTFFT_NAMESPACE;
extern "C" {
ComplexFFT* vp_new_complex(int n)   { return NS::Factory::createComplexFFT(n); }
ComplexFFT* vp_new_bluestein(int n) { return NS::Factory::createBluesteinFFT(n); }
RealFFT*    vp_new_real(int n)      { return NS::Factory::createRealFFT(n); }
RealDCT*    vp_new_dct(int n)       { return NS::Factory::createDCT(n); }
#define IF1(K,T,X) \
void vp_##K##_setup(T* p, int n) { p->setup(n); } \
void vp_##K##_delete(T* p) { NS::unique_ptr_deleter(p); }
IF1(complex, ComplexFFT, )
IF1(real, RealFFT, )
IF1(dct, RealDCT, )
#define C1(m) void vp_complex_##m(ComplexFFT* p, complex_vector x) { p->m(x); }
C1(fwd) C1(fwd0) C1(fwdu) C1(fwdn) C1(inv) C1(inv0) C1(invu) C1(invn)
#define R1(m) void vp_real_##m(RealFFT* p, const_double_vector x, complex_vector y) { p->m(x, y); }
R1(fwd) R1(fwd0) R1(fwdu) R1(fwdn)
#define R2(m) void vp_real_##m(RealFFT* p, complex_vector x, double_vector y) { p->m(x, y); }
R2(inv) R2(inv0) R2(invu) R2(invn)
#define D1(m) void vp_dct_##m(RealDCT* p, double_vector x) { p->m(x); }
D1(fwd) D1(fwd0) D1(fwdn) D1(inv) D1(inv0) D1(invn)
}
