// Round trips on the real library: round kind n backend mask seed threads [delay]; the transform of every mode in mask, then its inverse.
#include "otfft.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <random>
#include <omp.h>
using namespace OTFFT;
static OptimizationType opt(int b) { return b == 1 ? OptimizationType::OPTIMIZED_FFT_SSE2 : b == 2 ? OptimizationType::OPTIMIZED_FFT_AVX : b == 3 ? OptimizationType::OPTIMIZED_FFT_AVX2 : OptimizationType::OPTIMIZED_FFT_AUTO; }
static const char *mn[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
static const int partner[] = {4, 7, 6, 4, 0, 0, 2, 1};
template<class T> static void cplx(T& f, int m, complex_vector x) { switch (m) { case 0: f.fwd(x); break; case 1: f.fwd0(x); break; case 2: f.fwdu(x); break; case 3: f.fwdn(x); break; case 4: f.inv(x); break; case 5: f.inv0(x); break; case 6: f.invu(x); break; case 7: f.invn(x); break; } }
static void cosn(RealDCT& f, int m, double_vector x) { switch (m) { case 0: f.fwd(x); break; case 1: f.fwd0(x); break; case 3: f.fwdn(x); break; case 4: f.inv(x); break; case 5: f.inv0(x); break; case 7: f.invn(x); break; } }
static void rf(RealFFT& f, int m, double_vector x, complex_vector y) { switch (m) { case 0: f.fwd(x, y); break; case 1: f.fwd0(x, y); break; case 2: f.fwdu(x, y); break; case 3: f.fwdn(x, y); break; case 4: f.inv(y, x); break; case 5: f.inv0(y, x); break; case 6: f.invu(y, x); break; case 7: f.invn(y, x); break; } }
int main(int argc, char **argv)
{
    if (argc < 7) return 2;
    std::string k = argv[1];
    int n = std::atoi(argv[2]), b = std::atoi(argv[3]), mask = std::atoi(argv[4]), fails = 0;
    omp_set_num_threads(std::atoi(argv[6]));
    std::mt19937_64 g(std::atoi(argv[5])*7919 + n);
    std::normal_distribution<double> d;
    ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr t;
    if (k == "complex") c = Factory::createComplexFFT(n, opt(b));
    if (k == "bluestein") c = Factory::createBluesteinFFT(n, opt(b));
    if (k == "real") r = Factory::createRealFFT(n, opt(b));
    if (k == "dct") t = Factory::createDCT(n, opt(b));
    for (int m = 0; m < 8; m++) if (mask >> m & 1) {
        if (t && (m == 2 || m == 6)) continue;
        std::vector<double> xb(2*n + 8), yb(2*n + 8), w;
        double *x = xb.data(), *y = yb.data();
        while ((size_t)x % 64) x++;
        while ((size_t)y % 64) y++;
        for (int i = 0; i < 2*n; i++) { x[i] = d(g); y[i] = d(g); }
        double *o = x;
        if (c) { w.assign(x, x + 2*n); cplx(*c, m, (complex_t *)x); cplx(*c, partner[m], (complex_t *)x); }
        if (t) { w.assign(x, x + n); cosn(*t, m, x); cosn(*t, partner[m], x); }
        if (r) {
            for (int i = 0; i < n; i++) if (n - i > i && i) { y[2*(n - i)] = y[2*i]; y[2*(n - i) + 1] = -y[2*i + 1]; } else if (i == 0 || n - i == i) y[2*i + 1] = 0;
            if (m < 4) w.assign(x, x + n); else w.assign(y, y + 2*n);
            rf(*r, m, x, (complex_t *)y); rf(*r, partner[m], x, (complex_t *)y);
            if (m >= 4) o = y;
        }
        double mx = 0, e = 0; size_t at = 0;
        for (double v : w) mx = std::max(mx, std::fabs(v));
        for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(o[i] - w[i]) <= e)) { e = std::fabs(o[i] - w[i]); at = i; }
        if (!(e <= 1e-11*mx)) { fails++; std::printf("FAIL %s n=%d %s then %s, backend=%d threads=%s seed=%s: element %d is %g, was %g\n", k.c_str(), n, mn[m], mn[partner[m]], b, argv[6], argv[5], (int)at, o[at], w[at]); }
    }
    if (!fails) std::printf("OK\n");
    return fails != 0;
}
