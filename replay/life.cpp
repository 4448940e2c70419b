// Histories of construction, setup, transforms and destruction of the real library's objects, with allocation failures.
//   life hist  kind back seed : after any history an object behaves like a new one of its length
//   life fault kind back seed : every block is released once, also when an allocation fails
// Every block handed out is filled with NaN patterns, every released block too, and it is not handed out again for a while.
#include "otfft.h"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <cmath>
#include <new>
#include <exception>
#include <malloc.h>
using namespace OTFFT;
// ------------------------------------------------------------------ allocation events
struct Blk { void *p; size_t n; int how; bool live; };       // how: 1 operator new, 2 operator new[], 3 C allocation
static const int MAXB = 1 << 16;
static Blk blk[MAXB];
static int nblk = 0;
static long allocs = 0, failat = -1;
static bool tracking = false;
static int fails = 0;
static char what[512];
static void bad(const char *w) { if (fails++ < 5) { std::fprintf(stdout, "FAIL %s: %s\n", what, w); std::fflush(stdout); } }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
}
static void *take(void *p, size_t n, int how)
{
    if (!p) return p;
    std::memset(p, 0xFF, n);
    if (tracking) { if (nblk == MAXB) { std::printf("FAIL too many blocks\n"); std::_Exit(1); } blk[nblk++] = {p, n, how, true}; }
    return p;
}
static bool refuse() { return tracking && ++allocs == failat; }
static void give(void *p, int how)
{
    if (!p) return;
    for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) {
        if (!blk[i].live) { bad("a block is released twice"); return; }
        if (blk[i].how != how) bad("a block is released by a function that does not match its allocation");
        blk[i].live = false;
        std::memset(p, 0xFF, blk[i].n);        // kept until the case is over
        return;
    }
    if (tracking) { bad("something that was not allocated is released"); return; }
    __real_free(p);
}
static void drain() { for (int i = 0; i < nblk; i++) __real_free(blk[i].p); nblk = 0; }
static int left() { int c = 0; for (int i = 0; i < nblk; i++) c += blk[i].live; return c; }
extern "C" {
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : take(__real_malloc(n), n, 3); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse()) return nullptr; void *p = take(__real_malloc(a*b), a*b, 3); if (p) std::memset(p, 0, a*b); return p; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return refuse() ? nullptr : take(__real_aligned_alloc(al, n), n, 3); }
int __wrap_posix_memalign(void **q, size_t al, size_t n) { if (refuse()) return 12; int r = __real_posix_memalign(q, al, n); if (!r) take(*q, n, 3); return r; }
void __wrap_free(void *p) { give(p, 3); }
}
void *operator new(size_t n) { void *p; if (refuse() || !(p = take(__real_malloc(n ? n : 1), n, 1))) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p; if (refuse() || !(p = take(__real_malloc(n ? n : 1), n, 2))) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : take(__real_malloc(n ? n : 1), n, 1); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : take(__real_malloc(n ? n : 1), n, 2); }
void operator delete(void *p) noexcept { give(p, 1); }
void operator delete[](void *p) noexcept { give(p, 2); }
void operator delete(void *p, size_t) noexcept { give(p, 1); }
void operator delete[](void *p, size_t) noexcept { give(p, 2); }
// ------------------------------------------------------------------ objects
static OptimizationType opt(int b) { return b == 1 ? OptimizationType::OPTIMIZED_FFT_SSE2 : b == 2 ? OptimizationType::OPTIMIZED_FFT_AVX : b == 3 ? OptimizationType::OPTIMIZED_FFT_AVX2 : OptimizationType::OPTIMIZED_FFT_AUTO; }
static int back = 0;
static uint64_t rs = 1;
static double rnd() { rs = rs*6364136223846793005ull + 1442695040888963407ull; return (double)(int64_t)(rs >> 11)/(double)(1ll << 52) - 1.0; }
struct Obj
{
    char k;
    ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d;
    explicit Obj(char k_) : k(k_) {}
    void make(int n) { if (k == 'c') c = Factory::createComplexFFT(n, opt(back)); if (k == 'b') c = Factory::createBluesteinFFT(n, opt(back)); if (k == 'r') r = Factory::createRealFFT(n, opt(back)); if (k == 'd') d = Factory::createDCT(n, opt(back)); }
    void fresh() { if (k == 'c') c = Factory::createComplexFFT(0, opt(back)); if (k == 'b') c = Factory::createBluesteinFFT(0, opt(back)); if (k == 'r') r = Factory::createRealFFT(0, opt(back)); if (k == 'd') d = Factory::createDCT(0, opt(back)); }
    void setup(int n) { if (c) c->setup(n); if (r) r->setup(n); if (d) d->setup(n); }
    void drop() { c.reset(); r.reset(); d.reset(); }
    // mode m on fixed data of length n; guard cells on both sides
    bool run(int m, int n, uint64_t seed, std::vector<double>& out)
    {
        const int G = 64;
        std::vector<double> xb(2*n + 2*G + 8), yb(2*n + 2*G + 8);
        rs = seed;
        for (auto& v : xb) v = std::nan("");
        for (auto& v : yb) v = std::nan("");
        double *x = xb.data() + G, *y = yb.data() + G;
        while ((uintptr_t)x % 64) x++;
        while ((uintptr_t)y % 64) y++;
        for (int i = 0; i < 2*n; i++) x[i] = rnd();
        if (k == 'r' && m >= 4 && n > 0) {     // Hermitian data
            for (int i = 1; i < n; i++) if (n - i > i) { x[2*(n - i)] = x[2*i]; x[2*(n - i) + 1] = -x[2*i + 1]; } else if (n - i == i) x[2*i + 1] = 0;
            x[1] = 0;
        }
        std::vector<double> x0(xb), y0(yb);
        complex_t *zx = (complex_t *)x, *zy = (complex_t *)y;
        int nx = 0, ny = 0;
        if (c) { nx = 2*n; switch (m) { case 0: c->fwd(zx); break; case 1: c->fwd0(zx); break; case 2: c->fwdu(zx); break; case 3: c->fwdn(zx); break; case 4: c->inv(zx); break; case 5: c->inv0(zx); break; case 6: c->invu(zx); break; case 7: c->invn(zx); break; } }
        if (d) { nx = n; switch (m) { case 0: d->fwd(x); break; case 1: d->fwd0(x); break; case 3: d->fwdn(x); break; case 4: d->inv(x); break; case 5: d->inv0(x); break; case 7: d->invn(x); break; } }
        if (r && m < 4) { ny = 2*n; switch (m) { case 0: r->fwd(x, zy); break; case 1: r->fwd0(x, zy); break; case 2: r->fwdu(x, zy); break; case 3: r->fwdn(x, zy); break; } }
        if (r && m >= 4) { nx = 2*n; ny = n; switch (m) { case 4: r->inv(zx, y); break; case 5: r->inv0(zx, y); break; case 6: r->invu(zx, y); break; case 7: r->invn(zx, y); break; } }
        bool ok = true;
        for (size_t i = 0; i < xb.size(); i++) if (&xb[i] < x || &xb[i] >= x + nx) ok &= !std::memcmp(&xb[i], &x0[i], 8);
        for (size_t i = 0; i < yb.size(); i++) if (&yb[i] < y || &yb[i] >= y + ny) ok &= !std::memcmp(&yb[i], &y0[i], 8);
        out.assign(ny ? y : x, ny ? y + ny : x + nx);
        return ok;
    }
};
static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    double m = 0;
    for (double v : b) m = std::max(m, std::fabs(v));
    for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-10*m)) return false;
    return a.size() == b.size();
}
static const char *mn[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
static bool has(char k, int m) { return k != 'd' || (m != 2 && m != 6); }
// what a new object of this length computes
static std::vector<double> ref(char k, int n, int m, uint64_t s) { Obj o(k); o.make(n); std::vector<double> v; o.run(m, n, s, v); return v; }
static void behaves(Obj& o, int n, const char *h)
{
    std::vector<double> v;
    for (int rep = 0; rep < 2; rep++) for (int q = 0; q < 8; q++) {
        int m = rep ? 7 - q : q;
        if (!has(o.k, m)) continue;
        uint64_t s = 12345 + 17*n + m + 100*rep;
        bool in = o.run(m, n, s, v);
        std::snprintf(what, sizeof what, "%c %s then %s", o.k, h, mn[m]);
        if (!in) bad("writes outside its data");
        if (!same(v, ref(o.k, n, m, s))) bad("differs from a new object of this length");
        if (fails) return;
    }
}
static std::vector<int> lengths(char k, bool big)
{
    std::vector<int> L = {0, 2, 4, 6, 8, 16, 20, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096};
    if (k == 'c' || k == 'b') { L.push_back(1); L.push_back(3); L.push_back(15); L.push_back(21); L.push_back(243); L.push_back(999); }
    if (big) for (int n : {8192, 16384, 32768, 65536, 65538, 131072}) L.push_back(n);
    if (big && (k == 'c' || k == 'r')) { L.push_back(262144); L.push_back(524288); }
    return L;
}
static void hist(char k, uint64_t seed)
{
    auto L = lengths(k, false), B = lengths(k, true);
    char h[256];
    std::vector<double> v;
    for (int n : L) { Obj o(k); o.fresh(); o.setup(n); std::snprintf(h, sizeof h, "setup(%d)", n); behaves(o, n, h); if (fails) return; }
    for (int m : L) for (int n : L) {
        Obj o(k); o.make(m);
        if (m) o.run(has(k, (m + n) % 8) ? (m + n) % 8 : 0, m, 1, v);
        o.setup(n);
        std::snprintf(h, sizeof h, "object of length %d, one transform, setup(%d)", m, n);
        behaves(o, n, h);
        if (fails) return;
    }
    uint64_t r = seed*2654435761u + 99;
    auto next = [&](size_t c) { r = r*6364136223846793005ull + 1442695040888963407ull; return (size_t)(r >> 33) % c; };
    for (int t = 0; t < 40; t++) {
        Obj o(k);
        std::string s = "history";
        o.fresh();
        for (int i = 0; i < 4; i++) { int n = B[next(B.size())]; o.setup(n); s += " setup(" + std::to_string(n) + ")"; if (i == 3) behaves(o, n, s.c_str()); else for (int j = 0; j < 2; j++) { int m = (int)next(8); if (has(k, m)) o.run(m, n, 7, v); } }
        if (fails) return;
    }
}
// one case: object of length m (-1: default constructor), setup(n), end; the k-th allocation fails
static long fault(char k, int m, int n, long at, bool again)
{
    long cnt;
    std::snprintf(what, sizeof what, "%c object of length %d, setup(%d), allocation %ld fails%s", k, m, n, at, again ? ", setup again" : "");
    allocs = 0; failat = at;
    tracking = true;
    {
        Obj o(k);
        bool made = false, done = false;
        try { if (m < 0) o.fresh(); else o.make(m); made = true; } catch (const std::bad_alloc&) {} catch (...) { bad("failure is not reported as std::bad_alloc"); }
        if (!made && at < 0) bad("construction throws without a failure");
        if (!made && left()) bad("a failed construction leaves memory allocated");
        if (made) {
            try { o.setup(n); done = true; } catch (const std::bad_alloc&) {} catch (...) { bad("failure is not reported as std::bad_alloc"); }
            if (!done && allocs < at) bad("setup throws without a failure");
            if (!done && again) {
                failat = -1;
                try { o.setup(n); done = true; } catch (...) { bad("setup after a failed one throws"); }
            }
        }
        cnt = allocs;
        if (done) {
            tracking = false;
            for (int md : {1, 4}) { std::vector<double> v; bool in = o.run(md, n, 5, v); if (!in || !same(v, ref(k, n, md, 5))) bad("the object does not work after this history"); }
            tracking = true;
        }
        failat = -1;
        o.drop();
    }
    tracking = false;
    if (left()) bad("memory is not released");
    drain();
    return cnt;
}
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    std::string w = argv[1];
    char k = argv[2][0];
    back = std::atoi(argv[3]);
    uint64_t seed = std::strtoull(argv[4], 0, 10);
    { Obj o(k); o.make(64); o.setup(65536); }      // the runtime's own allocations
    if (w == "hist") hist(k, seed);
    else {
        std::vector<int> L = {0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 6, 30, 4096, 8192, 65536, 131072, 262144};
        std::vector<int> M = {-1, 0, 2, 8, 64, 1024, 30, 65536, 262144};
        for (int m : M) for (int n : L) {
            long c = fault(k, m, n, -1, false);
            for (long i = 1; i <= c && !fails; i++) { fault(k, m, n, i, false); if (!fails) fault(k, m, n, i, true); }
            if (fails) break;
        }
        // several histories in a row on one object
        for (int m : M) for (int n : M) if (!fails && m >= 0 && n >= 0) {
            std::snprintf(what, sizeof what, "%c object of length %d, setup(%d), setup(%d), setup(%d)", k, m, n, m, n);
            tracking = true; allocs = 0; failat = -1;
            { Obj o(k); o.make(m); o.setup(n); o.setup(m); o.setup(n); o.drop(); }
            tracking = false;
            if (left()) bad("memory is not released");
            drain();
        }
    }
    if (!fails) std::printf("OK\n");
    return fails != 0;
}
