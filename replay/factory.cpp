// Runs the public factories and deleters (src/otfft.cpp of the current tree, its cpuid and xgetbv instructions redirected here)
// on simulated processors; the backends are stand-ins that record what they are asked for.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include "otfft.h"
using namespace OTFFT;
struct Cpu { uint32_t maxleaf, c1, d1, b7, xcr; };
static Cpu cpu;
static bool trapped;
struct Ev { int what; std::string back, kind; int n; void *p; };
static std::vector<Ev> evs;
static bool failing;
extern "C" {
void vp_cpuid_c(uint32_t leaf, uint32_t sub, uint32_t *o);
void vp_xgetbv_c(uint32_t x, uint32_t *o);
void vp_record_trap() { trapped = true; }
}
namespace sim { Cpu *state() { return &cpu; } bool *trap() { return &trapped; } }
static void *make(const char *b, const char *k, int n) { if (failing) { evs.push_back({0, b, k, n, nullptr}); throw std::bad_alloc(); } void *p = std::malloc(64); std::memset(p, 0, 64); evs.push_back({0, b, k, n, p}); return p; }
static void del(const char *b, const char *k, void *p) { evs.push_back({1, b, k, 0, p}); }
#define BACKEND(B) namespace OTFFT_##B { \
    void unique_ptr_deleter(ComplexFFT *p) { del(#B, "ComplexFFT", p); } \
    void unique_ptr_deleter(RealFFT *p) { del(#B, "RealFFT", p); } \
    void unique_ptr_deleter(RealDCT *p) { del(#B, "RealDCT", p); } \
    namespace Factory { \
    ComplexFFT *createComplexFFT(int n) { return (ComplexFFT *)make(#B, "complex", n); } \
    ComplexFFT *createBluesteinFFT(int n) { return (ComplexFFT *)make(#B, "bluestein", n); } \
    RealFFT *createRealFFT(int n) { return (RealFFT *)make(#B, "real", n); } \
    RealDCT *createDCT(int n) { return (RealDCT *)make(#B, "dct", n); } } }
BACKEND(SSE2) BACKEND(AVX) BACKEND(AVX2)
extern "C" {
#define D(N) void *vp_fac_##N##_AUTO(int); void *vp_fac_##N##_SSE2(int); void *vp_fac_##N##_AVX(int); void *vp_fac_##N##_AVX2(int); void *vp_fac_##N##_default(int); void *vp_fac_##N##_none();
D(complex) D(bluestein) D(real) D(dct)
void vp_del_complex(ComplexFFT *); void vp_del_real(RealFFT *); void vp_del_dct(RealDCT *);
}
static int bad;
static void fail(const std::string& w)
{
    if (bad++ < 3) std::printf("FAIL %s on a processor with maxleaf=%u leaf1.ecx=%08x leaf1.edx=%08x leaf7.ebx=%08x xcr0=%x\n", w.c_str(), cpu.maxleaf, cpu.c1, cpu.d1, cpu.b7, cpu.xcr);
}
static bool has(uint32_t l) { return cpu.maxleaf >= l; }
static bool sup(const std::string& b)
{
    bool osx = has(1) && (cpu.c1 >> 27 & 1), ymm = osx && (cpu.xcr & 6) == 6, avx = ymm && (cpu.c1 >> 28 & 1);
    if (b == "SSE2") return has(1) && (cpu.d1 >> 26 & 1);
    if (b == "AVX") return avx;
    return avx && has(7) && (cpu.b7 >> 5 & 1);
}
static std::string expected(const std::string& o)
{
    if (o == "SSE2" || o == "AVX" || o == "AVX2") return sup(o) ? o : "";
    for (const char *b : {"AVX2", "AVX", "SSE2"}) if (sup(b)) return b;
    return "";
}
static void one(const std::string& kind, const std::string& o, void *(*f)(int), int n)
{
    std::string w = "create " + kind + "(" + std::to_string(n) + ", " + o + ")", e = expected(o);
    evs.clear(); trapped = false;
    void *p = nullptr; std::string out;
    try { p = f(n); } catch (const std::domain_error&) { out = "domain_error"; } catch (const std::bad_alloc&) { out = "bad_alloc"; } catch (...) { out = "other"; }
    if (trapped) { fail(w + ": XGETBV executed without OSXSAVE"); return; }
    if (e.empty()) { if (out != "domain_error" || !evs.empty()) fail(w + ": expected std::domain_error"); return; }
    if (failing) { if (out != "bad_alloc" || evs.size() != 1) fail(w + ": std::bad_alloc is not passed on"); return; }
    if (!out.empty()) { fail(w + ": throws " + out); return; }
    if (evs.size() != 1 || evs[0].what != 0) { fail(w + ": expected one object"); return; }
    if (evs[0].back != e) fail(w + ": backend " + evs[0].back + ", expected " + e);
    if (evs[0].kind != kind) fail(w + ": kind " + evs[0].kind);
    if (evs[0].n != n) fail(w + ": length " + std::to_string(evs[0].n));
    if (evs[0].p != p) fail(w + ": another object");
}
static void drop(const char *kind, void (*f)(void *))
{
    for (int null = 0; null < 2; null++) {
        if (!null && expected("AUTO").empty()) continue;
        void *p = null ? nullptr : std::malloc(64);
        if (p) std::memset(p, 0, 64);
        evs.clear(); trapped = false;
        std::string w = std::string(null ? "delete empty " : "delete ") + kind;
        try { f(p); } catch (...) { fail(w + ": throws"); continue; }
        if (trapped) { fail(w + ": XGETBV executed without OSXSAVE"); continue; }
        if (null) { if (!evs.empty()) fail(w + ": calls a backend"); continue; }
        if (evs.size() != 1 || evs[0].what != 1 || evs[0].p != p || evs[0].kind != kind) { fail(w + ": does not destroy exactly that object"); continue; }
        if (!sup(evs[0].back)) fail(w + ": uses unsupported backend " + evs[0].back);
    }
}
#define ALL(N) [](int r) { for (int n : {0, 1, 7, 4096, 1000000}) { \
    one(#N, "AUTO", vp_fac_##N##_AUTO, n); one(#N, "SSE2", vp_fac_##N##_SSE2, n); one(#N, "AVX", vp_fac_##N##_AVX, n); one(#N, "AVX2", vp_fac_##N##_AVX2, n); one(#N, "default", vp_fac_##N##_default, n); } \
    one(#N, "none", [](int) { return vp_fac_##N##_none(); }, 0); (void)r; }
static void run(int first)
{
    typedef void (*F)(int);
    static const F mk[] = {ALL(complex), ALL(bluestein), ALL(real), ALL(dct)};
    auto dl = []() {
        drop("ComplexFFT", [](void *p) { vp_del_complex((ComplexFFT *)p); });
        drop("RealFFT", [](void *p) { vp_del_real((RealFFT *)p); });
        drop("RealDCT", [](void *p) { vp_del_dct((RealDCT *)p); });
    };
    if (first == 4) dl();
    for (int i = 0; i < 8; i++) { failing = i >= 4 && i < 6; mk[(first + i) % 4](0); }
    failing = false;
    dl();
}
int main()
{
    int configs = 0, fails = 0;
    for (uint32_t ml : {0u, 1u, 4u, 6u, 7u, 13u})
    for (uint32_t c : {0u, 1u << 26, 3u << 26, 5u << 26, 7u << 26, 0xefffffffu, 0xf7ffffffu, 0xffffffffu, 0xfbffffffu & ~(3u << 27)})
    for (uint32_t d : {0u, 1u << 25, 1u << 26, 3u << 25, 0xffffffffu, ~(3u << 25)})
    for (uint32_t b : {0u, 1u << 5, 0xffffffffu, ~(1u << 5)})
    for (uint32_t x : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 0xe7u, 0xe3u}) {
        bool osx = c >> 27 & 1, avx = c >> 28 & 1;
        if (osx && !(c >> 26 & 1)) continue;
        if (avx && (!(c >> 26 & 1) || (d >> 25 & 3) != 3)) continue;
        if (ml >= 7 && (b >> 5 & 1) && !avx) continue;
        if (ml >= 1 && osx && (x & 6) == 6 && !avx) continue;
        cpu.maxleaf = ml; cpu.c1 = c; cpu.d1 = d; cpu.b7 = b; cpu.xcr = x;
        configs++;
        pid_t p = fork();
        if (p == 0) { run(configs % 5); std::fflush(stdout); _exit(bad ? 1 : 0); }
        int s; waitpid(p, &s, 0);
        if (s) { if (!WIFEXITED(s)) fail("abnormal end of the program"); if (++fails > 5) break; }
    }
    std::printf("%d processors, %d failing\n", configs, fails);
    return fails ? 1 : 0;
}
