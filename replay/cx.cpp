// Runs every complex_t operation of harness/cx.cpp (compiled separately from the current header) on concrete operands with
// every aliasing of the pointers and compares with long double arithmetic.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <functional>
#include "otfft_complex.h"
typedef OTFFT::complex_t Z;
typedef std::complex<long double> L;
extern "C" {
#define F1(n) void vp_cx_##n(void*, void*); void vp_cx_##n##_twice(void*, void*, void*);
#define F2(n) void vp_cx_##n(void*, void*, void*); void vp_cx_##n##_twice(void*, void*, void*, void*);
#define F3(n) void vp_cx_##n(void*, void*, void*); void vp_cx_##n##_twice(void*, void*, void*, void*, void*);
#define FE(n) void vp_cx_##n(void*, void*, void*);
#define FI(n) void* vp_cx_##n(void*, void*);
F1(Re) F1(Im) F1(norm) F1(abs) F1(arg) F1(conj) F1(jx) F1(neg) F1(mjx) F1(copy) F1(tosc)
F2(add) F2(sub) F2(mul) F2(div)
F3(scale) F3(over) F3(addd) F3(dadd) F3(subd) F3(dsub) F3(dover)
FE(polar) FE(expj) FE(ctor2) FE(ctor1) FE(assignd) FE(ctorsc) FE(ctor0)
void vp_cx_expj_twice(void*, void*, void*);
FI(iadd) FI(isub) FI(imul) FI(imuld) FI(idivd) FI(iaddd) FI(isubd)
void vp_cx_tosc2(void*, void*);
}
static bool special;
static long double rnd() { static const double s[] = {0, 1, -1, -2, 0.5}; if (special && std::rand() % 5 < 2) return s[std::rand() % 5]; return (std::rand() % 2001 - 1000)/128.0L + 1/1024.0L; }
static int bad = 0;
static std::string cur;
static void expect(const char* w, double got, long double want, long double scale)
{
    if (std::isnan(want) || std::isinf(want)) return;  // a divisor was zero
    if (!(fabsl(got - want) <= 1e-12L*(scale + fabsl(want)))) {
        if (bad++ < 10) std::printf("FAIL %s: %s is %.17g, expected %.17Lg\n", cur.c_str(), w, got, want);
    }
}
static void expectz(const char* w, const Z& g, L v) { expect((std::string(w) + ".Re").c_str(), g.Re, v.real(), std::abs(v)); expect((std::string(w) + ".Im").c_str(), g.Im, v.imag(), std::abs(v)); }
static L l(const Z& z) { return L(z.Re, z.Im); }
static void fill(Z* z, double* d) { for (int i = 0; i < 4; i++) { z[i] = Z(rnd(), rnd()); d[i] = rnd(); } }
typedef std::function<L(L, L)> G;
static Z z[4], out[2]; static double d[4];
static std::string nm(const char* n, int a, int b = -1, int c = -1) { char s[99]; std::snprintf(s, 99, "%s operands %d %d %d", n, a, b, c); return s; }
static void un(const char* n, void (*f)(void*, void*), void (*t)(void*, void*, void*), G g)
{
    for (int r = 0; r < 2; r++) { fill(z, d); cur = nm(n, r, 0); L e = g(l(z[0]), 0); f(&z[r], &z[0]); expectz("result", z[r], e); }
    for (int b = 0; b < 2; b++) { fill(z, d); cur = nm(n, 0, b) + " (twice)"; L e = g(l(z[0]), 0), h = g(l(z[b]), 0); t(out, &z[0], &z[b]); expectz("first", out[0], e); expectz("second", out[1], h); }
}
static void re(const char* n, void (*f)(void*, void*), void (*t)(void*, void*, void*), G g)
{
    for (int r = 0; r < 3; r++) { fill(z, d); cur = nm(n, r, 0); long double e = g(l(z[0]), 0).real(); double* p = r == 0 ? &d[0] : r == 1 ? &z[0].Re : &z[0].Im; f(p, &z[0]); expect("result", *p, e, 1); }
    for (int b = 0; b < 2; b++) { fill(z, d); cur = nm(n, 0, b) + " (twice)"; long double e = g(l(z[0]), 0).real(), h = g(l(z[b]), 0).real(); t(out, &z[0], &z[b]); expect("first", out[0].Re, e, 1); expect("second", out[1].Re, h, 1); }
}
static void bin(const char* n, void (*f)(void*, void*, void*), void (*t)(void*, void*, void*, void*), G g)
{
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { fill(z, d); cur = nm(n, 0, a, b); L e = g(l(z[a]), l(z[b])); f(&z[0], &z[a], &z[b]); expectz("result", z[0], e); }
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { fill(z, d); cur = nm(n, 0, a, b) + " (twice)"; L e = g(l(z[0]), l(z[a])); Z y[3] = {z[0], z[1], z[2]}; y[0] = y[b]; L h = g(l(y[0]), l(y[a])); t(out, &z[0], &z[a], &z[b]); expectz("first", out[0], e); expectz("second", out[1], h); }
}
static double* dp(int i) { return i == 0 ? &d[0] : i == 1 ? &z[0].Re : i == 2 ? &z[0].Im : i == 3 ? &z[1].Re : &z[1].Im; }
static void mix(const char* n, void (*f)(void*, void*, void*), void (*t)(void*, void*, void*, void*, void*), G g)
{
    for (int a = 0; a < 2; a++) for (int x = 0; x < 5; x++) { fill(z, d); cur = nm(n, 0, a, x); L e = g(l(z[a]), *dp(x)); f(&z[0], &z[a], dp(x)); expectz("result", z[0], e); }
    for (int c = 0; c < 2; c++) for (int x = 0; x < 5; x++) {
        fill(z, d); cur = nm(n, 0, c, x) + " (twice)"; L e = g(l(z[0]), *dp(x));
        Z sz[4]; double sd[4]; std::memcpy(sz, z, sizeof z); std::memcpy(sd, d, sizeof d);
        z[0] = z[c]; *dp(x) = d[1]; L h = g(l(z[0]), *dp(x));
        std::memcpy(z, sz, sizeof z); std::memcpy(d, sd, sizeof d);
        t(out, &z[0], dp(x), &z[c], &d[1]); expectz("first", out[0], e); expectz("second", out[1], h);
    }
}
static void ctor(const char* n, void (*f)(void*, void*, void*), G g)
{
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) { fill(z, d); cur = nm(n, 0, x, y); L e = g(*dp(x), *dp(y)); f(&z[0], dp(x), dp(y)); expectz("result", z[0], e); }
}
static void inz(const char* n, void* (*f)(void*, void*), G g)
{
    for (int a = 0; a < 2; a++) { fill(z, d); cur = nm(n, 0, a); L e = g(l(z[0]), l(z[a])); if (f(&z[0], &z[a]) != &z[0]) { bad++; std::printf("FAIL %s: wrong object returned\n", n); } expectz("object", z[0], e); }
}
static void ind(const char* n, void* (*f)(void*, void*), G g)
{
    for (int x = 0; x < 5; x++) { fill(z, d); cur = nm(n, 0, x); L e = g(l(z[0]), *dp(x)); if (f(&z[0], dp(x)) != &z[0]) { bad++; std::printf("FAIL %s: wrong object returned\n", n); } expectz("object", z[0], e); }
}
#define A(n) #n, vp_cx_##n, vp_cx_##n##_twice
int main(int, char** v)
{
    std::srand(std::atoi(v[1]));
    const L I(0, 1);
    for (int k = 0; k < 200; k++) {
        special = k >= 50;
        re(A(Re), [](L a, L) { return L(a.real()); }); re(A(Im), [](L a, L) { return L(a.imag()); }); re(A(norm), [](L a, L) { return L(std::norm(a)); });
        re(A(abs), [](L a, L) { return L(std::abs(a)); }); re(A(arg), [](L a, L) { return L(std::arg(a)); });
        un(A(conj), [](L a, L) { return std::conj(a); }); un(A(jx), [I](L a, L) { return I*a; }); un(A(neg), [](L a, L) { return -a; });
        un(A(mjx), [I](L a, L) { return -I*a; }); un(A(copy), [](L a, L) { return a; }); un(A(tosc), [](L a, L) { return a; });
        bin(A(add), [](L a, L b) { return a + b; }); bin(A(sub), [](L a, L b) { return a - b; }); bin(A(mul), [](L a, L b) { return a*b; }); bin(A(div), [](L a, L b) { return a/b; });
        mix(A(scale), [](L a, L b) { return a*b; }); mix(A(over), [](L a, L b) { return a/b; }); mix(A(addd), [](L a, L b) { return a + b; }); mix(A(dadd), [](L a, L b) { return a + b; });
        mix(A(subd), [](L a, L b) { return a - b; }); mix(A(dsub), [](L a, L b) { return b - a; }); mix(A(dover), [](L a, L b) { return b/a; });
        ctor("polar", vp_cx_polar, [](L a, L b) { return L(a.real()*cosl(b.real()), a.real()*sinl(b.real())); });
        ctor("expj", vp_cx_expj, [](L a, L) { return L(cosl(a.real()), sinl(a.real())); });
        ctor("ctor2", vp_cx_ctor2, [](L a, L b) { return L(a.real(), b.real()); }); ctor("ctorsc", vp_cx_ctorsc, [](L a, L b) { return L(a.real(), b.real()); });
        ctor("ctor1", vp_cx_ctor1, [](L a, L) { return a; }); ctor("assignd", vp_cx_assignd, [](L a, L) { return a; }); ctor("ctor0", vp_cx_ctor0, [](L, L) { return L(0); });
        inz("+=", vp_cx_iadd, [](L a, L b) { return a + b; }); inz("-=", vp_cx_isub, [](L a, L b) { return a - b; }); inz("*=", vp_cx_imul, [](L a, L b) { return a*b; });
        ind("*= double", vp_cx_imuld, [](L a, L b) { return a*b; }); ind("/= double", vp_cx_idivd, [](L a, L b) { return a/b; });
        ind("+= double", vp_cx_iaddd, [](L a, L b) { return a + b; }); ind("-= double", vp_cx_isubd, [](L a, L b) { return a - b; });
        fill(z, d); cur = "expj (twice)"; { double x = d[0], y = d[1]; vp_cx_expj_twice(out, &d[0], &d[1]); expectz("first", out[0], L(cosl(x), sinl(x))); expectz("second", out[1], L(cosl(y), sinl(y))); }
        fill(z, d); cur = "conversion"; { L e = l(z[0]); vp_cx_tosc2(d, &z[0]); expect("real", d[0], e.real(), 1); expect("imag", d[1], e.imag(), 1); }
    }
    std::printf("%d failures\n", bad);
    return bad ? 1 : 0;
}
