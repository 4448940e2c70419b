// Every public complex_t operation, applied through pointers so that the verifier can choose any aliasing.
#include <cmath>
#include <complex>
#include "otfft_complex.h"
using namespace OTFFT;
typedef std::complex<double> sc;
extern "C" {
// r = op(...)            the destination may be one of the operands
// twice: the operand is overwritten in between; both results are for the values at the time of the call
#define U(n, e) void vp_cx_##n(complex_t* r, complex_t* a) { *r = e; } \
  void vp_cx_##n##_twice(complex_t* r, complex_t* a, complex_t* b) { complex_t t = e; *a = *b; complex_t u = e; r[0] = t; r[1] = u; }
#define D(n, e) void vp_cx_##n(double* r, complex_t* a) { *r = e; } \
  void vp_cx_##n##_twice(complex_t* r, complex_t* a, complex_t* b) { double t = e; *a = *b; double u = e; r[0].Re = t; r[1].Re = u; r[0].Im = 0; r[1].Im = 0; }
#define B(n, e) void vp_cx_##n(complex_t* r, complex_t* a, complex_t* b) { *r = e; } \
  void vp_cx_##n##_twice(complex_t* r, complex_t* a, complex_t* b, complex_t* c) { complex_t t = e; *a = *c; complex_t u = e; r[0] = t; r[1] = u; }
#define X(n, e) void vp_cx_##n(complex_t* r, complex_t* a, double* x) { *r = e; } \
  void vp_cx_##n##_twice(complex_t* r, complex_t* a, double* x, complex_t* c, double* y) { complex_t t = e; *a = *c; *x = *y; complex_t u = e; r[0] = t; r[1] = u; }
D(Re, Re(*a)) D(Im, Im(*a)) D(norm, norm(*a)) D(abs, abs(*a)) D(arg, arg(*a))
U(conj, conj(*a)) U(jx, jx(*a)) U(neg, neg(*a)) U(mjx, mjx(*a))
B(add, *a + *b) B(sub, *a - *b) B(mul, *a * *b) B(div, *a / *b)
X(scale, *x * *a) X(over, *a / *x) X(addd, *a + *x) X(dadd, *x + *a) X(subd, *a - *x) X(dsub, *x - *a) X(dover, complex_t(*x) / *a)
#define E(n, e) void vp_cx_##n(complex_t* r, double* x, double* y) { *r = e; }
E(polar, polar(*x, *y)) E(expj, expj(*x)) E(ctor2, complex_t(*x, *y)) E(ctor1, complex_t(*x)) E(assignd, *x) E(ctorsc, complex_t(sc(*x, *y)))
E(ctor0, (complex_t()))
void vp_cx_expj_twice(complex_t* r, double* x, double* y) { complex_t t = expj(*x); *x = *y; complex_t u = expj(*x); r[0] = t; r[1] = u; }
U(copy, complex_t(*a)) U(tosc, complex_t(sc(*a)))
void vp_cx_tosc2(double* r, complex_t* a) { sc z = *a; r[0] = z.real(); r[1] = z.imag(); }
// compound assignments return the object itself
#define C(n, op) complex_t* vp_cx_##n(complex_t* a, complex_t* b) { return &(*a op *b); }
#define S(n, op) complex_t* vp_cx_##n(complex_t* a, double* x) { return &(*a op *x); }
C(iadd, +=) C(isub, -=) C(imul, *=) S(imuld, *=) S(idivd, /=) S(iaddd, +=) S(isubd, -=)
}
