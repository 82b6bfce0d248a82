// Wrappers around neo::scalar_complex and the complex helpers.
#include <neo/complex.hpp>
#include <neo/complex/scalar_complex.hpp>
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/real.hpp>
#include <neo/math/polar.hpp>
#include <neo/math/float_equality.hpp>
#include <neo/fixed_point/complex.hpp>
#include <complex>
using namespace neo;

#define CPLX(N, C, F)                                                                                                  \
    extern "C" void N##_add(C const* a, C const* b, C* o) { *o = *a + *b; }                                            \
    extern "C" void N##_sub(C const* a, C const* b, C* o) { *o = *a - *b; }                                            \
    extern "C" void N##_mul(C const* a, C const* b, C* o) { *o = *a * *b; }                                            \
    extern "C" void N##_div(C const* a, C const* b, C* o) { *o = *a / *b; }                                            \
    extern "C" void N##_pos(C const* a, C* o) { *o = +*a; }                                                            \
    extern "C" void N##_neg(C const* a, C* o) { *o = -*a; }                                                            \
    extern "C" void N##_iadd(C* a, C const* b) { *a += *b; }                                                           \
    extern "C" void N##_isub(C* a, C const* b) { *a -= *b; }                                                           \
    extern "C" void N##_imul(C* a, C const* b) { *a *= *b; }                                                           \
    extern "C" void N##_idiv(C* a, C const* b) { *a /= *b; }                                                           \
    extern "C" void N##_imuls(C* a, F b) { *a *= b; }                                                                  \
    extern "C" void N##_idivs(C* a, F b) { *a /= b; }                                                                  \
    extern "C" void N##_make(F a, F b, C* o) { *o = C{a, b}; }                                                         \
    extern "C" void N##_make1(F a, C* o) { *o = C{a}; }                                                                \
    extern "C" void N##_setre(C* a, F b) { a->real(b); }                                                               \
    extern "C" void N##_setim(C* a, F b) { a->imag(b); }                                                               \
    extern "C" F N##_real(C const* a) { return a->real(); }                                                            \
    extern "C" F N##_imag(C const* a) { return a->imag(); }                                                            \
    extern "C" F N##_get0(C const* a) { return get<0>(*a); }                                                           \
    extern "C" F N##_get1(C const* a) { return get<1>(*a); }                                                           \
    extern "C" F N##_mreal(C const* a) { return math::real(*a); }                                                      \
    extern "C" F N##_mimag(C const* a) { return math::imag(*a); }                                                      \
    extern "C" void N##_conj(C const* a, C* o) { *o = conj(*a); }                                                      \
    extern "C" void N##_mconj(C const* a, C* o) { *o = math::conj(*a); }                                               \
    extern "C" F N##_abs(C const* a) { return abs(*a); }                                                               \
    extern "C" F N##_mabs(C const* a) { return math::abs(*a); }                                                        \
    extern "C" bool N##_exact(C const* a, C const* b) { return float_equality::exact(*a, *b); }
CPLX(c64, complex64, float)
CPLX(c128, complex128, double)
extern "C" bool f32_exact(float a, float b) { return float_equality::exact(a, b); }
extern "C" bool f64_exact(double a, double b) { return float_equality::exact(a, b); }
extern "C" float f32_mabs(float a) { return math::abs(a); }
extern "C" double f64_mabs(double a) { return math::abs(a); }
extern "C" float f32_mreal(float a) { return math::real(a); }
extern "C" double f64_mreal(double a) { return math::real(a); }
extern "C" unsigned u32_mabs(unsigned a) { return math::abs(a); }
extern "C" int i32_mabs(int a) { return math::abs(a); }

#define SC(N, F)                                                                                                       \
    extern "C" F N##_mreal(std::complex<F> const* a) { return math::real(*a); }                                        \
    extern "C" F N##_mimag(std::complex<F> const* a) { return math::imag(*a); }                                        \
    extern "C" void N##_mconj(std::complex<F> const* a, std::complex<F>* o) { *o = math::conj(*a); }
SC(s64, float)
SC(s128, double)

extern "C" void cq15_add(complex_q15 const* a, complex_q15 const* b, complex_q15* o) { *o = *a + *b; }
extern "C" void cq15_sub(complex_q15 const* a, complex_q15 const* b, complex_q15* o) { *o = *a - *b; }
extern "C" void cq15_mul(complex_q15 const* a, complex_q15 const* b, complex_q15* o) { *o = *a * *b; }
extern "C" void cq7_add(complex_q7 const* a, complex_q7 const* b, complex_q7* o) { *o = *a + *b; }
extern "C" void cq7_sub(complex_q7 const* a, complex_q7 const* b, complex_q7* o) { *o = *a - *b; }
