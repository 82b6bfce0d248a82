// Wrappers that instantiate neo's elementwise algorithms and reductions.
#include <neo/algorithm/add.hpp>
#include <neo/algorithm/allclose.hpp>
#include <neo/algorithm/allmatch.hpp>
#include <neo/algorithm/copy.hpp>
#include <neo/algorithm/fill.hpp>
#include <neo/algorithm/mean.hpp>
#include <neo/algorithm/mean_squared_error.hpp>
#include <neo/algorithm/multiply.hpp>
#include <neo/algorithm/normalize_energy.hpp>
#include <neo/algorithm/normalize_peak.hpp>
#include <neo/algorithm/root_mean_squared_error.hpp>
#include <neo/algorithm/scale.hpp>
#include <neo/algorithm/standard_deviation.hpp>
#include <neo/algorithm/variance.hpp>
#include <neo/complex.hpp>
#include <array>
#include <complex>
#include <cstddef>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>; using n64 = neo::complex64;
using std::size_t;
using one = stdex::dextents<size_t, 1>;
using two = stdex::dextents<size_t, 2>;

template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }
template<typename T> auto mat(T* p, size_t r, size_t c) { return stdex::mdspan<T, two>{p, r, c}; }
template<typename T> auto lmat(T* p, size_t r, size_t c) { return stdex::mdspan<T, two, stdex::layout_left>{p, r, c}; }
// every second element of 2n
template<typename T> auto svec(T* p, size_t n)
{
    using map = stdex::layout_stride::mapping<one>;
    return stdex::mdspan<T, one, stdex::layout_stride>{p, map{one{n}, std::array<size_t, 1>{2}}};
}

#define EW(T)                                                                                                          \
    extern "C" void add_##T(T const* x, T const* y, T* o, size_t n) { neo::add(vec(x, n), vec(y, n), vec(o, n)); }     \
    extern "C" void mul_##T(T const* x, T const* y, T* o, size_t n) { neo::multiply(vec(x, n), vec(y, n), vec(o, n)); } \
    extern "C" void copy_##T(T const* x, T* o, size_t n) { neo::copy(vec(x, n), vec(o, n)); }                          \
    extern "C" void scale_##T(T const* a, T* o, size_t n) { neo::scale(*a, vec(o, n)); }                               \
    extern "C" void fill_##T(T const* a, T* o, size_t n) { neo::fill(vec(o, n), *a); }                                 \
    extern "C" void sadd_##T(T const* x, T const* y, T* o, size_t n) { neo::add(svec(x, n), svec(y, n), svec(o, n)); } \
    extern "C" void smul_##T(T const* x, T const* y, T* o, size_t n) { neo::multiply(svec(x, n), svec(y, n), svec(o, n)); } \
    extern "C" void scopy_##T(T const* x, T* o, size_t n) { neo::copy(svec(x, n), svec(o, n)); }                       \
    extern "C" void sscale_##T(T const* a, T* o, size_t n) { neo::scale(*a, svec(o, n)); }                             \
    extern "C" void sfill_##T(T const* a, T* o, size_t n) { neo::fill(svec(o, n), *a); }                               \
    extern "C" void madd_##T(T const* x, T const* y, T* o, size_t r, size_t c) { neo::add(mat(x, r, c), mat(y, r, c), mat(o, r, c)); } \
    extern "C" void mmul_##T(T const* x, T const* y, T* o, size_t r, size_t c) { neo::multiply(mat(x, r, c), mat(y, r, c), mat(o, r, c)); } \
    extern "C" void mcopy_##T(T const* x, T* o, size_t r, size_t c) { neo::copy(mat(x, r, c), mat(o, r, c)); }         \
    extern "C" void mscale_##T(T const* a, T* o, size_t r, size_t c) { neo::scale(*a, mat(o, r, c)); }                 \
    extern "C" void mfill_##T(T const* a, T* o, size_t r, size_t c) { neo::fill(mat(o, r, c), *a); }                   \
    extern "C" void lscale_##T(T const* a, T* o, size_t r, size_t c) { neo::scale(*a, lmat(o, r, c)); }                \
    extern "C" void lfill_##T(T const* a, T* o, size_t r, size_t c) { neo::fill(lmat(o, r, c), *a); }
EW(f32) EW(f64) EW(c64) EW(c128) EW(n64)

#define SPLIT(T, C)                                                                                                    \
    extern "C" void tosplit_##C(C const* x, T* re, T* im, size_t n) { neo::copy(vec(x, n), neo::split_complex{vec(re, n), vec(im, n)}); } \
    extern "C" void fromsplit_##C(T const* re, T const* im, C* o, size_t n) { neo::copy(neo::split_complex{vec(re, n), vec(im, n)}, vec(o, n)); }
SPLIT(f32, c64) SPLIT(f64, c128) SPLIT(f32, n64)

#define RED(T)                                                                                                         \
    extern "C" bool mean_##T(T const* x, T* o, size_t n) { auto const r = neo::mean(vec(x, n)); if (r) { *o = *r; } return r.has_value(); } \
    extern "C" bool var_##T(T const* x, T* o, size_t n) { auto const r = neo::variance(vec(x, n)); if (r) { *o = *r; } return r.has_value(); } \
    extern "C" bool std_##T(T const* x, T* o, size_t n) { auto const r = neo::standard_deviation(vec(x, n)); if (r) { *o = *r; } return r.has_value(); } \
    extern "C" bool mmean_##T(T const* x, T* o, size_t r, size_t c) { auto const v = neo::mean(mat(x, r, c)); if (v) { *o = *v; } return v.has_value(); } \
    extern "C" bool mvar_##T(T const* x, T* o, size_t r, size_t c) { auto const v = neo::variance(mat(x, r, c)); if (v) { *o = *v; } return v.has_value(); } \
    extern "C" T mse_##T(T const* x, T const* y, size_t n) { return neo::mean_squared_error(vec(x, n), vec(y, n)); }   \
    extern "C" T rmse_##T(T const* x, T const* y, size_t n) { return neo::root_mean_squared_error(vec(x, n), vec(y, n)); } \
    extern "C" T mmse_##T(T const* x, T const* y, size_t r, size_t c) { return neo::mean_squared_error(mat(x, r, c), mat(y, r, c)); } \
    extern "C" T nef_##T(T const* x, size_t n) { return neo::normalize_energy_factor(vec(x, n)); }                     \
    extern "C" T mnef_##T(T const* x, size_t r, size_t c) { return neo::normalize_energy_factor(mat(x, r, c)); }       \
    extern "C" T npf_##T(T const* x, size_t n) { return neo::normalize_peak_factor(vec(x, n)); }                       \
    extern "C" T mnpf_##T(T const* x, size_t r, size_t c) { return neo::normalize_peak_factor(mat(x, r, c)); }         \
    extern "C" void ne_##T(T* x, size_t n) { neo::normalize_energy(vec(x, n)); }                                       \
    extern "C" void np_##T(T* x, size_t n) { neo::normalize_peak(vec(x, n)); }                                         \
    extern "C" bool ac_##T(T const* x, T const* y, size_t n) { return neo::allclose(vec(x, n), vec(y, n)); }           \
    extern "C" bool act_##T(T const* x, T const* y, size_t n, T tol) { return neo::allclose(vec(x, n), vec(y, n), tol); } \
    extern "C" bool mact_##T(T const* x, T const* y, size_t r, size_t c, T tol) { return neo::allclose(mat(x, r, c), mat(y, r, c), tol); } \
    extern "C" bool am_##T(T const* x, size_t n) { return neo::allmatch(vec(x, n), [](auto v) { return v > T(0.5); }); }
RED(f32) RED(f64)

#define CRED(T, F)                                                                                                     \
    extern "C" F mse_##T(T const* x, T const* y, size_t n) { return neo::mean_squared_error(vec(x, n), vec(y, n)); }   \
    extern "C" bool act_##T(T const* x, T const* y, size_t n, F tol) { return neo::allclose(vec(x, n), vec(y, n), tol); }
CRED(c64, f32) CRED(c128, f64)
