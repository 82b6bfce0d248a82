// Wrappers that instantiate neo's segment stores (frequency delay lines), filters and compressed views.
#include <neo/complex.hpp>
#include <neo/container/compressed_accessor.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/convolution/dense_fdl.hpp>
#include <neo/convolution/dense_filter.hpp>
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>; using n64 = neo::complex64;
using i8 = std::int8_t; using i16 = std::int16_t;
using std::size_t;
using one = stdex::dextents<size_t, 1>; using two = stdex::dextents<size_t, 2>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }
template<typename T> auto mat(T* p, size_t r, size_t c) { return stdex::mdspan<T, two>{p, r, c}; }

template<typename I> using pair = neo::scalar_complex<I>;
using i8c = pair<i8>; using i16c = pair<i16>;

#define ACC(I, F)                                                                                                      \
    extern "C" void comp_##I##_##F(I const* p, size_t n, F* o)                                                         \
    {                                                                                                                  \
        using nested = stdex::default_accessor<I const>;                                                               \
        auto const view = stdex::mdspan{p, stdex::layout_right::mapping<one>{one{n}}, neo::compressed_accessor<F, nested>{nested{}}}; \
        for (size_t i = 0; i < n; ++i) { o[i] = view[i]; }                                                             \
    }
ACC(i8, f32) ACC(i16, f32) ACC(i8, f64) ACC(i16, f64) ACC(i8c, c64) ACC(i16c, c64) ACC(i8c, c128) ACC(i16c, c128)

// two insertions into a delay line, then one row is read
#define FDL(NAME, T, TYPE)                                                                                             \
    extern "C" void fdl_##NAME(size_t r, size_t c, T const* a, size_t ia, T const* b, size_t ib, size_t row, T* o)     \
    {                                                                                                                  \
        auto fdl = neo::convolution::TYPE{two{r, c}};                                                                  \
        fdl.insert(vec(a, c), ia);                                                                                     \
        fdl.insert(vec(b, c), ib);                                                                                     \
        auto const v = fdl[row];                                                                                       \
        for (size_t i = 0; i < v.extent(0); ++i) { o[i] = v[i]; }                                                      \
    }
FDL(dense_c64, c64, dense_fdl<c64>) FDL(dense_c128, c128, dense_fdl<c128>)
using comp8 = neo::convolution::compressed_fdl<c64, i8c>; using comp16 = neo::convolution::compressed_fdl<c64, i16c>;
namespace neo::convolution { using comp8 = ::comp8; using comp16 = ::comp16; }
#define FDL1(NAME, T, TYPE)                                                                                            \
    extern "C" void fdl_##NAME(size_t r, size_t c, T const* a, size_t ia, size_t row, T* o)                            \
    {                                                                                                                  \
        auto fdl = neo::convolution::TYPE{two{r, c}};                                                                  \
        fdl.insert(vec(a, c), ia);                                                                                     \
        auto const v = fdl[row];                                                                                       \
        for (size_t i = 0; i < v.extent(0); ++i) { o[i] = v[i]; }                                                      \
    }
FDL1(comp8, c64, comp8) FDL1(comp16, c64, comp16)

#define SFDL(F, T)                                                                                                     \
    extern "C" void fdl_split_##F(size_t r, size_t c, T const* a, size_t ia, T const* b, size_t ib, size_t row, F* re, F* im) \
    {                                                                                                                  \
        auto fdl = neo::convolution::dense_split_fdl<F>{two{r, c}};                                                    \
        fdl.insert(vec(a, c), ia);                                                                                     \
        fdl.insert(vec(b, c), ib);                                                                                     \
        auto const v = fdl[row];                                                                                       \
        for (size_t i = 0; i < v.real.extent(0); ++i) { re[i] = v.real[i]; im[i] = v.imag[i]; }                        \
    }
SFDL(f32, c64) SFDL(f64, c128)

// accumulate one segment with one row of the filter
#define FILTER(T)                                                                                                      \
    extern "C" void filter_##T(T const* h, size_t r, size_t c, size_t row, T const* x, T* acc)                         \
    {                                                                                                                  \
        auto f = neo::convolution::dense_filter<T>{};                                                                  \
        f.filter(mat(h, r, c));                                                                                        \
        f(vec(x, c), row, vec(acc, c));                                                                                \
    }
FILTER(c64) FILTER(c128)
// the same after a filter of another shape was set before
#define REFILTER(T)                                                                                                    \
    extern "C" void refilter_##T(T const* g, size_t r0, size_t c0, T const* h, size_t r, size_t c, size_t row, T const* x, T* acc) \
    {                                                                                                                  \
        auto f = neo::convolution::dense_filter<T>{};                                                                  \
        f.filter(mat(g, r0, c0));                                                                                      \
        f.filter(mat(h, r, c));                                                                                        \
        f(vec(x, c), row, vec(acc, c));                                                                                \
    }
REFILTER(c64) REFILTER(c128)
#define RESFILTER(F, T)                                                                                                \
    extern "C" void resfilter_##F(T const* g, size_t r0, size_t c0, T const* h, size_t r, size_t c, size_t row, F const* xr, F const* xi, F* acc) \
    {                                                                                                                  \
        auto f = neo::convolution::dense_split_filter<F>{};                                                            \
        f.filter(mat(g, r0, c0));                                                                                      \
        f.filter(mat(h, r, c));                                                                                        \
        using ext = stdex::extents<size_t, 2, std::dynamic_extent>;                                                    \
        f(neo::split_complex{vec(xr, c), vec(xi, c)}, row, stdex::mdspan<F, ext>{acc, c});                             \
    }
RESFILTER(f32, c64) RESFILTER(f64, c128)
#define SFILTER(F, T)                                                                                                  \
    extern "C" void sfilter_##F(T const* h, size_t r, size_t c, size_t row, F const* xr, F const* xi, F* acc)          \
    {                                                                                                                  \
        auto f = neo::convolution::dense_split_filter<F>{};                                                            \
        f.filter(mat(h, r, c));                                                                                        \
        using ext = stdex::extents<size_t, 2, std::dynamic_extent>;                                                    \
        f(neo::split_complex{vec(xr, c), vec(xi, c)}, row, stdex::mdspan<F, ext>{acc, c});                             \
    }
SFILTER(f32, c64) SFILTER(f64, c128)
