// Wrappers that instantiate neo's multiply-add, delay line index, direct convolution, compressed and sparse storage.
#include <neo/algorithm/multiply_add.hpp>
#include <neo/complex.hpp>
#include <neo/container/compressed_accessor.hpp>
#include <neo/container/csr_matrix.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/convolution/dense_fdl.hpp>
#include <neo/convolution/dense_filter.hpp>
#include <neo/convolution/direct_convolve.hpp>
#include <neo/convolution/fdl_index.hpp>
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>; using n64 = neo::complex64;
using std::size_t;
using one = stdex::dextents<size_t, 1>;

template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }
template<typename T> auto svec(T* p, size_t n)
{
    using map = stdex::layout_stride::mapping<one>;
    return stdex::mdspan<T, one, stdex::layout_stride>{p, map{one{n}, std::array<size_t, 1>{2}}};
}

#define MADD(T)                                                                                                        \
    extern "C" void fma_##T(T const* x, T const* y, T const* z, T* o, size_t n) { neo::multiply_add(vec(x, n), vec(y, n), vec(z, n), vec(o, n)); } \
    extern "C" void sfma_##T(T const* x, T const* y, T const* z, T* o, size_t n) { neo::multiply_add(svec(x, n), svec(y, n), svec(z, n), svec(o, n)); } \
    extern "C" void conv_##T(T const* x, size_t n, T const* y, size_t m, T* o) { neo::convolution::direct_convolve(vec(x, n), vec(y, m), vec(o, n + m - 1)); }
MADD(f32) MADD(f64) MADD(c64) MADD(c128)
extern "C" void fma_n64(n64 const* x, n64 const* y, n64 const* z, n64* o, size_t n) { neo::multiply_add(vec(x, n), vec(y, n), vec(z, n), vec(o, n)); }

#define SPMADD(T)                                                                                                      \
    extern "C" void spfma_##T(T const* xr, T const* xi, T const* yr, T const* yi, T const* zr, T const* zi, T* r, T* i, size_t n) \
    {                                                                                                                  \
        using neo::split_complex;                                                                                      \
        neo::multiply_add(split_complex{vec(xr, n), vec(xi, n)}, split_complex{vec(yr, n), vec(yi, n)},                \
                          split_complex{vec(zr, n), vec(zi, n)}, split_complex{vec(r, n), vec(i, n)});                 \
    }                                                                                                                  \
    extern "C" void sspfma_##T(T const* xr, T const* xi, T const* yr, T const* yi, T const* zr, T const* zi, T* r, T* i, size_t n) \
    {                                                                                                                  \
        using neo::split_complex;                                                                                      \
        neo::multiply_add(split_complex{svec(xr, n), svec(xi, n)}, split_complex{svec(yr, n), svec(yi, n)},            \
                          split_complex{svec(zr, n), svec(zi, n)}, split_complex{svec(r, n), svec(i, n)});             \
    }
SPMADD(f32) SPMADD(f64)

// the index of a frequency delay line after a history of calls
template<typename I>
static void fdl_history(I n, size_t steps, bool reset, I* slot, I* age, I* seen, size_t* calls, size_t* copies)
{
    auto index = neo::convolution::fdl_index<I>{n};
    for (size_t t = 0; t < steps; ++t) {
        index([](I) {}, [](I, I) {});
    }
    if (reset) {
        index.reset();
    }
    index([=](I pos) { slot[0] = pos; ++copies[0]; }, [=](I segment, I filter) {
        age[segment]  = filter;
        seen[segment] = slot[0];
        ++calls[segment];
    });
}
using u64 = size_t; using u32 = std::uint32_t; using i32 = std::int32_t; using u16 = std::uint16_t; using i16 = std::int16_t; using u8 = std::uint8_t;
#define FDLINDEX(I)                                                                                                    \
    extern "C" void fdlidx_##I(I n, size_t steps, I* slot, I* age, I* seen, size_t* calls, size_t* copies) { fdl_history<I>(n, steps, false, slot, age, seen, calls, copies); } \
    extern "C" void fdlreset_##I(I n, size_t steps, I* slot, I* age, I* seen, size_t* calls, size_t* copies) { fdl_history<I>(n, steps, true, slot, age, seen, calls, copies); }
FDLINDEX(u64) FDLINDEX(u32) FDLINDEX(i32) FDLINDEX(u16) FDLINDEX(i16) FDLINDEX(u8)
