// Wrappers that instantiate neo's transforms.
#include <neo/fft.hpp>
#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>
#include <neo/fft/fallback/fallback_split_fft_plan.hpp>
#include <neo/complex.hpp>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>; using n64 = neo::complex64;
using std::size_t;
using one = stdex::dextents<size_t, 1>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }

#define KERNEL(V, T)                                                                                                   \
    extern "C" void dit2_##V##_##T(size_t order, T* x, T const* w)                                                     \
    {                                                                                                                  \
        auto const n = size_t(1) << order;                                                                             \
        neo::fft::kernel::c2c_dit2_##V{}(vec(x, n), vec(w, n / 2));                                                    \
    }
KERNEL(v1, c64) KERNEL(v2, c64) KERNEL(v3, c64) KERNEL(v4, c64)
KERNEL(v1, c128) KERNEL(v2, c128) KERNEL(v3, c128) KERNEL(v4, c128)
KERNEL(v3, n64)
