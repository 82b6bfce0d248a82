// Wrappers that build a plan and run it: transforms of every kind neo offers.
#include <neo/fft.hpp>
#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>
#include <neo/fft/fallback/fallback_split_fft_plan.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/dft.hpp>
#include <neo/fft/rfft.hpp>
#include <neo/fft/stft.hpp>
#include <neo/complex.hpp>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>;
using n64 = neo::complex64; using n128 = neo::complex128;
using std::size_t;
using one = stdex::dextents<size_t, 1>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }
static auto dirof(int b) { return b ? neo::fft::direction::backward : neo::fft::direction::forward; }

// ---- complex plans: order, elements, data (in place), direction
#define PLAN(NAME, T, ...)                                                                                             \
    extern "C" size_t plan_##NAME##_##T(size_t order, T* x, int back)                                                  \
    {                                                                                                                  \
        auto p = __VA_ARGS__{neo::fft::from_order, order};                                                             \
        if (p.order() != order) { return size_t(-1); }                                                                 \
        if (x) { p(vec(x, p.size()), dirof(back)); }                                                                   \
        return p.size();                                                                                               \
    }
#define PLANS(NAME, TMPL)                                                                                              \
    PLAN(NAME, c64, TMPL<c64>)                                                                                         \
    PLAN(NAME, c128, TMPL<c128>)
PLANS(fft, neo::fft::fft_plan)
PLAN(fft, n64, neo::fft::fft_plan<n64>)
PLAN(fft, n128, neo::fft::fft_plan<n128>)
#define DIT2(V)                                                                                                        \
    PLAN(dit2_##V, c64, neo::fft::c2c_dit2_plan<c64, neo::fft::kernel::c2c_dit2_##V>)                                  \
    PLAN(dit2_##V, c128, neo::fft::c2c_dit2_plan<c128, neo::fft::kernel::c2c_dit2_##V>)
DIT2(v1) DIT2(v2) DIT2(v3) DIT2(v4)
PLANS(dit4, neo::fft::c2c_dit4_plan)
PLANS(dif4, neo::fft::c2c_dif4_plan)
PLANS(dif3, neo::fft::c2c_dif3_plan)
PLANS(dif5, neo::fft::c2c_dif5_plan)
PLANS(stockham_dif2r, neo::fft::c2c_stockham_dif2r_plan)
PLANS(stockham_dif2i, neo::fft::c2c_stockham_dif2i_plan)
PLANS(stockham_dif3, neo::fft::c2c_stockham_dif3_plan)
PLANS(stockham_dif4, neo::fft::c2c_stockham_dif4_plan)
PLANS(stockham_dif5, neo::fft::c2c_stockham_dif5_plan)
PLANS(stockham_dif8, neo::fft::c2c_stockham_dif8_plan)
PLANS(stockham_dit4, neo::fft::c2c_stockham_dit4_plan)

// interleaved real storage: order, data (in place), direction
#define EXPERIMENTAL(F, C)                                                                                             \
    extern "C" size_t plan_exp_##C(size_t order, F* x, int back)                                                       \
    {                                                                                                                  \
        auto p = neo::fft::experimental::c2c_dit2_plan<F>{neo::fft::from_order, order};                                \
        if (p.order() != order) { return size_t(-1); }                                                                 \
        if (x) { p(vec(x, p.size() * 2), dirof(back)); }                                                               \
        return p.size();                                                                                               \
    }                                                                                                                  \
    extern "C" size_t exp_rfft_##F(size_t order, F* x, int back)                                                       \
    {                                                                                                                  \
        auto p = neo::fft::experimental::rfft_plan<F>{neo::fft::from_order, order};                                    \
        if (p.order() != order) { return size_t(-1); }                                                                 \
        p(vec(x, p.size()), dirof(back));                                                                              \
        return p.size();                                                                                               \
    }
EXPERIMENTAL(f32, c64) EXPERIMENTAL(f64, c128)

// the free functions, out of place, and the same plan used repeatedly
#define FREE(T)                                                                                                        \
    extern "C" void fft_free_##T(size_t order, T const* in, T* out, int back, size_t times)                            \
    {                                                                                                                  \
        auto p = neo::fft::fft_plan<T>{neo::fft::from_order, order};                                                   \
        auto const n = p.size();                                                                                       \
        for (size_t i = 0; i < times; ++i) {                                                                           \
            if (back) { neo::fft::ifft(p, vec(in + i * n, n), vec(out + i * n, n)); }                                  \
            else { neo::fft::fft(p, vec(in + i * n, n), vec(out + i * n, n)); }                                        \
        }                                                                                                              \
    }                                                                                                                  \
    extern "C" void fft_inplace_##T(size_t order, T* x, int back)                                                      \
    {                                                                                                                  \
        auto p = neo::fft::fft_plan<T>{neo::fft::from_order, order};                                                   \
        if (back) { neo::fft::ifft(p, vec(x, p.size())); } else { neo::fft::fft(p, vec(x, p.size())); }                \
    }
FREE(c64) FREE(c128) FREE(n64)

// ---- split complex
#define SPLIT(T)                                                                                                       \
    extern "C" void split_##T(size_t order, T* re, T* im, int back)                                                    \
    {                                                                                                                  \
        auto p = neo::fft::split_fft_plan<T>{neo::fft::from_order, order};                                             \
        auto x = neo::split_complex{vec(re, p.size()), vec(im, p.size())};                                             \
        if (back) { neo::fft::ifft(p, x); } else { neo::fft::fft(p, x); }                                              \
    }                                                                                                                  \
    extern "C" void split_out_##T(size_t order, T const* re, T const* im, T* ore, T* oim, int back)                    \
    {                                                                                                                  \
        auto p = neo::fft::split_fft_plan<T>{neo::fft::from_order, order};                                             \
        auto x = neo::split_complex{vec(re, p.size()), vec(im, p.size())};                                             \
        auto o = neo::split_complex{vec(ore, p.size()), vec(oim, p.size())};                                           \
        if (back) { neo::fft::ifft(p, x, o); } else { neo::fft::fft(p, x, o); }                                        \
    }
SPLIT(f32) SPLIT(f64)

// ---- reordering
#define REORDER(T)                                                                                                     \
    extern "C" void bitrev_plan_##T(size_t order, T* x) { neo::fft::bitrevorder_plan{order}(vec(x, size_t(1) << order)); } \
    extern "C" void bitrev_free_##T(size_t order, T* x) { neo::fft::bitrevorder(vec(x, size_t(1) << order)); }
REORDER(c64) REORDER(c128)
#define REORDERF(T)                                                                                                    \
    extern "C" void bitrev_plan_##T(size_t order, T* x) { neo::fft::bitrevorder_plan{order}(vec(x, size_t(2) << order)); } \
    extern "C" void bitrev_free_##T(size_t order, T* x) { neo::fft::bitrevorder(vec(x, size_t(2) << order)); }         \
    extern "C" void bitrev_split_##T(size_t order, T* re, T* im)                                                       \
    {                                                                                                                  \
        auto const n = size_t(1) << order;                                                                             \
        neo::fft::bitrevorder_plan{order}(neo::split_complex{vec(re, n), vec(im, n)});                                 \
    }
REORDERF(f32) REORDERF(f64)
#define DIGIT(R)                                                                                                       \
    extern "C" void digitrev##R##_c64(size_t n, c64* x) { neo::fft::digitrevorder_plan<R>{n}(vec(x, n)); }             \
    extern "C" void digitrev##R##_c128(size_t n, c128* x) { neo::fft::digitrevorder_plan<R>{n}(vec(x, n)); }
DIGIT(2) DIGIT(3) DIGIT(4) DIGIT(5)

// ---- real transforms
#define REAL(T, C)                                                                                                     \
    extern "C" void rfft_##T(size_t order, T const* in, C* out, size_t nout)                                           \
    {                                                                                                                  \
        auto p = neo::fft::rfft_plan<T>{neo::fft::from_order, order};                                                  \
        neo::fft::rfft(p, vec(in, p.size()), vec(out, nout));                                                          \
    }                                                                                                                  \
    extern "C" void irfft_##T(size_t order, C const* in, size_t nin, T* out)                                           \
    {                                                                                                                  \
        auto p = neo::fft::rfft_plan<T>{neo::fft::from_order, order};                                                  \
        neo::fft::irfft(p, vec(in, nin), vec(out, p.size()));                                                          \
    }                                                                                                                  \
    extern "C" void rfft_chain_##T(size_t order, T const* in, C* spec, T* back, size_t times)                          \
    {                                                                                                                  \
        auto p = neo::fft::rfft_plan<T>{neo::fft::from_order, order};                                                  \
        auto const n = p.size(), m = n / 2 + 1;                                                                        \
        for (size_t i = 0; i < times; ++i) {                                                                           \
            neo::fft::rfft(p, vec(in + i * n, n), vec(spec + i * m, m));                                               \
            neo::fft::irfft(p, vec(static_cast<C const*>(spec) + i * m, m), vec(back + i * n, n));                     \
        }                                                                                                              \
    }                                                                                                                  \
    extern "C" void deinterleave_##T(size_t n, C const* dft, C* x, C* y)                                               \
    {                                                                                                                  \
        neo::fft::rfft_deinterleave(vec(dft, n), vec(x, n / 2 + 1), vec(y, n / 2 + 1));                                \
    }                                                                                                                  \
    extern "C" void dct2_##T(size_t order, T* x)                                                                       \
    {                                                                                                                  \
        auto p = neo::fft::fallback_dct2_plan<T>{neo::fft::from_order, order};                                         \
        p(vec(x, p.size()));                                                                                           \
    }                                                                                                                  \
    extern "C" void dft_##C(size_t n, C const* in, C* out, int back)                                                   \
    {                                                                                                                  \
        neo::fft::dft(vec(in, n), vec(out, n), dirof(back));                                                           \
    }                                                                                                                  \
    extern "C" void dftplan_##C(size_t n, C* x, int back, size_t times)                                                \
    {                                                                                                                  \
        auto p = neo::fft::dft_plan<C>{n};                                                                             \
        for (size_t i = 0; i < times; ++i) {                                                                           \
            if (back) { neo::fft::idft(p, vec(x + i * n, n)); } else { neo::fft::dft(p, vec(x + i * n, n)); }          \
        }                                                                                                              \
    }                                                                                                                  \
    extern "C" void dftplan_out_##C(size_t n, C const* in, C* out, int back)                                           \
    {                                                                                                                  \
        auto p = neo::fft::dft_plan<C>{n};                                                                             \
        if (back) { neo::fft::idft(p, vec(in, n), vec(out, n)); } else { neo::fft::dft(p, vec(in, n), vec(out, n)); }  \
    }                                                                                                                  \
    /* out holds channels x frames x bins; returns frames * 2^32 + bins */                                             \
    extern "C" size_t stft_##T(T const* x, size_t ch, size_t len, size_t frame, size_t transform, size_t overlap, int win, C* out, size_t cap) \
    {                                                                                                                  \
        auto m = stdex::mdspan<T const, stdex::dextents<size_t, 2>>{x, ch, len};                                       \
        auto o = neo::fft::stft_options<T>{frame, transform, overlap};                                                 \
        if (win == 1) { o.window = neo::rectangular_window<T>{}; }                                                     \
        auto p = neo::fft::stft_plan<T>{o};                                                                            \
        auto r = p(m);                                                                                                 \
        auto s = r.to_mdspan();                                                                                        \
        size_t k = 0;                                                                                                  \
        for (size_t a = 0; a < s.extent(0); ++a) {                                                                     \
            for (size_t b = 0; b < s.extent(1); ++b) {                                                                 \
                for (size_t c = 0; c < s.extent(2); ++c) {                                                             \
                    if (k < cap) { out[k++] = s(a, b, c); }                                                            \
                }                                                                                                      \
            }                                                                                                          \
        }                                                                                                              \
        return (s.extent(1) << 32) + s.extent(2);                                                                      \
    }
REAL(f32, c64) REAL(f64, c128)
