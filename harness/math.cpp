// Wrappers around windows, the mel scale and twiddle factors.
#include <neo/container/mdspan.hpp>
#include <neo/complex.hpp>
#include <neo/fft/twiddle.hpp>
#include <neo/fft/rfftfreq.hpp>
#include <neo/math/windowing.hpp>
#include <neo/unit/mel.hpp>
#include <complex>
#include <cstddef>

using std::size_t;
using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>; using n64 = neo::complex64; using n128 = neo::complex128;
using one = stdex::dextents<size_t, 1>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }

#define WIN1(W, T)                                                                                                     \
    extern "C" T W##_##T(size_t i, size_t n) { return neo::W##_window<T>{}(i, n); }                                    \
    extern "C" T W##i_##T(int i, int n) { return neo::W##_window<T>{}(i, n); }                                         \
    extern "C" void fill_##W##_##T(T* o, size_t n) { neo::fill_window(vec(o, n), neo::W##_window<T>{}); }              \
    extern "C" void gen_##W##_##T(T* o, size_t n) { auto b = neo::generate_window<T, neo::W##_window<T>>(n); for (size_t i = 0; i < n; ++i) { o[i] = b(i); } }
#define WIN(T)                                                                                                         \
    WIN1(rectangular, T) WIN1(hann, T) WIN1(hamming, T)                                                                \
    extern "C" void gen_default_##T(T* o, size_t n) { auto b = neo::generate_window<T>(n); for (size_t i = 0; i < n; ++i) { o[i] = b(i); } } \
    extern "C" T h2m_##T(T x) { return neo::hertz_to_mel(x); }                                                         \
    extern "C" T m2h_##T(T x) { return neo::mel_to_hertz(x); }                                                         \
    extern "C" T h2m2h_##T(T x) { return neo::mel_to_hertz(neo::hertz_to_mel(x)); }                                    \
    extern "C" T m2h2m_##T(T x) { return neo::hertz_to_mel(neo::mel_to_hertz(x)); }                                    \
    extern "C" void melf_##T(T* o, size_t n, T lo, T hi) { neo::mel_frequencies(vec(o, n), lo, hi); }
WIN(f32) WIN(f64)

#define TW(C)                                                                                                          \
    extern "C" void tw_##C(size_t n, size_t i, bool fwd, C* o) { *o = neo::fft::twiddle<C>(n, i, fwd ? neo::fft::direction::forward : neo::fft::direction::backward); } \
    extern "C" void twi_##C(int n, int i, bool fwd, C* o) { *o = neo::fft::twiddle<C>(n, i, fwd ? neo::fft::direction::forward : neo::fft::direction::backward); } \
    extern "C" void twlut_##C(C* o, size_t n, bool fwd) { neo::fft::fill_twiddle_lut_radix2(vec(o, n), fwd ? neo::fft::direction::forward : neo::fft::direction::backward); } \
    extern "C" void twmake_##C(C* o, size_t size, bool fwd) { auto l = neo::fft::make_twiddle_lut_radix2<C>(size, fwd ? neo::fft::direction::forward : neo::fft::direction::backward); for (size_t i = 0; i < size / 2; ++i) { o[i] = l(i); } }
TW(c64) TW(c128) TW(n64) TW(n128)

#define RFF(T)                                                                                                         \
    extern "C" T rff_##T(int n, int i, double s) { return neo::rfftfreq<T>(n, i, s); }                                 \
    extern "C" void rffv_##T(T* o, size_t n, double s) { neo::rfftfreq(vec(o, n), s); }
RFF(f32) RFF(f64)
