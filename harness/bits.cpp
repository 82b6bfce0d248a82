// Wrappers that instantiate neo's integer helpers.
#include <neo/bit/bit_ceil.hpp>
#include <neo/bit/bit_log2.hpp>
#include <neo/bit/bit_cast.hpp>
#include <neo/fft/order.hpp>
#include <neo/math/idiv.hpp>
#include <neo/math/ipow.hpp>
#include <neo/math/is_even.hpp>
#include <neo/math/is_odd.hpp>
#include <neo/math/abs.hpp>
#include <cstdint>

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;

// the portable implementation is an internal name: use it when it is there
namespace neo::detail { struct vc_none {}; void bit_ceil_fallback(vc_none); }
template<typename T>
constexpr auto ceil_fallback(T x) -> T
{
    if constexpr (requires { T(neo::detail::bit_ceil_fallback(x)); }) {
        return neo::detail::bit_ceil_fallback(x);
    } else {
        return neo::bit_ceil(x);
    }
}

#define UBITS(T)                                                                                                       \
    extern "C" T bit_ceil_##T(T x) { return neo::bit_ceil(x); }                                                        \
    extern "C" T bit_ceil_fallback_##T(T x) { return ceil_fallback(x); }                              \
    extern "C" T bit_log2_##T(T x) { return neo::bit_log2(x); }
UBITS(u8) UBITS(u16) UBITS(u32) UBITS(u64)

#define ANYINT(T)                                                                                                      \
    extern "C" T next_order_##T(T x) { return neo::fft::next_order(x); }                                               \
    extern "C" T fft_size_##T(T x) { return neo::fft::size(x); }                                                       \
    extern "C" T size_of_next_order_##T(T x) { return neo::fft::size(neo::fft::next_order(x)); }                       \
    extern "C" T ipow_##T(T b, T e) { return neo::ipow(b, e); }                                                        \
    extern "C" T ipow2_##T(T e) { return neo::ipow<T(2)>(e); }                                                         \
    extern "C" T ipow3_##T(T e) { return neo::ipow<T(3)>(e); }                                                         \
    extern "C" T ipow4_##T(T e) { return neo::ipow<T(4)>(e); }                                                         \
    extern "C" T ipow5_##T(T e) { return neo::ipow<T(5)>(e); }                                                         \
    extern "C" T ipow6_##T(T e) { return neo::ipow<T(6)>(e); }                                                         \
    extern "C" T ipow8_##T(T e) { return neo::ipow<T(8)>(e); }                                                         \
    extern "C" T ipow10_##T(T e) { return neo::ipow<T(10)>(e); }                                                       \
    extern "C" T ipow16_##T(T e) { return neo::ipow<T(16)>(e); }                                                       \
    extern "C" T ipow32_##T(T e) { return neo::ipow<T(32)>(e); }                                                       \
    extern "C" T ipow64_##T(T e) { return neo::ipow<T(64)>(e); }                                                       \
    extern "C" T ipow1_##T(T e) { return neo::ipow<T(1)>(e); }                                                         \
    extern "C" T ipow0_##T(T e) { return neo::ipow<T(0)>(e); }                                                         \
    extern "C" T ipow7_##T(T e) { return neo::ipow<T(7)>(e); }                                                         \
    extern "C" T idiv_##T(T x, T y) { return neo::idiv(x, y); }                                                        \
    extern "C" bool is_even_##T(T x) { return neo::is_even(x); }                                                       \
    extern "C" bool is_odd_##T(T x) { return neo::is_odd(x); }
ANYINT(u8) ANYINT(u16) ANYINT(u32) ANYINT(u64) ANYINT(i8) ANYINT(i16) ANYINT(i32) ANYINT(i64)
#define SINT(T)                                                                                                        \
    extern "C" T ipowm2_##T(T e) { return neo::ipow<T(-2)>(e); }                                                       \
    extern "C" T ipowm3_##T(T e) { return neo::ipow<T(-3)>(e); }
SINT(i32) SINT(i64)
