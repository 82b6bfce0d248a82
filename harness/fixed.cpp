// Wrappers that instantiate neo's fixed point code; contracts are in contracts/.
#include <neo/fixed_point/algorithm.hpp>
#include <neo/fixed_point/fixed_point.hpp>
#include <neo/fixed_point/simd.hpp>
#include <cstdint>
#include <cstddef>
using namespace neo;
using uv = underlying_value_t;

template<typename Q> static auto mk(typename Q::storage_type v) { return Q{underlying_value, v}; }

#define SCALAR(NAME, INT, FB)                                                                                          \
    using NAME##_t = fixed_point<INT, FB>;                                                                             \
    extern "C" INT NAME##_value(INT a) { return mk<NAME##_t>(a).value(); }                                             \
    extern "C" INT NAME##_pos(INT a) { return (+mk<NAME##_t>(a)).value(); }                                            \
    extern "C" INT NAME##_neg(INT a) { return (-mk<NAME##_t>(a)).value(); }                                            \
    extern "C" INT NAME##_add(INT a, INT b) { return (mk<NAME##_t>(a) + mk<NAME##_t>(b)).value(); }                    \
    extern "C" INT NAME##_sub(INT a, INT b) { return (mk<NAME##_t>(a) - mk<NAME##_t>(b)).value(); }                    \
    extern "C" INT NAME##_mul(INT a, INT b) { return (mk<NAME##_t>(a) * mk<NAME##_t>(b)).value(); }                    \
    extern "C" bool NAME##_eq(INT a, INT b) { return mk<NAME##_t>(a) == mk<NAME##_t>(b); }                             \
    extern "C" bool NAME##_ne(INT a, INT b) { return mk<NAME##_t>(a) != mk<NAME##_t>(b); }                             \
    extern "C" bool NAME##_lt(INT a, INT b) { return mk<NAME##_t>(a) < mk<NAME##_t>(b); }                              \
    extern "C" bool NAME##_le(INT a, INT b) { return mk<NAME##_t>(a) <= mk<NAME##_t>(b); }                             \
    extern "C" bool NAME##_gt(INT a, INT b) { return mk<NAME##_t>(a) > mk<NAME##_t>(b); }                              \
    extern "C" bool NAME##_ge(INT a, INT b) { return mk<NAME##_t>(a) >= mk<NAME##_t>(b); }                             \
    extern "C" INT NAME##_from_f32(float x) { return NAME##_t{x}.value(); }                                            \
    extern "C" INT NAME##_from_f64(double x) { return NAME##_t{x}.value(); }                                           \
    extern "C" float NAME##_to_f32(INT a) { return to_float(mk<NAME##_t>(a)); }                                        \
    extern "C" double NAME##_to_f64(INT a) { return to_double(mk<NAME##_t>(a)); }                                      \
    extern "C" float NAME##_cast_f32(INT a) { return static_cast<float>(mk<NAME##_t>(a)); }                            \
    extern "C" double NAME##_cast_f64(INT a) { return static_cast<double>(mk<NAME##_t>(a)); }

#define BULK(NAME)                                                                                                     \
    extern "C" void NAME##_vadd(NAME##_t const* a, NAME##_t const* b, NAME##_t* o, std::size_t n)                      \
    { add(std::span<NAME##_t const>(a, n), std::span<NAME##_t const>(b, n), std::span<NAME##_t>(o, n)); }              \
    extern "C" void NAME##_vsub(NAME##_t const* a, NAME##_t const* b, NAME##_t* o, std::size_t n)                      \
    { subtract(std::span<NAME##_t const>(a, n), std::span<NAME##_t const>(b, n), std::span<NAME##_t>(o, n)); }         \
    extern "C" void NAME##_vmul(NAME##_t const* a, NAME##_t const* b, NAME##_t* o, std::size_t n)                      \
    { multiply(std::span<NAME##_t const>(a, n), std::span<NAME##_t const>(b, n), std::span<NAME##_t>(o, n)); }

#define SB(NAME, INT, FB) SCALAR(NAME, INT, FB) BULK(NAME)

SB(q7_7, std::int8_t, 7)
SB(q7_6, std::int8_t, 6)
SB(q7_5, std::int8_t, 5)
SB(q7_4, std::int8_t, 4)
SB(q15_15, std::int16_t, 15)
SB(q15_14, std::int16_t, 14)
SB(q15_13, std::int16_t, 13)
SB(q15_12, std::int16_t, 12)
SB(q15_11, std::int16_t, 11)
SB(q15_8, std::int16_t, 8)

// fixed extent spans
template<typename Q, std::size_t N> using cs = std::span<Q const, N>;
template<typename Q, std::size_t N> using ms = std::span<Q, N>;
extern "C" void q7_7_vmul21(q7 const* a, q7 const* b, q7* o) { multiply(cs<q7,21>(a,21), cs<q7,21>(b,21), ms<q7,21>(o,21)); }
extern "C" void q15_15_vadd19(q15 const* a, q15 const* b, q15* o) { add(cs<q15,19>(a,19), cs<q15,19>(b,19), ms<q15,19>(o,19)); }

#define ROUND(NAME, INT)                                                                                               \
    extern "C" INT NAME##_rt_f32(INT a) { return NAME##_t{to_float(mk<NAME##_t>(a))}.value(); }                         \
    extern "C" INT NAME##_rt_f64(INT a) { return NAME##_t{to_double(mk<NAME##_t>(a))}.value(); }
ROUND(q7_7, std::int8_t) ROUND(q7_6, std::int8_t) ROUND(q7_5, std::int8_t) ROUND(q7_4, std::int8_t)
ROUND(q15_15, std::int16_t) ROUND(q15_14, std::int16_t) ROUND(q15_13, std::int16_t) ROUND(q15_12, std::int16_t)
ROUND(q15_11, std::int16_t) ROUND(q15_8, std::int16_t)

// SIMD batches
#define BATCH(B)                                                                                                       \
    extern "C" void B##_add(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) + B::load_unaligned(b)).store_unaligned(o); }                                              \
    extern "C" void B##_sub(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) - B::load_unaligned(b)).store_unaligned(o); }                                              \
    extern "C" void B##_copy(B::value_type const* a, B::value_type* o)                                                 \
    { static_assert(B::size * sizeof(B::value_type) == sizeof(B)); B::load_unaligned(a).store_unaligned(o); }          \
    extern "C" std::size_t B##_size() { return B::size; }                                                              \
    extern "C" void B##_bcast(B::value_type::storage_type v, B::value_type* o)                                         \
    { B::broadcast(mk<B::value_type>(v)).store_unaligned(o); }
#define BMUL(B)                                                                                                        \
    extern "C" void B##_mul(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) * B::load_unaligned(b)).store_unaligned(o); }
BATCH(q7x16) BATCH(q15x8)
#if defined(NEO_HAS_ISA_SSE41)
BMUL(q7x16) BMUL(q15x8)
#endif
#if defined(NEO_HAS_ISA_AVX2)
BATCH(q7x32) BATCH(q15x16) BMUL(q15x16)
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
BATCH(q7x64) BATCH(q15x32) BMUL(q15x32)
#endif
