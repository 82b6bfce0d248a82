// Wrappers around neo's floating point SIMD batches.
#include <algorithm>
#include <neo/simd.hpp>
#include <cstddef>
using namespace neo;
#define FBATCH(B)                                                                                                      \
    extern "C" void B##_add(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) + B::load_unaligned(b)).store_unaligned(o); }                                              \
    extern "C" void B##_sub(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) - B::load_unaligned(b)).store_unaligned(o); }                                              \
    extern "C" void B##_mul(B::value_type const* a, B::value_type const* b, B::value_type* o)                          \
    { (B::load_unaligned(a) * B::load_unaligned(b)).store_unaligned(o); }                                              \
    extern "C" void B##_copy(B::value_type const* a, B::value_type* o)                                                 \
    { B::load_unaligned(a).store_unaligned(o); }                                                                       \
    extern "C" void B##_bcast(B::value_type const* v, B::value_type* o) { B::broadcast(*v).store_unaligned(o); }
FBATCH(float32x4)
FBATCH(float64x2)
#if defined(NEO_HAS_ISA_AVX)
FBATCH(float32x8)
FBATCH(float64x4)
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
FBATCH(float16x8)
FBATCH(float16x16)
#endif
#endif
#if defined(NEO_HAS_ISA_AVX512F)
FBATCH(float32x16)
FBATCH(float64x8)
#endif
