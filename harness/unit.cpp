// Wrappers around the decibel / weighting / approximate logarithm helpers.
#include <neo/math/a_weighting.hpp>
#include <neo/math/fast_math.hpp>
#include <neo/math/log2.hpp>
#include <neo/unit/decibel.hpp>
using namespace neo;
#define DB(N, F)                                                                                                       \
    extern "C" F db_##N(F g) { return amplitude_to_db(g); }                                                            \
    extern "C" F dbx_##N(F g, F inf) { return amplitude_to_db(g, inf); }                                               \
    extern "C" F dbacc_##N(F g, F inf) { return amplitude_to_db<precision::accurate>(g, inf); }                        \
    extern "C" F dbest_##N(F g) { return amplitude_to_db<precision::estimate>(g); }                                    \
    extern "C" F dbxest_##N(F g, F inf) { return amplitude_to_db<precision::estimate>(g, inf); }                       \
    extern "C" F aw_##N(F f) { return a_weighting(f); }                                                                \
    extern "C" F mlog2_##N(F f) { return math::log2(f); }
DB(f32, float)
DB(f64, double)
extern "C" float fast_log2_f32(float x) { return fast_log2(x); }
extern "C" float fast_log10_f32(float x) { return fast_log10(x); }
