// Wrappers that stream a signal through neo's convolvers.
#include <neo/convolution.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/fft.hpp>
#include <neo/complex.hpp>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>;
using n64 = neo::complex64; using n128 = neo::complex128;
using i16c = neo::scalar_complex<std::int16_t>;
using i8c = neo::scalar_complex<std::int8_t>;
using std::size_t;
namespace cv = neo::convolution;
using one = stdex::dextents<size_t, 1>;
using two = stdex::dextents<size_t, 2>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }

// io: nblocks * block samples, processed in place block by block. The impulse response is partitioned first.
template<typename Conv, typename F, typename... Args>
static auto stream(F const* ir, size_t irlen, size_t block, F* io, size_t nblocks, size_t reps, Args... args) -> size_t
{
    auto const part = cv::uniform_partition(stdex::mdspan<F const, two>{ir, 1, irlen}, block);
    auto const filter = stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent);
    auto conv = Conv{};
    for (size_t r = 0; r < reps; ++r) {      // setting the filter starts afresh
        conv.filter(filter, args...);
        for (size_t b = 0; b < nblocks; ++b) { conv(vec(io + (r * nblocks + b) * block, block)); }
    }
    return part.extent(1);
}
#define STREAM(NAME, F, ...)                                                                                           \
    extern "C" size_t stream_##NAME##_##F(F const* ir, size_t n, size_t block, F* io, size_t nblocks, size_t reps)     \
    {                                                                                                                  \
        return stream<__VA_ARGS__>(ir, n, block, io, nblocks, reps);                                                   \
    }
STREAM(upols, f32, cv::upols_convolver<c64>) STREAM(upols, f64, cv::upols_convolver<c128>)
STREAM(upola, f32, cv::upola_convolver<c64>) STREAM(upola, f64, cv::upola_convolver<c128>)
STREAM(upola2, f32, cv::upola_convolver_v2<c64>) STREAM(upola2, f64, cv::upola_convolver_v2<c128>)
STREAM(split_upols, f32, cv::split_upols_convolver<c64>) STREAM(split_upols, f64, cv::split_upols_convolver<c128>)
STREAM(split_upola, f32, cv::split_upola_convolver<c64>) STREAM(split_upola, f64, cv::split_upola_convolver<c128>)
using comp_ols = cv::uniform_partitioned_convolver<cv::overlap_save<c64>, cv::compressed_fdl<c64, i16c>, cv::dense_filter<c64>>;
using comp_ola = cv::uniform_partitioned_convolver<cv::overlap_add<c64>, cv::compressed_fdl<c64, i16c>, cv::dense_filter<c64>>;
STREAM(comp_upols, f32, comp_ols) STREAM(comp_upola, f32, comp_ola)

// sparse: mask (segments x bins) decides which coefficients are kept
#define SPARSE(NAME, F, ...)                                                                                           \
    extern "C" size_t stream_##NAME##_##F(F const* ir, size_t n, size_t block, F* io, size_t nblocks, size_t reps, unsigned char const* mask) \
    {                                                                                                                  \
        auto keep = [mask, block](auto row, auto col, auto) { return mask[row * (block + 1) + col] != 0; };            \
        return stream<__VA_ARGS__>(ir, n, block, io, nblocks, reps, keep);                                             \
    }
SPARSE(sparse_upols, f32, cv::sparse_upols_convolver<c64>) SPARSE(sparse_upola, f32, cv::sparse_upola_convolver<c64>)
SPARSE(sparse_upols, f64, cv::sparse_upols_convolver<c128>) SPARSE(sparse_upola, f64, cv::sparse_upola_convolver<c128>)

// overlap_add_convolver takes chunks of any size not below the block
#define CHUNKS(F, C)                                                                                                   \
    extern "C" void chunks_##F(F const* ir, size_t n, size_t block, F* io, size_t const* chunk, size_t nchunks)        \
    {                                                                                                                  \
        auto const part = cv::uniform_partition(stdex::mdspan<F const, two>{ir, 1, n}, block);                         \
        auto conv = cv::upola_convolver_v2<C>{};                                                                       \
        conv.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));                    \
        for (size_t i = 0; i < nchunks; ++i) { conv(vec(io, chunk[i])); io += chunk[i]; }                              \
    }
CHUNKS(f32, c64) CHUNKS(f64, c128)

// a convolver given one filter, then another in mid stream
template<typename Conv, typename F>
static auto change(F const* ir, size_t n, size_t block, F* io, size_t count, F const* ir2, size_t n2, size_t block2, F* io2, size_t count2) -> void
{
    auto conv = Conv{};
    auto set = [&](F const* p, size_t len, size_t b) {
        auto const part = cv::uniform_partition(stdex::mdspan<F const, two>{p, 1, len}, b);
        conv.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
    };
    set(ir, n, block);
    for (size_t i = 0; i < count; ++i) { conv(vec(io, block)); io += block; }
    set(ir2, n2, block2);
    for (size_t i = 0; i < count2; ++i) { conv(vec(io2, block2)); io2 += block2; }
}
#define CHANGE(NAME, F, ...)                                                                                           \
    extern "C" void change_##NAME##_##F(F const* ir, size_t n, size_t block, F* io, size_t count, F const* ir2, size_t n2, size_t block2, F* io2, size_t count2) \
    {                                                                                                                  \
        change<__VA_ARGS__>(ir, n, block, io, count, ir2, n2, block2, io2, count2);                                    \
    }
CHANGE(upols, f32, cv::upols_convolver<c64>) CHANGE(upols, f64, cv::upols_convolver<c128>)
CHANGE(upola, f32, cv::upola_convolver<c64>) CHANGE(upola, f64, cv::upola_convolver<c128>)
CHANGE(upola2, f32, cv::upola_convolver_v2<c64>) CHANGE(upola2, f64, cv::upola_convolver_v2<c128>)
CHANGE(split_upols, f32, cv::split_upols_convolver<c64>) CHANGE(split_upola, f64, cv::split_upola_convolver<c128>)

// overlap methods with a given spectrum
#define OVERLAP(NAME, F, C)                                                                                            \
    extern "C" size_t NAME##_##F(size_t block, size_t filter, F* io, size_t nblocks, C const* h)                       \
    {                                                                                                                  \
        auto o = cv::NAME<C>{block, filter};                                                                           \
        if (o.block_size() != block || o.filter_size() != filter) { return 0; }                                        \
        for (size_t b = 0; b < nblocks; ++b) {                                                                         \
            o(vec(io + b * block, block), [h](auto s) { for (size_t k = 0; k < s.extent(0); ++k) { s[k] = s[k] * h[k]; } }); \
        }                                                                                                              \
        return o.transform_size();                                                                                     \
    }
OVERLAP(overlap_add, f32, c64) OVERLAP(overlap_add, f64, c128) OVERLAP(overlap_save, f32, c64) OVERLAP(overlap_save, f64, c128)

#define FFTCONV(F)                                                                                                     \
    extern "C" void fftconv_##F(F const* x, size_t n, F const* h, size_t m, F* out, size_t times)                      \
    {                                                                                                                  \
        auto c = cv::fft_convolver<F>{n, m};                                                                           \
        for (size_t i = 0; i < times; ++i) {                                                                           \
            c(vec(x + i * n, n), vec(h + i * m, m), vec(out + i * c.output_size(), c.output_size()));                  \
        }                                                                                                              \
    }                                                                                                                  \
    extern "C" size_t fftconvolve_##F(F const* x, size_t n, F const* h, size_t m, F* out)                              \
    {                                                                                                                  \
        auto r = cv::fft_convolve(vec(x, n), vec(h, m));                                                               \
        for (size_t i = 0; i < r.extent(0); ++i) { out[i] = r(i); }                                                    \
        return r.extent(0);                                                                                            \
    }                                                                                                                  \
    extern "C" void normimp_##F(F* x, size_t ch, size_t n) { cv::normalize_impulse(stdex::mdspan<F, two>{x, ch, n}); } \
    extern "C" void normimp1_##F(F* x, size_t n) { cv::normalize_impulse(vec(x, n)); }
FFTCONV(f32) FFTCONV(f64)

#define PARTITION(F, C)                                                                                                \
    extern "C" size_t partition_##F(F const* ir, size_t ch, size_t n, size_t block, C* out, size_t cap)                \
    {                                                                                                                  \
        auto const p = cv::uniform_partition(stdex::mdspan<F const, two>{ir, ch, n}, block);                           \
        auto const s = p.to_mdspan();                                                                                  \
        size_t k = 0;                                                                                                  \
        for (size_t a = 0; a < s.extent(0); ++a) {                                                                     \
            for (size_t b = 0; b < s.extent(1); ++b) {                                                                 \
                for (size_t c = 0; c < s.extent(2); ++c) { if (k < cap) { out[k++] = s(a, b, c); } }                   \
            }                                                                                                          \
        }                                                                                                              \
        return (s.extent(1) << 32) + s.extent(2);                                                                      \
    }
PARTITION(f32, c64) PARTITION(f64, c128)
