// The block convolvers with the real transform replaced by its contract (C23): fallback_rfft_plan<T> becomes a type that calls an
// external function, so that its callers are verified against what C23 states about it and not against its body. The processing of
// the spectrum is an external function as well: nothing is known about it but the buffer it may change.
#include <neo/fft.hpp>
#include <complex>
#include <cstddef>

#define SPEC(F, T)                                                                                                     \
    extern "C" void spec_rfft_##T(F const* in, std::size_t nin, F* out, std::size_t nout, std::size_t n);              \
    extern "C" void spec_irfft_##T(F const* in, std::size_t nin, F* out, std::size_t nout, std::size_t n);             \
    extern "C" void spec_process_##T(F* x, std::size_t n);                                                             \
    template<>                                                                                                         \
    struct neo::fft::fallback_rfft_plan<F, std::complex<F>>                                                            \
    {                                                                                                                  \
        using real_type    = F;                                                                                        \
        using complex_type = std::complex<F>;                                                                          \
        using size_type    = std::size_t;                                                                              \
        fallback_rfft_plan(from_order_tag, size_type o) : _order{o} {}                                                 \
        [[nodiscard]] auto order() const noexcept -> size_type { return _order; }                                      \
        [[nodiscard]] auto size() const noexcept -> size_type { return fft::size(_order); }                            \
        template<in_vector_of<F> In, out_vector_of<std::complex<F>> Out>                                               \
        auto operator()(In in, Out out) noexcept -> void                                                               \
        {                                                                                                              \
            spec_rfft_##T(in.data_handle(), in.extent(0), reinterpret_cast<F*>(out.data_handle()), out.extent(0), size()); \
        }                                                                                                              \
        template<in_vector_of<std::complex<F>> In, out_vector_of<F> Out>                                               \
        auto operator()(In in, Out out) noexcept -> void                                                               \
        {                                                                                                              \
            spec_irfft_##T(reinterpret_cast<F const*>(in.data_handle()), in.extent(0), out.data_handle(), out.extent(0), size()); \
        }                                                                                                              \
        size_type _order;                                                                                              \
    };
SPEC(float, f32)
SPEC(double, f64)

#include "stream.cpp"

extern "C" void spec_mark(std::size_t off);

// any number of earlier blocks, then two more
#define HISTORY(NAME, F, C)                                                                                            \
    extern "C" void hist_##NAME##_##F(size_t block, size_t filter, F* past, size_t total, F* x, F* y)                  \
    {                                                                                                                  \
        auto o = cv::NAME<C>{block, filter};                                                                           \
        auto const process = [](auto s) { spec_process_##F(reinterpret_cast<F*>(s.data_handle()), s.extent(0)); };     \
        size_t off = 0;                                                                                                \
        for (; total - off >= block; off += block) { o(vec(past + off, block), process); }                             \
        spec_mark(off);                                                                                                \
        o(vec(x, block), process);                                                                                     \
        o(vec(y, block), process);                                                                                     \
    }                                                                                                                  \
    extern "C" void last_##NAME##_##F(size_t block, size_t filter, F* past, size_t total, F* x)                        \
    {                                                                                                                  \
        auto o = cv::NAME<C>{block, filter};                                                                           \
        auto const process = [](auto s) { spec_process_##F(reinterpret_cast<F*>(s.data_handle()), s.extent(0)); };     \
        size_t off = 0;                                                                                                \
        for (; total - off >= block; off += block) { o(vec(past + off, block), process); }                             \
        spec_mark(off);                                                                                                \
        o(vec(x, block), process);                                                                                     \
    }                                                                                                                  \
    extern "C" void first_##NAME##_##F(size_t block, size_t filter, F* x)                                              \
    {                                                                                                                  \
        auto o = cv::NAME<C>{block, filter};                                                                           \
        o(vec(x, block), [](auto s) { spec_process_##F(reinterpret_cast<F*>(s.data_handle()), s.extent(0)); });        \
    }
HISTORY(overlap_add, f32, c64) HISTORY(overlap_add, f64, c128) HISTORY(overlap_save, f32, c64) HISTORY(overlap_save, f64, c128)

// one convolver, used any number of times before
#define AGAIN(F)                                                                                                       \
    extern "C" void hist_fftconv_##F(F const* px, F const* ph, F* po, size_t times, F const* x, size_t n, F const* h, size_t m, F* out) \
    {                                                                                                                  \
        auto c = cv::fft_convolver<F>{n, m};                                                                           \
        for (size_t i = 0; i < times; ++i) { c(vec(px, n), vec(ph, m), vec(po, c.output_size())); }                    \
        c(vec(x, n), vec(h, m), vec(out, c.output_size()));                                                            \
    }
AGAIN(f32) AGAIN(f64)

// The partitioned convolver over parts of which only their contract is known: the overlap stage (above), the delay line and the
// filter (C19). The index of the delay line (C17) and the convolver itself are the real ones.
#define PARTS(F)                                                                                                       \
    extern "C" void spec_analysis_##F(F* block, size_t n, F* spectrum, size_t bins);                                   \
    extern "C" void spec_synthesis_##F(F* spectrum, size_t bins, F* block, size_t n);                                  \
    extern "C" void spec_insert_##F(F* x, size_t bins, size_t slot, size_t rows, size_t columns);                      \
    extern "C" void spec_filter_##F(F const* h, size_t rows, size_t columns);                                          \
    extern "C" void spec_madd_##F(size_t segment, size_t part, F* acc, size_t bins);                                   \
    struct ghost_##F                                                                                                   \
    {                                                                                                                  \
        using C = std::complex<F>;                                                                                     \
        struct overlap                                                                                                 \
        {                                                                                                              \
            using value_type = C;                                                                                      \
            overlap(size_t block, size_t filter) : _block{block}, _spectrum{filter + 1} {}                             \
            auto operator()(auto block, auto callback) -> void                                                         \
            {                                                                                                          \
                auto s = _spectrum.to_mdspan();                                                                        \
                auto p = reinterpret_cast<F*>(s.data_handle());                                                        \
                assert(block.extent(0) == _block);                                                                     \
                spec_analysis_##F(block.data_handle(), block.extent(0), p, s.extent(0));                               \
                callback(s);                                                                                           \
                spec_synthesis_##F(p, s.extent(0), block.data_handle(), block.extent(0));                              \
            }                                                                                                          \
            size_t _block;                                                                                             \
            stdex::mdarray<C, one> _spectrum;                                                                          \
        };                                                                                                             \
        struct fdl                                                                                                     \
        {                                                                                                              \
            fdl() = default;                                                                                           \
            explicit fdl(stdex::dextents<size_t, 2> e) : _rows{e.extent(0)}, _columns{e.extent(1)} {}                  \
            auto operator[](size_t i) const -> size_t { return i; }                                                    \
            auto insert(auto x, size_t slot) -> void                                                                   \
            {                                                                                                          \
                spec_insert_##F(reinterpret_cast<F*>(x.data_handle()), x.extent(0), slot, _rows, _columns);            \
            }                                                                                                          \
            size_t _rows{0}, _columns{0};                                                                              \
        };                                                                                                             \
        struct filter                                                                                                  \
        {                                                                                                              \
            using accumulator_type = stdex::mdarray<C, one>;                                                           \
            void operator()(size_t segment, size_t part, auto acc)                                                     \
            {                                                                                                          \
                spec_madd_##F(segment, part, reinterpret_cast<F*>(acc.data_handle()), acc.extent(0));                  \
            }                                                                                                          \
            auto set(auto h) -> void { spec_filter_##F(reinterpret_cast<F const*>(h.data_handle()), h.extent(0), h.extent(1)); } \
        };                                                                                                             \
        struct named_filter : filter { void filter(auto h) { this->set(h); } };                                        \
    };                                                                                                                 \
    extern "C" void hist_partitioned_##F(F const* h, size_t rows, size_t columns, F* past, size_t times, F* x)         \
    {                                                                                                                  \
        using C = std::complex<F>;                                                                                     \
        auto c  = cv::uniform_partitioned_convolver<ghost_##F::overlap, ghost_##F::fdl, ghost_##F::named_filter>{};    \
        c.filter(stdex::mdspan<C const, stdex::dextents<size_t, 2>>{reinterpret_cast<C const*>(h), rows, columns});    \
        for (size_t t = 0; t < times; ++t) { c(vec(past, columns - 1)); }                                              \
        c(vec(x, columns - 1));                                                                                        \
    }
PARTS(f32) PARTS(f64)
