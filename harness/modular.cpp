// The wrappers of xform.cpp, with the complex transform replaced by its contract: fft_plan<std::complex<T>> becomes a type that
// calls an external function, so that its callers are verified against what C20 states about it and not against its body.
// A second plan keeps the real reordering and twiddle tables and replaces the kernel only.
#include <neo/fft.hpp>
#include <complex>
#include <cstddef>

extern "C" void spec_fft_f32(float* x, std::size_t n, int back);
extern "C" void spec_fft_f64(double* x, std::size_t n, int back);
extern "C" void spec_kernel_f32(float* x, std::size_t n, float const* w, std::size_t nw);
extern "C" void spec_kernel_f64(double* x, std::size_t n, double const* w, std::size_t nw);

#define SPEC(F, T)                                                                                                     \
    template<>                                                                                                         \
    struct neo::fft::c2c_dit2_plan<std::complex<F>, neo::fft::kernel::c2c_dit2_v3>                                     \
    {                                                                                                                  \
        using value_type = std::complex<F>;                                                                            \
        using size_type  = std::size_t;                                                                                \
        c2c_dit2_plan(from_order_tag, size_type o) : _order{o} {}                                                      \
        [[nodiscard]] auto order() const noexcept -> size_type { return _order; }                                      \
        [[nodiscard]] auto size() const noexcept -> size_type { return size_type(1) << _order; }                       \
        template<inout_vector Vec>                                                                                     \
            requires std::same_as<typename Vec::value_type, std::complex<F>>                                           \
        auto operator()(Vec x, direction dir) noexcept -> void                                                         \
        {                                                                                                              \
            spec_fft_##T(reinterpret_cast<F*>(x.data_handle()), x.extent(0), dir == direction::forward ? 0 : 1);       \
        }                                                                                                              \
        size_type _order;                                                                                              \
    };
SPEC(float, f32)
SPEC(double, f64)

struct spec_kernel
{
    template<typename X, typename W>
    auto operator()(X x, W w) const noexcept -> void
    {
        using F = typename X::value_type::value_type;
        if constexpr (sizeof(F) == 4) {
            spec_kernel_f32(reinterpret_cast<F*>(x.data_handle()), x.extent(0), reinterpret_cast<F const*>(w.data_handle()), w.extent(0));
        } else {
            spec_kernel_f64(reinterpret_cast<F*>(x.data_handle()), x.extent(0), reinterpret_cast<F const*>(w.data_handle()), w.extent(0));
        }
    }
};

#include "xform.cpp"

PLAN(spec, c64, neo::fft::c2c_dit2_plan<c64, spec_kernel>)
PLAN(spec, c128, neo::fft::c2c_dit2_plan<c128, spec_kernel>)
