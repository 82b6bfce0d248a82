// Stand-in for Kokkos::Experimental::mdarray (P1684); see mdspan.hpp.
#pragma once

#include "mdspan.hpp"

#include <vector>

namespace Kokkos::Experimental {

template<
    typename ElementType,
    typename Extents,
    typename LayoutPolicy = layout_right,
    typename Container    = std::vector<ElementType>>
struct mdarray
{
    using extents_type   = Extents;
    using layout_type    = LayoutPolicy;
    using container_type = Container;
    using mapping_type   = typename layout_type::template mapping<extents_type>;
    using element_type   = ElementType;
    using value_type     = std::remove_cv_t<element_type>;
    using index_type     = typename extents_type::index_type;
    using size_type      = typename extents_type::size_type;
    using rank_type      = typename extents_type::rank_type;

    static constexpr auto rank() noexcept -> rank_type { return extents_type::rank(); }

    constexpr mdarray()
        requires(extents_type::rank_dynamic() != 0)
    = default;

    constexpr mdarray()
        requires(extents_type::rank_dynamic() == 0)
        : _mapping{extents_type{}}
        , _container(static_cast<std::size_t>(_mapping.required_span_size()))
    {}

    template<std::integral... I>
        requires((sizeof...(I) == extents_type::rank() or sizeof...(I) == extents_type::rank_dynamic())
                 and sizeof...(I) > 0)
    constexpr explicit mdarray(I... i)
        : _mapping{extents_type{i...}}
        , _container(static_cast<std::size_t>(_mapping.required_span_size()))
    {}

    constexpr explicit mdarray(extents_type const& e)
        : _mapping{e}
        , _container(static_cast<std::size_t>(_mapping.required_span_size()))
    {}

    constexpr explicit mdarray(mapping_type const& m)
        : _mapping{m}
        , _container(static_cast<std::size_t>(_mapping.required_span_size()))
    {}

    template<typename... I>
        requires(sizeof...(I) == extents_type::rank() and (std::is_convertible_v<I, index_type> and ...))
    [[nodiscard]] constexpr auto operator()(I... i) -> element_type&
    {
        return _container[static_cast<std::size_t>(_mapping(static_cast<index_type>(i)...))];
    }

    template<typename... I>
        requires(sizeof...(I) == extents_type::rank() and (std::is_convertible_v<I, index_type> and ...))
    [[nodiscard]] constexpr auto operator()(I... i) const -> element_type const&
    {
        return _container[static_cast<std::size_t>(_mapping(static_cast<index_type>(i)...))];
    }

    template<typename I>
        requires(extents_type::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] constexpr auto operator[](I i) -> element_type&
    {
        return _container[static_cast<std::size_t>(_mapping(static_cast<index_type>(i)))];
    }

    template<typename I>
        requires(extents_type::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] constexpr auto operator[](I i) const -> element_type const&
    {
        return _container[static_cast<std::size_t>(_mapping(static_cast<index_type>(i)))];
    }

    [[nodiscard]] constexpr auto to_mdspan() -> mdspan<element_type, extents_type, layout_type>
    {
        return {_container.data(), _mapping};
    }

    [[nodiscard]] constexpr auto to_mdspan() const -> mdspan<element_type const, extents_type, layout_type>
    {
        return {_container.data(), _mapping};
    }

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        auto n = size_type(1);
        Kokkos::detail::for_rank<rank()>([&](auto r) {
            n = static_cast<size_type>(n * static_cast<size_type>(extent(r)));
        });
        return n;
    }

    [[nodiscard]] constexpr auto container_size() const noexcept { return _container.size(); }

    [[nodiscard]] constexpr auto data() noexcept -> element_type* { return _container.data(); }

    [[nodiscard]] constexpr auto data() const noexcept -> element_type const* { return _container.data(); }

    [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _mapping.extents(); }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type
    {
        return _mapping.extents().extent(r);
    }

    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _mapping.stride(r); }

    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _mapping; }

private:
    mapping_type _mapping{};
    container_type _container;
};

}  // namespace Kokkos::Experimental
