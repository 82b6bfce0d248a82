// A small stand-in for the part of the Kokkos reference implementation of
// std::mdspan (P0009, P2630) that neo uses.  The library itself is not
// installed in this sandbox, so every header of neo that includes
// <mdspan/mdspan.hpp> is compiled against this file by the checks.  It follows
// the wording of the standard for the members it has; see DESIGN.md
// ("Trusted base").
#pragma once

#include <array>
#include <concepts>
#include <cstddef>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

namespace Kokkos {

namespace detail {

// f(0), f(1), ... f(N - 1) with constant arguments (no loop is left in the compiled code)
template<std::size_t N, typename F>
constexpr auto for_rank(F f) -> void
{
    [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }
    (std::make_index_sequence<N>{});
}

template<std::size_t N, typename F>
constexpr auto all_rank(F f) -> bool
{
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return (f(std::integral_constant<std::size_t, I>{}) and ...); }
    (std::make_index_sequence<N>{});
}

}  // namespace detail

inline constexpr auto dynamic_extent = std::dynamic_extent;

struct full_extent_t
{
    explicit full_extent_t() = default;
};

inline constexpr auto full_extent = full_extent_t{};

template<typename IndexType, std::size_t... Extents>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<index_type>;
    using rank_type  = std::size_t;

    static constexpr auto rank() noexcept -> rank_type { return sizeof...(Extents); }

    static constexpr auto rank_dynamic() noexcept -> rank_type
    {
        return ((Extents == dynamic_extent ? std::size_t(1) : std::size_t(0)) + ... + std::size_t(0));
    }

    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        constexpr std::size_t s[] = {Extents..., 0};
        return s[r];
    }

    constexpr extents() noexcept
    {
        detail::for_rank<sizeof...(Extents)>([this](auto r) {
            _e[r] = static_extent(r) == dynamic_extent ? index_type(0) : static_cast<index_type>(static_extent(r));
        });
    }

    template<std::integral... I>
        requires(sizeof...(I) == sizeof...(Extents) and sizeof...(I) > 0)
    constexpr explicit extents(I... i) noexcept : _e{static_cast<index_type>(i)...}
    {}

    template<std::integral... I>
        requires(sizeof...(I) != sizeof...(Extents) and sizeof...(I) == rank_dynamic() and sizeof...(I) > 0)
    constexpr explicit extents(I... i) noexcept : extents{}
    {
        index_type const dyn[] = {static_cast<index_type>(i)...};
        auto next              = std::size_t{0};
        detail::for_rank<sizeof...(Extents)>([&](auto r) {
            if (static_extent(r) == dynamic_extent) {
                _e[r] = dyn[next++];
            }
        });
    }

    template<typename I, std::size_t N>
        requires(N == sizeof...(Extents))
    constexpr extents(std::array<I, N> const& a) noexcept : extents{a, std::make_index_sequence<N>{}}
    {}

    template<typename OtherIndex, std::size_t... Other>
        requires(sizeof...(Other) == sizeof...(Extents) and not std::same_as<extents<OtherIndex, Other...>, extents>)
    constexpr extents(extents<OtherIndex, Other...> const& o) noexcept
        : extents{o, std::make_index_sequence<sizeof...(Other)>{}}
    {}

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _e[r]; }

    template<typename OtherIndex, std::size_t... Other>
    friend constexpr auto operator==(extents const& l, extents<OtherIndex, Other...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(Other) != sizeof...(Extents)) {
            return false;
        } else {
            return detail::all_rank<sizeof...(Extents)>([&](auto i) { return std::cmp_equal(l.extent(i), r.extent(i)); });
        }
    }

private:
    template<typename I, std::size_t N, std::size_t... R>
    constexpr extents(std::array<I, N> const& a, std::index_sequence<R...>) noexcept : _e{static_cast<index_type>(a[R])...}
    {}

    template<typename OtherIndex, std::size_t... Other, std::size_t... R>
    constexpr extents(extents<OtherIndex, Other...> const& o, std::index_sequence<R...>) noexcept
        : _e{static_cast<index_type>(o.extent(R))...}
    {}

    index_type _e[sizeof...(Extents) == 0 ? 1 : sizeof...(Extents)]{};
};

template<std::integral... I>
    requires(sizeof...(I) > 0)
extents(I...) -> extents<std::size_t, ((void)sizeof(I), dynamic_extent)...>;

namespace detail {

template<typename IndexType, typename Seq>
struct make_dextents;

template<typename IndexType, std::size_t... I>
struct make_dextents<IndexType, std::index_sequence<I...>>
{
    using type = extents<IndexType, ((void)I, dynamic_extent)...>;
};

}  // namespace detail

template<typename IndexType, std::size_t Rank>
using dextents = typename detail::make_dextents<IndexType, std::make_index_sequence<Rank>>::type;

struct layout_right
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_right;

        constexpr mapping() noexcept = default;

        constexpr mapping(extents_type const& e) noexcept : _extents{e} {}

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _extents; }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            auto n = index_type(1);
            detail::for_rank<Extents::rank()>([&](auto r) { n = static_cast<index_type>(n * _extents.extent(r)); });
            return n;
        }

        template<typename... I>
        [[nodiscard]] constexpr auto operator()(I... i) const noexcept -> index_type
        {
            auto offset = index_type(0);
            auto r      = rank_type(0);
            ((offset = static_cast<index_type>(offset * _extents.extent(r++) + static_cast<index_type>(i))), ...);
            return offset;
        }

        [[nodiscard]] constexpr auto stride(rank_type i) const noexcept -> index_type
        {
            auto s = index_type(1);
            detail::for_rank<Extents::rank()>([&](auto r) {
                if (r > i) {
                    s = static_cast<index_type>(s * _extents.extent(r));
                }
            });
            return s;
        }

        static constexpr auto is_always_unique() noexcept -> bool { return true; }

        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }

        static constexpr auto is_always_strided() noexcept -> bool { return true; }

    private:
        [[no_unique_address]] extents_type _extents{};
    };
};

struct layout_left
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_left;

        constexpr mapping() noexcept = default;

        constexpr mapping(extents_type const& e) noexcept : _extents{e} {}

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _extents; }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            auto n = index_type(1);
            detail::for_rank<Extents::rank()>([&](auto r) { n = static_cast<index_type>(n * _extents.extent(r)); });
            return n;
        }

        template<typename... I>
        [[nodiscard]] constexpr auto operator()(I... i) const noexcept -> index_type
        {
            auto offset = index_type(0);
            auto r      = rank_type(0);
            ((offset = static_cast<index_type>(offset + static_cast<index_type>(i) * stride(r++))), ...);
            return offset;
        }

        [[nodiscard]] constexpr auto stride(rank_type i) const noexcept -> index_type
        {
            auto s = index_type(1);
            detail::for_rank<Extents::rank()>([&](auto r) {
                if (r < i) {
                    s = static_cast<index_type>(s * _extents.extent(r));
                }
            });
            return s;
        }

        static constexpr auto is_always_unique() noexcept -> bool { return true; }

        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }

        static constexpr auto is_always_strided() noexcept -> bool { return true; }

    private:
        [[no_unique_address]] extents_type _extents{};
    };
};

struct layout_stride
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_stride;

        constexpr mapping() noexcept = default;

        template<typename I>
        constexpr mapping(extents_type const& e, std::array<I, Extents::rank()> const& s) noexcept
            : mapping{e, s, std::make_index_sequence<Extents::rank()>{}}
        {}

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _extents; }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            if (not detail::all_rank<Extents::rank()>([&](auto r) { return _extents.extent(r) != 0; })) {
                return 0;
            }
            auto n = index_type(1);
            detail::for_rank<Extents::rank()>([&](auto r) {
                n = static_cast<index_type>(n + (_extents.extent(r) - 1) * _strides[r]);
            });
            return n;
        }

        template<typename... I>
        [[nodiscard]] constexpr auto operator()(I... i) const noexcept -> index_type
        {
            auto offset = index_type(0);
            auto r      = rank_type(0);
            ((offset = static_cast<index_type>(offset + static_cast<index_type>(i) * _strides[r++])), ...);
            return offset;
        }

        [[nodiscard]] constexpr auto stride(rank_type i) const noexcept -> index_type { return _strides[i]; }

        static constexpr auto is_always_unique() noexcept -> bool { return true; }

        static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }

        static constexpr auto is_always_strided() noexcept -> bool { return true; }

    private:
        template<typename I, std::size_t... R>
        constexpr mapping(extents_type const& e, std::array<I, Extents::rank()> const& s, std::index_sequence<R...>) noexcept
            : _extents{e}
            , _strides{static_cast<index_type>(s[R])...}
        {}

        [[no_unique_address]] extents_type _extents{};
        index_type _strides[Extents::rank() == 0 ? 1 : Extents::rank()]{};
    };
};

template<typename ElementType>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = ElementType;
    using reference        = ElementType&;
    using data_handle_type = ElementType*;

    constexpr default_accessor() noexcept = default;

    template<typename Other>
        requires std::is_convertible_v<Other (*)[], ElementType (*)[]>
    constexpr default_accessor(default_accessor<Other>) noexcept
    {}

    [[nodiscard]] constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference { return p[i]; }

    [[nodiscard]] constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type
    {
        return p + i;
    }
};

template<
    typename ElementType,
    typename Extents,
    typename LayoutPolicy   = layout_right,
    typename AccessorPolicy = default_accessor<ElementType>>
struct mdspan
{
    using extents_type     = Extents;
    using layout_type      = LayoutPolicy;
    using accessor_type    = AccessorPolicy;
    using mapping_type     = typename layout_type::template mapping<extents_type>;
    using element_type     = ElementType;
    using value_type       = std::remove_cv_t<element_type>;
    using index_type       = typename extents_type::index_type;
    using size_type        = typename extents_type::size_type;
    using rank_type        = typename extents_type::rank_type;
    using data_handle_type = typename accessor_type::data_handle_type;
    using reference        = typename accessor_type::reference;

    static constexpr auto rank() noexcept -> rank_type { return extents_type::rank(); }

    static constexpr auto rank_dynamic() noexcept -> rank_type { return extents_type::rank_dynamic(); }

    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return extents_type::static_extent(r); }

    static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }

    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }

    static constexpr auto is_always_strided() noexcept -> bool { return mapping_type::is_always_strided(); }

    constexpr mdspan()
        requires std::default_initializable<accessor_type>
    = default;

    template<std::integral... I>
        requires(
            (sizeof...(I) == extents_type::rank() or sizeof...(I) == extents_type::rank_dynamic()) 
            and std::default_initializable<accessor_type>
        )
    constexpr explicit mdspan(data_handle_type p, I... i) : _ptr{p}
                                                          , _mapping{extents_type{i...}}
    {}

    constexpr mdspan(data_handle_type p, extents_type const& e)
        requires std::default_initializable<accessor_type>
        : _ptr{p}
        , _mapping{e}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m)
        requires std::default_initializable<accessor_type>
        : _ptr{p}
        , _mapping{m}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m, accessor_type const& a)
        : _ptr{p}
        , _mapping{m}
        , _accessor{a}
    {}

    template<typename OtherElement, typename OtherExtents, typename OtherAccessor>
        requires(
            not std::same_as<mdspan<OtherElement, OtherExtents, LayoutPolicy, OtherAccessor>, mdspan>
            and std::is_constructible_v<accessor_type, OtherAccessor const&>
            and std::is_constructible_v<extents_type, OtherExtents const&>
            and std::is_convertible_v<OtherElement (*)[], ElementType (*)[]> and std::same_as<OtherExtents, Extents>
        )
    constexpr mdspan(mdspan<OtherElement, OtherExtents, LayoutPolicy, OtherAccessor> const& o)
        : _ptr{o.data_handle()}
        , _mapping{o.mapping()}
        , _accessor{o.accessor()}
    {}

    template<typename... I>
        requires(sizeof...(I) == extents_type::rank() and (std::is_convertible_v<I, index_type> and ...))
    [[nodiscard]] constexpr auto operator()(I... i) const -> reference
    {
        return _accessor.access(_ptr, static_cast<std::size_t>(_mapping(static_cast<index_type>(i)...)));
    }

    template<typename I>
        requires(extents_type::rank() == 1 and std::is_convertible_v<I, index_type>)
    [[nodiscard]] constexpr auto operator[](I i) const -> reference
    {
        return _accessor.access(_ptr, static_cast<std::size_t>(_mapping(static_cast<index_type>(i))));
    }

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        auto n = size_type(1);
        detail::for_rank<rank()>([&](auto r) { n = static_cast<size_type>(n * static_cast<size_type>(extent(r))); });
        return n;
    }

    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }

    [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _mapping.extents(); }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type
    {
        return _mapping.extents().extent(r);
    }

    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _mapping.stride(r); }

    [[nodiscard]] constexpr auto data_handle() const noexcept -> data_handle_type const& { return _ptr; }

    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _mapping; }

    [[nodiscard]] constexpr auto accessor() const noexcept -> accessor_type const& { return _accessor; }

private:
    data_handle_type _ptr{};
    mapping_type _mapping{};
    [[no_unique_address]] accessor_type _accessor;
};

template<typename E, std::integral... I>
    requires(sizeof...(I) > 0)
mdspan(E*, I...) -> mdspan<E, dextents<std::size_t, sizeof...(I)>>;

template<typename E, typename IndexType, std::size_t... X>
mdspan(E*, extents<IndexType, X...> const&) -> mdspan<E, extents<IndexType, X...>>;

template<typename E, typename Mapping>
    requires requires { typename Mapping::layout_type; }
mdspan(E*, Mapping const&) -> mdspan<E, typename Mapping::extents_type, typename Mapping::layout_type>;

template<typename Mapping, typename Accessor>
mdspan(typename Accessor::data_handle_type, Mapping const&, Accessor const&)
    -> mdspan<typename Accessor::element_type, typename Mapping::extents_type, typename Mapping::layout_type, Accessor>;

namespace detail {

template<typename S>
inline constexpr auto is_full_slice = std::is_convertible_v<S, full_extent_t>;

template<typename S>
inline constexpr auto is_index_slice = std::is_integral_v<S>;

// Slices that are neither an index nor the full extent are pair-like: [first, last)
template<typename S>
inline constexpr auto is_range_slice = not is_full_slice<S> and not is_index_slice<S>;

// layout_right survives when every slice before the first kept one is an index
// and every slice after the first kept one is the full extent.
template<typename... S>
consteval auto keeps_layout_right() -> bool
{
    bool const index[] = {is_index_slice<S>...};
    bool const full[]  = {is_full_slice<S>...};
    auto i             = std::size_t{0};
    while (i < sizeof...(S) and index[i]) {
        ++i;
    }
    for (++i; i < sizeof...(S); ++i) {
        if (not full[i]) {
            return false;
        }
    }
    return true;
}

// layout_left mirrors that: full extents first, then one kept, then indices.
template<typename... S>
consteval auto keeps_layout_left() -> bool
{
    bool const index[] = {is_index_slice<S>...};
    bool const full[]  = {is_full_slice<S>...};
    auto i             = sizeof...(S);
    while (i > 0 and index[i - 1]) {
        --i;
    }
    if (i == 0) {
        return true;
    }
    for (--i; i > 0; --i) {
        if (not full[i - 1]) {
            return false;
        }
    }
    return true;
}

template<typename IndexType, typename S>
constexpr auto slice_first([[maybe_unused]] S const& s) -> IndexType
{
    if constexpr (is_index_slice<S>) {
        return static_cast<IndexType>(s);
    } else if constexpr (is_full_slice<S>) {
        return IndexType(0);
    } else {
        return static_cast<IndexType>(std::get<0>(s));
    }
}

template<typename IndexType, typename S>
constexpr auto slice_extent([[maybe_unused]] S const& s, [[maybe_unused]] IndexType whole) -> IndexType
{
    if constexpr (is_index_slice<S>) {
        return IndexType(1);
    } else if constexpr (is_full_slice<S>) {
        return whole;
    } else {
        return static_cast<IndexType>(static_cast<IndexType>(std::get<1>(s)) - static_cast<IndexType>(std::get<0>(s)));
    }
}

template<typename Source, std::size_t R, typename Acc, typename... S>
struct sub_extents_of
{
    using type = Acc;
};

template<typename Source, std::size_t R, typename IndexType, std::size_t... Kept, typename S, typename... Rest>
struct sub_extents_of<Source, R, extents<IndexType, Kept...>, S, Rest...>
{
    using next = std::conditional_t<
        is_index_slice<S>,
        extents<IndexType, Kept...>,
        extents<IndexType, Kept..., is_full_slice<S> ? Source::static_extent(R) : dynamic_extent>>;
    using type = typename sub_extents_of<Source, R + 1, next, Rest...>::type;
};

}  // namespace detail

template<typename E, typename X, typename L, typename A, typename... S>
    requires(sizeof...(S) == X::rank())
[[nodiscard]] constexpr auto submdspan(mdspan<E, X, L, A> const& src, S... slices)
{
    using index_type = typename X::index_type;
    using sub_type   = typename detail::sub_extents_of<X, 0, extents<index_type>, S...>::type;

    constexpr auto kept = sub_type::rank();

    index_type const first[]  = {detail::slice_first<index_type>(slices)...};
    auto const& e             = src.extents();
    auto r                    = std::size_t{0};
    index_type const length[] = {detail::slice_extent<index_type>(slices, e.extent(r++))...};

    auto ext    = std::array<index_type, kept>{};
    auto stride = std::array<index_type, kept>{};
    auto offset = std::size_t{0};

    constexpr bool index[] = {detail::is_index_slice<S>...};
    auto k                 = std::size_t{0};
    detail::for_rank<X::rank()>([&](auto i) {
        offset += static_cast<std::size_t>(first[i]) * static_cast<std::size_t>(src.stride(i));
        if (not index[i]) {
            ext[k]    = length[i];
            stride[k] = src.stride(i);
            ++k;
        }
    });

    auto const accessor = typename A::offset_policy{src.accessor()};
    auto const handle   = src.accessor().offset(src.data_handle(), offset);
    using accessor_type = typename A::offset_policy;

    if constexpr (std::same_as<L, layout_right> and detail::keeps_layout_right<S...>()) {
        using mapping = layout_right::mapping<sub_type>;
        return mdspan<E, sub_type, layout_right, accessor_type>{handle, mapping{sub_type{ext}}, accessor};
    } else if constexpr (std::same_as<L, layout_left> and detail::keeps_layout_left<S...>()) {
        using mapping = layout_left::mapping<sub_type>;
        return mdspan<E, sub_type, layout_left, accessor_type>{handle, mapping{sub_type{ext}}, accessor};
    } else {
        using mapping = layout_stride::mapping<sub_type>;
        return mdspan<E, sub_type, layout_stride, accessor_type>{handle, mapping{sub_type{ext}, stride}, accessor};
    }
}

}  // namespace Kokkos
