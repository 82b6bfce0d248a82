// Wrappers that instantiate neo's compressed sparse row matrix and the multiply-add with one of its rows.
#include <neo/algorithm/multiply_add.hpp>
#include <neo/complex.hpp>
#include <neo/container/csr_matrix.hpp>
#include <complex>
#include <cstddef>
#include <cstdint>

using f32 = float; using f64 = double; using c64 = std::complex<float>; using c128 = std::complex<double>;
using u64 = std::size_t; using i32 = std::int32_t;
using std::size_t;
using one = stdex::dextents<size_t, 1>; using two = stdex::dextents<size_t, 2>;
template<typename T> auto vec(T* p, size_t n) { return stdex::mdspan<T, one>{p, n}; }
template<typename T> auto mat(T* p, size_t r, size_t c) { return stdex::mdspan<T, two>{p, r, c}; }

// Containers over the caller's memory, so that the matrix can be put into any state.
// An insertion is recorded (position, value, number of insertions) instead of moving the elements behind it.
template<typename T> static T* g_default;          // memory of the next default constructed container
template<typename T> static T* g_sized;            // memory of the next container constructed with a size
template<typename T> static size_t g_len;          // its length
template<typename T> static T* g_value;            // what an insertion does
template<typename T> static size_t* g_log;
template<typename T, bool Fill> struct view
{
    T* p;
    size_t n;
    T* value{g_value<T>};
    size_t* log{g_log<T>};
    view() : p{g_default<T>}, n{g_len<T>} {}
    view(size_t len, T v) : p{g_sized<T>}, n{len} { if constexpr (Fill) { for (size_t i = 0; i < len; ++i) { p[i] = v; } } }
    auto operator[](size_t i) -> T& { return p[i]; }
    auto operator[](size_t i) const -> T const& { return p[i]; }
    auto begin() -> T* { return p; }
    auto begin() const -> T const* { return p; }
    auto end() -> T* { return p + n; }
    auto end() const -> T const* { return p + n; }
    auto back() -> T& { return p[n - 1]; }
    auto size() const -> size_t { return n; }
    auto resize(size_t len) -> void { n = len; log[0] = len; ++log[1]; }
    auto insert(T* at, T const& v) -> void { value[0] = v; log[0] = static_cast<size_t>(at - p); ++log[1]; }
};
template<typename T, bool Fill> using csr = neo::csr_matrix<T, size_t, view<T, Fill>, view<size_t, Fill>>;

#define STATE(T) g_default<T> = const_cast<T*>(vals); g_len<T> = nnz; g_default<u64> = const_cast<u64*>(cix); g_len<u64> = nnz; g_sized<u64> = const_cast<u64*>(rix);
#define CSR(T)                                                                                                         \
    extern "C" void csrget_##T(size_t r, size_t c, u64 const* rix, u64 const* cix, T const* vals, size_t nnz, size_t row, size_t col, T* out, size_t* dim) \
    {                                                                                                                  \
        STATE(T)                                                                                                       \
        auto const m = csr<T, false>{r, c};                                                                            \
        dim[0] = m.rows(); dim[1] = m.columns(); dim[2] = m.extent(0); dim[3] = m.extent(1);                           \
        out[0] = m(row, col);                                                                                          \
    }                                                                                                                  \
    extern "C" void csrfma_##T(size_t r, size_t c, u64 const* rix, u64 const* cix, T const* vals, size_t nnz, size_t row, T const* x, T const* z, T* out) \
    {                                                                                                                  \
        STATE(T)                                                                                                       \
        auto const m = csr<T, false>{r, c};                                                                            \
        neo::multiply_add(vec(x, c), m, row, vec(z, c), vec(out, c));                                                  \
    }                                                                                                                  \
    extern "C" void csrins_##T(size_t r, size_t c, u64* rix, u64 const* cix, T* vals, size_t nnz, size_t row, size_t col, T const* v, T* value, size_t* vlog, u64* column, size_t* clog) \
    {                                                                                                                  \
        STATE(T)                                                                                                       \
        g_value<T> = value; g_log<T> = vlog; g_value<u64> = column; g_log<u64> = clog;                                 \
        auto m = csr<T, false>{r, c};                                                                                  \
        m.insert(row, col, v[0]);                                                                                      \
    }                                                                                                                  \
    extern "C" void csrmake_##T(T const* d, size_t r, size_t c, std::uint8_t const* mask, u64* rix, u64* cix, T* vals, size_t nnz, size_t* vlog, size_t* clog) \
    {                                                                                                                  \
        STATE(T) g_log<T> = vlog; g_log<u64> = clog;                                                                                                       \
        auto m = csr<T, false>{mat(d, r, c), [=](size_t i, size_t j, T) { return mask[i * c + j] != 0; }};             \
    }                                                                                                                  \
    /* a history on the ordinary container: build from a matrix and a predicate, then insert, then read everything */  \
    extern "C" size_t csrhist_##T(T const* d, size_t r, size_t c, std::uint8_t const* mask, u64 const* ij, T const* v, size_t ops, T* all, T const* x, T const* z, T* out) \
    {                                                                                                                  \
        auto m = mask ? neo::csr_matrix<T>{mat(d, r, c), [=](size_t i, size_t j, T) { return mask[i * c + j] != 0; }}  \
                      : neo::csr_matrix<T>{r, c};                                                                      \
        for (size_t k = 0; k < ops; ++k) { m.insert(ij[2 * k], ij[2 * k + 1], v[k]); }                                 \
        auto const dense = mat(all, r, c);                                                                             \
        for (size_t i = 0; i < r; ++i) {                                                                               \
            for (size_t j = 0; j < c; ++j) { dense(i, j) = m(i, j); }                                                  \
            neo::multiply_add(vec(x, c), m, i, vec(z + i * c, c), vec(out + i * c, c));                                \
        }                                                                                                              \
        if (m.rows() != r || m.columns() != c || m.size() != r * c) { return size_t(-1); }                             \
        return m.value_container().size() == m.column_container().size() ? m.value_container().size() : size_t(-2);    \
    }
CSR(f32) CSR(f64) CSR(c64) CSR(c128)
