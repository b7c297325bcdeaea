// A user-defined matrix / vector pair with arbitrary two-way strides.  The
// library knows nothing about it except the documented data-access interface
// (nrows, ncols, size, slice, rows, cols, row, col, diag, transpose_view,
// reshape, creation functors).  Its layout trait stays "Unspecified".
#pragma once
#include <cassert>
#include <cstddef>
#include <utility>
#include <vector>

#include "tlapack/base/arrayTraits.hpp"

namespace tlapack {
using sidx = std::size_t;

template <class T>
struct SVec {
    sidx n_;
    T* p;
    std::ptrdiff_t inc;
    SVec(sidx n, T* p, std::ptrdiff_t inc = 1) : n_(n), p(p), inc(inc) {}
    const T& operator[](sidx i) const
    {
        assert(i < n_);
        return p[(std::ptrdiff_t)i * inc];
    }
    T& operator[](sidx i)
    {
        assert(i < n_);
        return p[(std::ptrdiff_t)i * inc];
    }
};

template <class T>
struct SMat {
    sidx m_, n_;
    T* p;
    std::ptrdiff_t rs, cs;
    SMat(sidx m, sidx n, T* p, std::ptrdiff_t rs, std::ptrdiff_t cs)
        : m_(m), n_(n), p(p), rs(rs), cs(cs)
    {}
    const T& operator()(sidx i, sidx j) const
    {
        assert(i < m_ && j < n_);
        return p[(std::ptrdiff_t)i * rs + (std::ptrdiff_t)j * cs];
    }
    T& operator()(sidx i, sidx j)
    {
        assert(i < m_ && j < n_);
        return p[(std::ptrdiff_t)i * rs + (std::ptrdiff_t)j * cs];
    }
};
}  // namespace tlapack

namespace tlapack {

template <class T>
constexpr sidx nrows(const SMat<T>& A) noexcept { return A.m_; }
template <class T>
constexpr sidx ncols(const SMat<T>& A) noexcept { return A.n_; }
template <class T>
constexpr sidx size(const SMat<T>& A) noexcept { return A.m_ * A.n_; }
template <class T>
constexpr sidx size(const SVec<T>& v) noexcept { return v.n_; }

namespace usr_detail {
template <class T>
T* at(T* p, sidx i, std::ptrdiff_t rs, sidx j, std::ptrdiff_t cs, bool empty)
{
    return empty ? p : p + ((std::ptrdiff_t)i * rs + (std::ptrdiff_t)j * cs);
}
template <class P>
inline void chk(const P& r, sidx n)
{
    assert(r.first <= r.second);
    assert((sidx)r.second <= n);
    (void)r;
    (void)n;
}
template <class S>
constexpr bool is_idx = std::is_convertible<S, sidx>::value;
}  // namespace usr_detail

#define USR_VIEWS(CQ, EQ)                                                     \
    template <class T, class R, class C,                                      \
              std::enable_if_t<!usr_detail::is_idx<R> &&                      \
                                   !usr_detail::is_idx<C>, int> = 0>          \
    constexpr auto slice(CQ SMat<T>& A, R&& r, C&& c)                         \
    {                                                                         \
        usr_detail::chk(r, A.m_);                                             \
        usr_detail::chk(c, A.n_);                                             \
        bool e = (r.first == r.second) || (c.first == c.second);              \
        return SMat<EQ T>(r.second - r.first, c.second - c.first,             \
                          usr_detail::at(A.p, (sidx)r.first, A.rs,            \
                                         (sidx)c.first, A.cs, e), A.rs, A.cs);\
    }                                                                         \
    template <class T, class C>                                               \
    constexpr auto slice(CQ SMat<T>& A, sidx i, C&& c)                        \
    {                                                                         \
        assert(i < A.m_);                                                     \
        usr_detail::chk(c, A.n_);                                             \
        return SVec<EQ T>(c.second - c.first,                                 \
                          usr_detail::at(A.p, i, A.rs, (sidx)c.first, A.cs,   \
                                         c.first == c.second), A.cs);         \
    }                                                                         \
    template <class T, class R>                                               \
    constexpr auto slice(CQ SMat<T>& A, R&& r, sidx j)                        \
    {                                                                         \
        assert(j < A.n_);                                                     \
        usr_detail::chk(r, A.m_);                                             \
        return SVec<EQ T>(r.second - r.first,                                 \
                          usr_detail::at(A.p, (sidx)r.first, A.rs, j, A.cs,   \
                                         r.first == r.second), A.rs);         \
    }                                                                         \
    template <class T, class R>                                               \
    constexpr auto rows(CQ SMat<T>& A, R&& r)                                 \
    {                                                                         \
        return slice(A, r, std::pair<sidx, sidx>{0, A.n_});                   \
    }                                                                         \
    template <class T, class C>                                               \
    constexpr auto cols(CQ SMat<T>& A, C&& c)                                 \
    {                                                                         \
        return slice(A, std::pair<sidx, sidx>{0, A.m_}, c);                   \
    }                                                                         \
    template <class T>                                                        \
    constexpr auto row(CQ SMat<T>& A, sidx i)                                 \
    {                                                                         \
        return slice(A, i, std::pair<sidx, sidx>{0, A.n_});                   \
    }                                                                         \
    template <class T>                                                        \
    constexpr auto col(CQ SMat<T>& A, sidx j)                                 \
    {                                                                         \
        return slice(A, std::pair<sidx, sidx>{0, A.m_}, j);                   \
    }                                                                         \
    template <class T>                                                        \
    constexpr auto diag(CQ SMat<T>& A, int d = 0)                             \
    {                                                                         \
        sidx i0 = d < 0 ? (sidx)(-d) : 0, j0 = d > 0 ? (sidx)d : 0;           \
        assert(i0 <= A.m_ && j0 <= A.n_);                                     \
        sidx k = std::min(A.m_ - i0, A.n_ - j0);                              \
        return SVec<EQ T>(k, usr_detail::at(A.p, i0, A.rs, j0, A.cs, k == 0), \
                          A.rs + A.cs);                                       \
    }                                                                         \
    template <class T>                                                        \
    constexpr auto transpose_view(CQ SMat<T>& A)                              \
    {                                                                         \
        return SMat<EQ T>(A.n_, A.m_, A.p, A.cs, A.rs);                       \
    }                                                                         \
    template <class T, class R>                                               \
    constexpr auto slice(CQ SVec<T>& v, R&& r)                                \
    {                                                                         \
        usr_detail::chk(r, v.n_);                                             \
        return SVec<EQ T>(r.second - r.first,                                 \
                          usr_detail::at(v.p, (sidx)r.first, v.inc, 0, 0,     \
                                         r.first == r.second), v.inc);        \
    }
USR_VIEWS(const, const)
USR_VIEWS(, )
#undef USR_VIEWS

// reshape: contiguous (column-major packed) storage required unless the shape
// is unchanged in one dimension (mirrors the documented Workspace contract)
template <class T>
auto reshape(SMat<T>& A, sidx m, sidx n)
{
    sidx s = A.m_ * A.n_, ns = m * n;
    if (ns > s) throw std::domain_error("New size is larger than current size");
    bool contig = s <= 1 || ((A.rs == 1 || A.m_ <= 1) &&
                             (A.cs == (std::ptrdiff_t)A.m_ || A.n_ <= 1) &&
                             !(A.m_ <= 1 && A.n_ > 1 && A.cs != 1));
    if (contig)
        return std::make_pair(SMat<T>(m, n, A.p, 1, (std::ptrdiff_t)m),
                              SMat<T>(s - ns, 1, A.p + ns, 1,
                                      (std::ptrdiff_t)(s - ns)));
    if (m == A.m_ || n == 0)
        return std::make_pair(cols(A, std::pair<sidx, sidx>{0, n}),
                              cols(A, std::pair<sidx, sidx>{n, A.n_}));
    if (n == A.n_ || m == 0)
        return std::make_pair(rows(A, std::pair<sidx, sidx>{0, m}),
                              rows(A, std::pair<sidx, sidx>{m, A.m_}));
    throw std::domain_error("Cannot reshape non-contiguous matrix");
}
template <class T>
auto reshape(SMat<T>& A, sidx n)
{
    sidx s = A.m_ * A.n_;
    if (n > s) throw std::domain_error("New size is larger than current size");
    bool contig = s <= 1 || ((A.rs == 1 || A.m_ <= 1) &&
                             (A.cs == (std::ptrdiff_t)A.m_ || A.n_ <= 1) &&
                             !(A.m_ <= 1 && A.n_ > 1 && A.cs != 1));
    if (contig)
        return std::make_pair(
            SVec<T>(n, A.p, 1),
            SMat<T>(s - n, 1, A.p + n, 1, (std::ptrdiff_t)(s - n)));
    if (n == 0) return std::make_pair(SVec<T>(0, A.p, 1), A);
    if (n == A.m_)
        return std::make_pair(SVec<T>(n, A.p, A.rs),
                              cols(A, std::pair<sidx, sidx>{1, A.n_}));
    if (n == A.n_)
        return std::make_pair(SVec<T>(n, A.p, A.cs),
                              rows(A, std::pair<sidx, sidx>{1, A.m_}));
    throw std::domain_error("Cannot reshape non-contiguous matrix");
}
template <class T>
auto reshape(SVec<T>& v, sidx m, sidx n)
{
    sidx ns = m * n;
    if (ns > v.n_) throw std::domain_error("New size larger");
    bool contig = v.inc == 1 || v.n_ <= 1;
    if (!contig && m > 1) throw std::domain_error("incompatible sizes");
    return std::make_pair(
        SMat<T>(m, n, v.p, contig ? 1 : v.inc,
                contig ? (std::ptrdiff_t)m : v.inc),
        SVec<T>(v.n_ - ns, v.n_ == ns ? v.p : v.p + (std::ptrdiff_t)ns * v.inc, v.inc));
}
template <class T>
auto reshape(SVec<T>& v, sidx n)
{
    if (n > v.n_) throw std::domain_error("New size larger");
    return std::make_pair(slice(v, std::pair<sidx, sidx>{0, n}),
                          slice(v, std::pair<sidx, sidx>{n, v.n_}));
}

namespace traits {
    template <class T>
    struct is_smat : std::false_type {};
    template <class T>
    struct is_smat<SMat<T>> : std::true_type {};
    template <class T>
    struct is_smat<SVec<T>> : std::true_type {};

    template <class T>
    struct real_type_traits<SVec<T>, int> {
        using type = SVec<real_type<T>>;
    };
    template <class T>
    struct real_type_traits<SMat<T>, int> {
        using type = SMat<real_type<T>>;
    };
    template <class T>
    struct complex_type_traits<SVec<T>, int> {
        using type = SVec<complex_type<T>>;
    };
    template <class T>
    struct complex_type_traits<SMat<T>, int> {
        using type = SMat<complex_type<T>>;
    };
    template <class U>
    struct CreateFunctor<SMat<U>, int> {
        template <class T>
        auto operator()(std::vector<T>& v, sidx m, sidx n) const
        {
            v.resize((sidx)m * n);
            return SMat<T>(m, n, v.data(), 1, (std::ptrdiff_t)m);
        }
    };
    template <class U>
    struct CreateFunctor<SVec<U>, int> {
        template <class T>
        auto operator()(std::vector<T>& v, sidx n) const
        {
            v.resize(n);
            return SVec<T>(n, v.data(), 1);
        }
    };
    template <class U, int m, int n>
    struct CreateStaticFunctor<SMat<U>, m, n, int> {
        template <class T>
        auto operator()(T* v) const
        {
            return SMat<T>(m, n, v, 1, (std::ptrdiff_t)m);
        }
    };
    template <class U, int n>
    struct CreateStaticFunctor<SVec<U>, n, -1, int> {
        template <class T>
        auto operator()(T* v) const
        {
            return SVec<T>(n, v, 1);
        }
    };
    template <class A, class B>
    constexpr bool any_smat = is_smat<A>::value || is_smat<B>::value;

    template <class A, class B>
    struct matrix_type_traits<A, B, std::enable_if_t<any_smat<A, B>, int>> {
        using type = SMat<scalar_type<type_t<A>, type_t<B>>>;
    };
    template <class A, class B>
    struct vector_type_traits<A, B, std::enable_if_t<any_smat<A, B>, int>> {
        using type = SVec<scalar_type<type_t<A>, type_t<B>>>;
    };
}  // namespace traits
}  // namespace tlapack
