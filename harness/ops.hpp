// shared helpers for the BLAS-style modules
#pragma once
#include "vk.hpp"
namespace vk {
using tlapack::Diag;
using tlapack::Direction;
using tlapack::Op;
using tlapack::Side;
using tlapack::StoreV;
using tlapack::Uplo;
using tlapack::Norm;

inline int dim(Rng& g, int big = 24)
{
    switch (g.range(0, 9)) {
        case 0: return g.range(0, 1);
        case 1: case 2: case 3: return g.range(1, 4);
        case 4: case 5: case 6: return g.range(3, 9);
        case 7: case 8: return g.range(6, std::max(7, big * 2 / 3));
        default: return g.range(8, std::max(9, big));
    }
}
inline M opM(const M& A, Op t)
{
    if (t == Op::NoTrans) return A;
    if (t == Op::Trans) return tr(A);
    if (t == Op::ConjTrans) return ctr(A);
    return cj(A);
}
// triangle predicate: element referenced?
inline bool inTri(Uplo u, int i, int j)
{
    return u == Uplo::Upper ? i <= j : u == Uplo::Lower ? i >= j : true;
}
inline M triM(const M& A, Uplo u, Diag d)
{
    M B(A.m, A.n);
    for (int j = 0; j < A.n; ++j)
        for (int i = 0; i < A.m; ++i) {
            if (i == j) B(i, j) = d == Diag::Unit ? Z(1) : A(i, j);
            else if (inTri(u, i, j)) B(i, j) = A(i, j);
        }
    return B;
}
// full matrix from a triangle (herm: conj mirror and real diagonal)
inline M fullM(const M& A, Uplo u, bool herm)
{
    M B(A.m, A.n);
    for (int j = 0; j < A.n; ++j)
        for (int i = 0; i < A.m; ++i) {
            if (i == j) B(i, j) = herm ? Z(A(i, j).re) : A(i, j);
            else if (u == Uplo::General) B(i, j) = A(i, j);
            else if (inTri(u, i, j)) B(i, j) = A(i, j);
            else B(i, j) = herm ? conj(A(j, i)) : A(j, i);
        }
    return B;
}
// elementwise: |got - want| <= thr * eps * mag  on referenced elements
template <class Pred>
inline bool cmp(Case& c, const char* key, const M& got, const M& want,
                const M& mag, double thr, Pred pred)
{
    F worst = -1;
    int wi = 0, wj = 0;
    bool bad = false, isn = false;
    for (int j = 0; j < want.n; ++j)
        for (int i = 0; i < want.m; ++i) {
            if (!pred(i, j)) continue;
            ++g_events;
            F d = absm(got(i, j) - want(i, j));
            F b = F(thr) * eps() * mag(i, j).re;
            if (d <= b) {
                if (b > 0 && d / b > worst) worst = d / b;
                continue;
            }
            if (!bad || d != d) { wi = i; wj = j; }
            bad = true;
            if (d != d) isn = true;
        }
    ++g_checks;
    auto& r = g_ratio[key];
    r.first++;
    if ((double)worst > r.second) r.second = (double)worst;
    if (bad)
        c.fail(isn ? "NAN" : "VALUE", key,
               "element (%d,%d): got (%.9Lg,%.9Lg) want (%.9Lg,%.9Lg) mag %.3Lg",
               wi, wj, ld(got(wi, wj).re), ld(got(wi, wj).im),
               ld(want(wi, wj).re), ld(want(wi, wj).im), ld(mag(wi, wj).re));
    return !bad;
}
inline bool cmp(Case& c, const char* key, const M& got, const M& want,
                const M& mag, double thr)
{
    return cmp(c, key, got, want, mag, thr, [](int, int) { return true; });
}
// exact equality of values
inline bool same(Case& c, const char* key, const M& got, const M& want)
{
    return cmp(c, key, got, want, M(want.m, want.n), 0);
}
template <class S>
inline M randM(Rng& g, int m, int n, bool ints)
{
    M A(m, n);
    for (auto& x : A.a)
        x = toZ(ints ? smallint<S>(g, 3) : rndfull<S>(g));
    return A;
}
inline void roundT(M& A)
{
    for (auto& x : A.a) x = toZ(Mat<T>::fromZ(x));
}
inline char ch(Op o) { return (char)o; }
inline char ch(Uplo o) { return (char)o; }
inline char ch(Side o) { return (char)o; }
inline char ch(Diag o) { return (char)o; }
// well conditioned triangular matrix (values in the referenced triangle)
template <class S>
inline M wellTri(Rng& g, int n, bool ints)
{
    M A(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            A(i, j) = i == j ? Z((F)(g.coin() ? 1 : -1) * (ints ? F(g.coin() ? 1 : 2) : F(1 + g.u01())))
                             : (ints ? toZ(smallint<S>(g, 1))
                                     : toZ(rndfull<S>(g)) * Z((F)1 / (F)std::max(1, n / 2)));
    roundT(A);
    return A;
}
// mask the triangle that must not be referenced (and unit diagonal)
template <class MT>
inline void maskTri(MT& A, Uplo u, Diag d)
{
    if (u == Uplo::General) return;
    A.maskif([&](int i, int j) {
        return (i == j) ? d == Diag::Unit : !inTri(u, i, j);
    });
}
template <class MT>
inline void maskTri(MT& A, Uplo u) { maskTri(A, u, Diag::NonUnit); }
// put garbage imaginary parts on the diagonal of a Hermitian operand
template <class MT>
inline void junkDiagImag(Case& c, MT& A)
{
    if constexpr (IsC) {
        for (idx_t i = 0; i < std::min(A.m, A.n); ++i)
            A(i, i) = T(A(i, i).real(), (R)(100 * c.rng.sym()));
    }
    (void)c; (void)A;
}
}  // namespace vk
