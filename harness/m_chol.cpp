// C11: Cholesky factorizations (built with TLAPACK_NDEBUG so that info codes are returned, not thrown)
#include "hh.hpp"
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrf_blocked_right_looking.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/pttrf.hpp>
using namespace vk;
namespace tl = tlapack;

static int shape(Rng& g) { return g.coin(0.2) ? g.range(30, 75) : dim(g, 34); }

// exactly representable problem A = L D L^H (lower), L unit lower with small integers, D powers of four;
// bad in 1..n: D(bad-1) is zero or negative, kd: band.  G = L sqrt(D) is the exact factor of the leading part.
static void exactPD(Rng& g, int n, int bad, int kd, M& A, M& G)
{
    M L = M::eye(n, n), D(n, n);
    double dens = g.pick({0.1, 0.3, 0.8});
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n && i <= j + kd; ++i)
            if (g.coin(dens)) L(i, j) = toZ(smallint<T>(g, 1));
    static const int dv[3] = {1, 4, 16};
    for (int i = 0; i < n; ++i) D(i, i) = Z(dv[g.range(0, 2)]);
    if (bad) D(bad - 1, bad - 1) = Z(g.coin() ? 0 : -1);
    A = mul(mul(L, D), ctr(L));
    G = M(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = j; i < n; ++i) G(i, j) = L(i, j) * Z(vsqrt(D(j, j).re));
}
// inexact positive definite matrices
static M randPD(Rng& g, int n, int kd, int kind)
{
    M B = gen<T>(g, n, n, kind == 0 ? (int)dRandom : kind == 1 ? (int)dGradedR : kind == 2 ? (int)dNormal : kind == 3 ? (int)dBig : (int)dTiny);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if (i < j || i > j + kd) B(i, j) = Z(0);
    for (int j = 0; j < n; ++j) {
        F s = 0;
        for (int i = 0; i < n; ++i) s += abs(B(j, i));
        B(j, j) = Z(s + rmin() * 64 / eps());
        if (kind == 3 || kind == 4) continue;
        if (g.coin(0.2)) B(j, j) = B(j, j) * Z(F(1) / 64);
    }
    if (kind >= 3) {
        F s = kind == 3 ? vsqrt((F)bigS()) : F(1);
        for (auto& z : B.a) z = Z(z.re / s, z.im / s);
    }
    M A = mul(B, ctr(B));
    // numerically definite: the unit-diagonal scaling of A has least eigenvalue above the rounding level
    for (int j = 0; j < n; ++j) A(j, j) = A(j, j) * Z(1 + 8 * F(n) * F(n) * eps());
    return A;
}
static const char* UN(Uplo u) { return u == Uplo::Upper ? "upper" : "lower"; }

struct Prob { M A, G; int bad = 0; bool exact = false; };
static Prob problem(Rng& g, int n, int kd)
{
    Prob p;
    p.exact = kExactInts && g.coin(0.6);
    if (p.exact) {
        if (n && g.coin(0.6)) {
            // anywhere, with emphasis on the ends
            int w = g.range(0, 9);
            p.bad = w == 0 ? 1 : w == 1 ? n : g.range(1, n);
        }
        exactPD(g, n, p.bad, kd, p.A, p.G);
    }
    else p.A = randPD(g, n, kd, g.range(0, 4));
    roundT(p.A);
    for (int j = 0; j < n; ++j) {
        p.A(j, j).im = 0;
        for (int i = 0; i < j; ++i) p.A(i, j) = conj(p.A(j, i));
    }
    return p;
}
template <class Pred>
static void judgeFactor(Case& c, const char* key, const Prob& p, Uplo u, const M& A1, int info, Pred in)
{
    int n = p.A.m;
    std::string s(key);
    if (p.exact) {
        c.count(p.bad ? "chol_indef" : "chol_exact");
        if (!c.ok((s + ".info").c_str(), info == p.bad, "info %d, first minor that is not positive definite has order %d", info, p.bad)) return;
        if (p.bad) return;
        M W = u == Uplo::Lower ? p.G : ctr(p.G);
        cmp(c, (s + ".exact").c_str(), A1, W, M(n, n), 0, in);
        return;
    }
    c.count("chol_inexact");
    if (!c.ok((s + ".info").c_str(), info == 0, "info %d for a positive definite matrix", info)) return;
    M L(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = j; i < n; ++i)
            L(i, j) = u == Uplo::Lower ? (in(i, j) ? A1(i, j) : Z(0)) : (in(j, i) ? conj(A1(j, i)) : Z(0));
    for (int i = 0; i < n; ++i) c.ok((s + ".diag").c_str(), L(i, i).im == 0 && L(i, i).re > 0, "diagonal %d of the factor is not real positive", i);
    M aL = absM(L), mag = mul(aL, tr(aL));
    for (int i = 0; i < n * n; ++i) mag.a[i].re += rmin();
    cmp(c, (s + ".res").c_str(), mul(L, ctr(L)), p.A, mag, 3.0 * (n + 4), [&](int i, int j) { return i >= j; });
}
// 0..3 potrf variants, 4 potf2, 5 potrf2, 6 potrf_blocked, 7 potrf_rl
FAMILY(potrf, 1400, 30000)
{
    auto& g = c.rng;
    int which = (int)(c.idx % 8);
    Uplo u = c.idx / 8 % 2 ? Uplo::Upper : Uplo::Lower;
    int n = shape(g), nb = g.coin(0.15) ? 32 : g.range(1, 11);
    Prob p = problem(g, n, n);
    c.desc("potrf which=%d %s n=%d nb=%d exact=%d bad=%d", which, UN(u), n, nb, p.exact, p.bad);
    if (n) c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(p.A);
    junkDiagImag(c, A);
    maskTri(A, u);
    auto a = A.view();
    int info = -7;
    if (which < 4) {
        tl::PotrfOpts o;
        o.nb = nb;
        o.variant = which == 0 ? tl::PotrfVariant::Blocked : which == 1 ? tl::PotrfVariant::Recursive
                  : which == 2 ? tl::PotrfVariant::Level2 : tl::PotrfVariant::RightLooking;
        info = tl::potrf(u, a, o);
    }
    else if (which == 4) info = u == Uplo::Upper ? tl::potf2(tl::UPPER_TRIANGLE, a) : tl::potf2(u, a);
    else if (which == 5) info = u == Uplo::Upper ? tl::potrf2(tl::UPPER_TRIANGLE, a) : tl::potrf2(u, a);
    else {
        tl::BlockedCholeskyOpts o;
        o.nb = nb;
        info = which == 6 ? tl::potrf_blocked(u, a, o) : tl::potrf_rl(u, a, o);
    }
    judgeFactor(c, "potrf", p, u, A.ref(), info, [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(pbtrf, 700, 14000)
{
    auto& g = c.rng;
    Uplo u = c.idx % 2 ? Uplo::Upper : Uplo::Lower;
    int n = std::max(1, shape(g)), kd = g.coin(0.1) ? 0 : g.coin(0.15) ? n - 1 : g.range(0, std::min(n - 1, 14));
    Prob p = problem(g, n, kd);
    if (p.bad) {  // no return value: a failing minor is not reported in this build
        p.bad = 0;
        exactPD(g, n, 0, kd, p.A, p.G);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < j; ++i) p.A(i, j) = conj(p.A(j, i));
    }
    tl::BlockedBandedCholeskyOpts o;
    o.nb = g.coin(0.2) ? 32 : g.coin(0.5) ? g.range(1, std::max(1, kd)) : g.range(1, 12);
    c.desc("pbtrf %s n=%d kd=%d nb=%d exact=%d", UN(u), n, kd, (int)o.nb, p.exact);
    c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(p.A);
    junkDiagImag(c, A);
    auto in = [&](int i, int j) { return inTri(u, i, j) && std::abs(i - j) <= kd; };
    A.maskif([&](int i, int j) { return !in(i, j); });
    auto a = A.view();
    tl::pbtrf_with_workspace(u, a, (size_t)kd, o);
    judgeFactor(c, "pbtrf", p, u, A.ref(), 0, in);
}
template <class T, class TD, class TE>
static void pt(Case& c)
{
    auto& g = c.rng;
    int n = std::max(1, shape(g));
    bool exact = kExactInts && g.coin(0.6);
    int bad = exact && g.coin(0.6) ? g.range(1, n) : 0;
    M D(n, 1), Lo(n, 1), E(std::max(0, n - 1), 1), d(n, 1);
    static const int dv[4] = {1, 2, 4, 16};
    for (int i = 0; i < n; ++i) {
        d(i, 0) = exact ? Z(i + 1 == bad ? (g.coin() ? 0 : -2) : dv[g.range(0, 3)]) : Z(std::ldexp(1 + g.u01(), g.range(-20, 20)));
        Lo(i, 0) = exact ? toZ(smallint<TE>(g, 3)) : toZ(rndfull<TE>(g)) * Z(std::ldexp(1.0, g.range(-3, 3)));
    }
    for (int i = 0; i < n; ++i) {
        D(i, 0) = d(i, 0);
        if (i) {
            D(i, 0) += Z(abs2(Lo(i - 1, 0)) * d(i - 1, 0).re);
            E(i - 1, 0) = Lo(i - 1, 0) * d(i - 1, 0);
        }
        if (!exact) D(i, 0) = D(i, 0) * Z(1 + 64 * eps());
    }
    c.desc("pttrf n=%d exact=%d bad=%d cplxD=%d cplxE=%d", n, exact, bad, tl::is_complex<TD>, tl::is_complex<TE>);
    c.nt();
    Vec<TD> Dv(c, "D", n);
    Vec<TE> Ev(c, "E", n - 1);
    Dv.set(D);
    Ev.set(E);
    M D0 = Dv.ref(), E0 = Ev.ref();
    auto dd = Dv.view();
    auto ee = Ev.view();
    int info;
    if (g.coin()) info = tl::pttrf(dd, ee);
    else info = tl::pttrf(dd, ee, tl::EcOpts(tl::NO_ERROR_CHECK));
    if (exact) {
        if (!c.ok("pttrf.info", info == bad, "info %d expected %d", info, bad)) return;
        if (bad) return;
        same(c, "pttrf.D", Dv.ref(), d);
        same(c, "pttrf.E", Ev.ref(), sub(Lo, 0, n - 1, 0, 1));
        return;
    }
    if (!c.ok("pttrf.info", info == 0, "info %d for a positive definite matrix", info)) return;
    M D1 = Dv.ref(), E1 = Ev.ref();
    for (int i = 0; i < n; ++i) {
        Z r = D1(i, 0);
        F mag = abs(r);
        if (i) {
            r += Z(abs2(E1(i - 1, 0)) * D1(i - 1, 0).re);
            mag += abs2(E1(i - 1, 0)) * abs(D1(i - 1, 0));
            c.small("pttrf.e", abs(E1(i - 1, 0) * D1(i - 1, 0) - E0(i - 1, 0)), abs(E0(i - 1, 0)) + rmin(), 8);
        }
        c.small("pttrf.d", abs(r - D0(i, 0)), mag, 16);
    }
}
FAMILY(pttrf, 500, 10000)
{
    if constexpr (IsC) {
        switch (c.idx % 3) {
            case 0: pt<T, T, T>(c); return;
            case 1: pt<T, R, T>(c); return;
            default: pt<T, R, R>(c);
        }
    }
    else pt<T, T, T>(c);
}
FAMILY(potrs, 500, 10000)
{
    auto& g = c.rng;
    Uplo u = c.idx % 2 ? Uplo::Upper : Uplo::Lower;
    int n = shape(g), nr = dim(g, 9);
    M L = wellTri<T>(g, n, false), B = randM<T>(g, n, nr, false);
    for (int i = 0; i < n; ++i) L(i, i) = Z(abs(L(i, i)) * std::ldexp(1.0, g.range(-8, 8)));
    roundT(L);
    c.desc("potrs %s n=%d nrhs=%d", UN(u), n, nr);
    if (n && nr) c.nt();
    constexpr Lay LB = DefLay == Lay::Col ? Lay::Row : Lay::Col;
    Mat<T> A(c, "A", n, n);
    Mat<T, LB> X(c, "B", n, nr);
    A.set(L);
    X.set(B);
    maskTri(A, u);
    A.freeze();
    const auto a = A.view();
    auto x = X.view();
    int info = tl::potrs(u, a, x);
    c.ok("potrs.info", info == 0);
    M Tt = triM(L, u, Diag::NonUnit), X1 = X.ref();
    M G = u == Uplo::Lower ? Tt : ctr(Tt), aG = absM(G);
    M mag = mul(mul(aG, tr(aG)), absM(X1));
    M B0 = B;
    roundT(B0);
    for (size_t i = 0; i < mag.a.size(); ++i) mag.a[i].re += abs(B0.a[i]);
    cmp(c, "potrs.res", mul(G, mul(ctr(G), X1)), B0, mag, 4.0 * (n + 4));
}
FAMILY(potri, 500, 10000)
{
    auto& g = c.rng;
    Uplo u = c.idx % 2 ? Uplo::Upper : Uplo::Lower;
    int n = shape(g), kind = g.range(0, 2);
    M A0 = randPD(g, n, n, kind);
    roundT(A0);
    for (int j = 0; j < n; ++j) {
        A0(j, j).im = 0;
        for (int i = 0; i < j; ++i) A0(i, j) = conj(A0(j, i));
    }
    c.desc("potri %s n=%d kind=%d", UN(u), n, kind);
    if (n) c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(A0);
    maskTri(A, u);
    auto a = A.view();
    tl::potri(u, a);
    // reference inverse through an extended-precision Cholesky factorization
    M L(n, n), Li(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = j; i < n; ++i) {
            Z s = A0(i, j);
            for (int q = 0; q < j; ++q) s -= L(i, q) * conj(L(j, q));
            L(i, j) = i == j ? Z(vsqrt(s.re)) : s / L(j, j);
        }
    for (int j = 0; j < n; ++j)
        for (int i = j; i < n; ++i) {
            Z s = i == j ? Z(1) : Z(0);
            for (int q = j; q < i; ++q) s -= L(i, q) * Li(q, j);
            Li(i, j) = s / L(i, i);
        }
    M W = mul(ctr(Li), Li);
    F cond = nrm(absM(Li)) * nrm(L);
    cond = cond * cond;
    if (!(cond * eps() * F(20 * (n + 3)) < F(0.1))) { c.count("potri_illcond"); return; }
    c.count("potri_judged");
    M A1 = A.ref();
    M X(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) X(i, j) = inTri(u, i, j) ? A1(i, j) : conj(A1(j, i));
    c.small("potri.err", nrm(X - W), nrm(W) * (1 + cond), 10.0 * (n + 3));
}
VK_MAIN
