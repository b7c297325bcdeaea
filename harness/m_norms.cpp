// C07: norms, NaN/Inf queries
#include "ops.hpp"
#include <tlapack/blas/iamax.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lassq.hpp>
using namespace vk;
using tlapack::BandAccess;

static const Norm NM[4] = {Norm::Max, Norm::One, Norm::Inf, Norm::Fro};
static const Uplo UP2[2] = {Uplo::Upper, Uplo::Lower};
static const Diag DG[2] = {Diag::NonUnit, Diag::Unit};
static const R NaN = std::numeric_limits<R>::quiet_NaN();
static const R Inf = std::numeric_limits<R>::infinity();

// data kinds: 0 random 1 ints 2 huge 3 tiny 4 mixed exponents 5 subnormal 6 zeros 7 sparse
static M data(Rng& g, int m, int n, int kind)
{
    M A(m, n);
    int emax = std::numeric_limits<R>::max_exponent, emin = std::numeric_limits<R>::min_exponent;
    auto one = [&]() -> F {
        switch (kind) {
            case 1: return (F)g.range(-4, 4);
            case 2: return (F)std::ldexp((long double)g.sym(), emax - 8 - (int)std::ceil(std::log2(m + n + 1.0)));
            case 3: return (F)std::ldexp((long double)g.sym(), emin + g.range(0, 20));
            case 4: return (F)std::ldexp((long double)g.sym(), g.range(emin + 2, emax - 16));
            case 5: return (F)std::ldexp((long double)g.sym(), emin - g.range(0, 10));
            case 6: return 0;
            case 7: return g.coin(0.3) ? (F)g.sym() : F(0);
            default: return (F)g.sym();
        }
    };
    for (auto& z : A.a) { z.re = one(); if (IsC) z.im = one(); }
    roundT(A);
    return A;
}
// reference norms of a fully expanded matrix
static F refnorm(const M& A, Norm t)
{
    if (A.m == 0 || A.n == 0) return 0;
    if (t == Norm::Max) {
        F r = 0;
        for (auto& z : A.a) r = std::max(r, abs(z));
        return r;
    }
    if (t == Norm::One) return nrm1(A);
    if (t == Norm::Inf) return nrm1(tr(A));
    return nrm(A);
}
static char nch(Norm t) { return (char)t; }
static void judge(Case& c, const char* k, R got, F want, int m, int n, bool anynan)
{
    if (anynan) { c.ok((std::string(k) + ".nan").c_str(), got != got, "matrix has a NaN but the norm is %g", (double)got); return; }
    if (!ffinite(want)) { c.ok((std::string(k) + ".inf").c_str(), got == Inf, "matrix has an Inf but the norm is %g", (double)got); return; }
    // a few ulps per accumulated term; gradual underflow may lose the last bits
    F tol = (m + n + 8) * 2 * eps() * want + (F)std::numeric_limits<R>::denorm_min() * (m + n + 4);
    c.bound(k, fabs_((F)got - want), tol);
}
// put NaN / Inf at a referenced position
template <class Pred>
static int poison(Case& c, M& A, Pred in, int what)
{
    std::vector<int> p;
    for (int k = 0; k < (int)A.a.size(); ++k)
        if (in(k % A.m, k / A.m)) p.push_back(k);
    if (p.empty()) return 0;
    int k = c.rng.pick(p);
    F v = what == 1 ? (F)NaN : (F)(c.rng.coin() ? Inf : -Inf);
    if (IsC && c.rng.coin()) A.a[k].im = v;
    else A.a[k].re = v;
    if (what == 2 && c.rng.coin(0.3)) {  // an Inf and a NaN together
        int k2 = c.rng.pick(p);
        if (k2 != k) { A.a[k2].re = (F)NaN; return 1; }
    }
    return what;
}
template <class N> static auto withnorm(Norm t, bool typed, N f)
{
    if (typed) {
        if (t == Norm::Max) return f(tlapack::MAX_NORM);
        if (t == Norm::One) return f(tlapack::ONE_NORM);
        if (t == Norm::Inf) return f(tlapack::INF_NORM);
        return f(tlapack::FROB_NORM);
    }
    return f(t);
}

FAMILY(lange, 480, 8000)
{
    auto& g = c.rng;
    Norm t = NM[c.idx % 4];
    int kind = c.idx / 4 % 8, m = dim(g, 40), n = dim(g, 40), what = VK_TI != 7 && g.coin(0.3) ? g.range(1, 2) : 0;
    bool typed = g.coin();
    M X = data(g, m, n, kind);
    if (m && n && what) what = poison(c, X, [](int, int) { return true; }, what);
    else what = 0;
    c.desc("lange %c m=%d n=%d kind=%d special=%d typed=%d", nch(t), m, n, kind, what, typed);
    if (m && n) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(X);
    A.freeze();
    auto a = A.view();
    R got = withnorm(t, typed, [&](auto x) { return tlapack::lange(x, a); });
    F want = what ? (F)Inf : refnorm(X, t);
    judge(c, "lange", got, want, m, n, what == 1);
    if (t == Norm::Inf) {
        R g2 = tlapack::infnorm_colmajor(a);
        judge(c, "infnorm_colmajor", g2, want, m, n, what == 1);
        Work<R> w(c, tlapack::infnorm_colmajor_worksize<R>(a));
        auto wv = w.view();
        R g3 = tlapack::infnorm_colmajor_work(a, wv);
        c.ok("infnorm_colmajor_work", g3 == g2 || (g3 != g3 && g2 != g2), "%g vs %g", (double)g3, (double)g2);
    }
}
FAMILY(lansyhe, 640, 8000)
{
    auto& g = c.rng;
    Norm t = NM[c.idx % 4];
    Uplo u = UP2[c.idx / 4 % 2];
    bool he = c.idx / 8 % 2;
    int kind = c.idx / 16 % 8, n = dim(g, 40), what = VK_TI != 7 && g.coin(0.3) ? g.range(1, 2) : 0;
    bool typed = g.coin();
    M X = data(g, n, n, kind);
    auto in = [&](int i, int j) { return inTri(u, i, j); };
    if (he) for (int i = 0; i < n; ++i) X(i, i).im = 0;
    bool sv = what && n;
    if (sv) {
        what = poison(c, X, in, what);
        if (he)
            for (int i = 0; i < n; ++i)
                if (X(i, i).im != 0) { X(i, i).re = X(i, i).im; X(i, i).im = 0; }
    }
    else what = 0;
    c.desc("%s %c u=%c n=%d kind=%d special=%d typed=%d", he ? "lanhe" : "lansy", nch(t), ch(u), n, kind, what, typed);
    if (n) c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(X);
    if (he && IsC)
        for (int i = 0; i < n; ++i) {
            if constexpr (IsC) A(i, i) = T(A(i, i).real(), g.coin(0.2) ? NaN : (R)(1e4 * g.sym()));
        }
    maskTri(A, u);
    A.freeze();
    auto a = A.view();
    R got;
    if (he) got = withnorm(t, typed, [&](auto x) { return tlapack::lanhe(x, u, a); });
    else if (typed && u == Uplo::Upper) got = withnorm(t, typed, [&](auto x) { return tlapack::lansy(x, tlapack::UPPER_TRIANGLE, a); });
    else if (typed) got = withnorm(t, typed, [&](auto x) { return tlapack::lansy(x, tlapack::LOWER_TRIANGLE, a); });
    else got = tlapack::lansy(t, u, a);
    F want = what ? (F)Inf : refnorm(fullM(X, u, he), t);
    judge(c, he ? "lanhe" : "lansy", got, want, n, n, what == 1);
    if (t == Norm::Inf) {
        R g2 = he ? tlapack::infnorm_hermitian_colmajor(u, a) : tlapack::infnorm_symmetric_colmajor(u, a);
        judge(c, "infnorm_sy_he_colmajor", g2, want, n, n, what == 1);
        Work<R> w(c, tlapack::infnorm_symmetric_colmajor_worksize<R>(u, a));
        auto wv = w.view();
        R g3 = he ? tlapack::infnorm_hermitian_colmajor_work(u, a, wv) : tlapack::infnorm_symmetric_colmajor_work(u, a, wv);
        c.ok("infnorm_sy_he_work", g3 == g2 || (g3 != g3 && g2 != g2), "%g vs %g", (double)g3, (double)g2);
    }
}
FAMILY(lantr, 960, 9000)
{
    auto& g = c.rng;
    Norm t = NM[c.idx % 4];
    Uplo u = UP2[c.idx / 4 % 2];
    Diag d = DG[c.idx / 8 % 2];
    int kind = c.idx / 16 % 8, m = dim(g, 40), n = g.coin(0.3) ? m : dim(g, 40), what = VK_TI != 7 && g.coin(0.3) ? g.range(1, 2) : 0;
    bool typed = g.coin();
    M X = data(g, m, n, kind);
    auto in = [&](int i, int j) { return i == j ? d == Diag::NonUnit : inTri(u, i, j); };
    if (m && n && what) what = poison(c, X, in, what);
    else what = 0;
    c.desc("lantr %c u=%c d=%c m=%d n=%d kind=%d special=%d", nch(t), ch(u), ch(d), m, n, kind, what);
    if (m && n) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(X);
    maskTri(A, u, d);
    A.freeze();
    auto a = A.view();
    R got = withnorm(t, typed, [&](auto x) { return tlapack::lantr(x, u, d, a); });
    F want = what ? (F)Inf : refnorm(triM(X, u, d), t);
    judge(c, "lantr", got, want, m, n, what == 1);
    if (t == Norm::Inf) {
        R g2 = tlapack::infnorm_triangular_colmajor(u, d, a);
        judge(c, "infnorm_triangular_colmajor", g2, want, m, n, what == 1);
        Work<R> w(c, tlapack::infnorm_triangular_colmajor_worksize<R>(u, d, a));
        auto wv = w.view();
        R g3 = tlapack::infnorm_triangular_colmajor_work(u, d, a, wv);
        c.ok("infnorm_tr_work", g3 == g2 || (g3 != g3 && g2 != g2), "%g vs %g", (double)g3, (double)g2);
    }
}
static const Uplo UP7[7] = {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper,
                            Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower};
static bool inU(Uplo u, int i, int j)
{
    switch (u) {
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::StrictUpper: return i < j;
        case Uplo::StrictLower: return i > j;
        default: return true;
    }
}
FAMILY(hasnaninf, 720, 9000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 9);
    int m = dim(g, 16), n = dim(g, 16), kl = g.range(0, 6), ku = g.range(0, 6);
    if (o == 8) n = m ? 1 : 0;
    auto in = [&](int i, int j) { return o == 8 ? true : o == 7 ? (i - j <= kl && j - i <= ku) : inU(UP7[o], i, j); };
    M X = data(g, m, n, g.pick<int>({0, 2, 4, 5}));
    int np = g.range(0, 2), ni = g.range(0, 2);
    bool hn = false, hi = false;
    if (m && n)
        for (int q = 0; q < np + ni; ++q) {
            int i = g.range(0, m - 1), j = g.range(0, n - 1);
            F v = q < np ? (F)NaN : (F)(g.coin() ? Inf : -Inf);
            if (IsC && g.coin()) X(i, j).im = v;
            else X(i, j).re = v;
        }
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i)
            if (in(i, j)) {
                Z z = X(i, j);
                hn |= fnan(z.re) || fnan(z.im);
                hi |= (!fnan(z.re) && !ffinite(z.re)) || (!fnan(z.im) && !ffinite(z.im));
            }
    c.desc("hasnan/hasinf access=%d m=%d n=%d kl=%d ku=%d nan=%d inf=%d", o, m, n, kl, ku, hn, hi);
    if (m && n) c.nt();
    if (o == 8) {
        Vec<T> x(c, "x", m);
        x.set(X);
        x.freeze();
        auto v = x.view();
        c.ok("hasnan.vec", tlapack::hasnan(v) == hn, "expected %d", hn);
        c.ok("hasinf.vec", tlapack::hasinf(v) == hi, "expected %d", hi);
        return;
    }
    Mat<T> A(c, "A", m, n);
    A.set(X);
    A.maskif([&](int i, int j) { return !in(i, j); });  // masked entries hold NaN
    if (g.coin(0.3)) {                                  // ... or Inf
        A.unmask();
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (!in(i, j)) A(i, j) = T(Inf);
    }
    A.freeze();
    auto a = A.view();
    bool r1, r2;
    if (o == 7) {
        BandAccess ba{(size_t)kl, (size_t)ku};
        r1 = tlapack::hasnan(ba, a);
        r2 = tlapack::hasinf(ba, a);
    }
    else {
        r1 = tlapack::hasnan(UP7[o], a);
        r2 = tlapack::hasinf(UP7[o], a);
    }
    c.ok("hasnan", r1 == hn, "expected %d", hn);
    c.ok("hasinf", r2 == hi, "expected %d", hi);
}
FAMILY(lassq, 320, 5000)
{
    auto& g = c.rng;
    int kind = (int)(c.idx % 8), n = dim(g, 60), emax = std::numeric_limits<R>::max_exponent, emin = std::numeric_limits<R>::min_exponent;
    M X = data(g, n, 1, kind);
    R sc, sm;
    switch (g.range(0, 3)) {
        case 0: sc = R(0); sm = R(1); break;
        case 1: sc = R(1); sm = R(0); break;
        case 2: sc = (R)(1 + g.u01()); sm = (R)(3 * g.u01()); break;
        default: {
            int e = g.range(emin / 2 + 40 < 0 ? emin + 20 : emin + 8, emax - 20);
            sc = (R)std::ldexp((long double)(1 + g.u01()), e);
            sm = (R)(1 + 3 * g.u01());
        }
    }
    c.desc("lassq n=%d kind=%d scale=%g sumsq=%g", n, kind, (double)sc, (double)sm);
    c.nt();
    Vec<T> x(c, "x", n);
    x.set(X);
    x.freeze();
    auto v = x.view();
    // hypot(|x|, scale*sqrt(sumsq)), scaled
    M Y(n + 1, 1);
    for (int i = 0; i < n; ++i) Y(i, 0) = X(i, 0);
    Y(n, 0) = Z((F)sc * vsqrt((F)sm));
    F want = nrm(Y);
    tlapack::lassq(v, sc, sm);
    F got = (F)sc * vsqrt((F)sm);
    if (!(want < rmax())) return;
    c.ok("lassq.nonneg", sc >= 0 && sm >= 0, "scale %g sumsq %g", (double)sc, (double)sm);
    c.bound("lassq", fabs_(got - want), (n + 8) * 4 * eps() * want + (F)std::numeric_limits<R>::denorm_min() * (n + 4));
}
FAMILY(iamaxsp, 240, 3000)
{
    auto& g = c.rng;
    int n = std::max(1, dim(g, 30)), kind = g.range(0, 6);
    if (kind == 6) kind = 0;
    M X = data(g, n, 1, kind);
    if (IsC && g.coin(0.3))  // |re|+|im| overflows for some entries
        for (auto& z : X.a)
            if (g.coin(0.4)) z = Z((F)std::numeric_limits<R>::max() * (F)(0.6 + 0.3 * g.u01()), (F)std::numeric_limits<R>::max() * (F)(0.6 + 0.3 * g.u01()));
    // exactly representable parts on a coarse grid: |re|+|im| is exact (even when it overflows), ties are frequent, the first one must win
    const bool grid = g.coin(0.4);
    if (grid) {
        const int top = g.coin(0.6) && std::numeric_limits<R>::max_exponent < 20000 ? std::numeric_limits<R>::max_exponent - 1 : g.range(0, 3);
        R two_top(1);
        for (int q = 0; q < top; ++q) two_top *= R(2);
        for (auto& z : X.a) {
            const bool bigone = g.coin(0.5);
            auto p = [&] { return (F)two_top * (F)(bigone ? g.range(4, 7) : g.range(0, 3)) / (F)4 * (F)(g.coin() ? 1 : -1); };
            z = Z(p(), IsC ? p() : (F)0);
        }
    }
    roundT(X);
    for (int q = g.range(0, 3); q > 0 && g.coin(0.6); --q) X(g.range(0, n - 1), 0).re = g.coin() ? (F)NaN : (F)Inf;
    if (IsC && g.coin(0.2)) X(g.range(0, n - 1), 0).im = (F)NaN;
    int fn = -1, fi = -1, best = 0;
    F bv = -1, down = 1;
    if (VK_TI >= 8)   // the reference of __float128 has no wider exponent range
        for (auto& z : X.a)
            if ((ffinite(z.re) && fabs_(z.re) > rmax() / 8) || (ffinite(z.im) && fabs_(z.im) > rmax() / 8)) down = F(0.25);
    for (int i = 0; i < n; ++i) {
        Z z = X(i, 0);
        if (fn < 0 && (fnan(z.re) || fnan(z.im))) fn = i;
        if (fi < 0 && ((!fnan(z.re) && !ffinite(z.re)) || (!fnan(z.im) && !ffinite(z.im)))) fi = i;
        if (fnan(z.re) || fnan(z.im)) continue;
        F s = fabs_(z.re) * down + fabs_(z.im) * down;
        if (IsC && fn < 0 && fi < 0 && ffinite(s)) s = (F)s;
        if (s > bv) { bv = s; best = i; }
    }
    int want = fn >= 0 ? fn : fi >= 0 ? fi : best;
    c.desc("iamax n=%d kind=%d firstnan=%d firstinf=%d", n, kind, fn, fi);
    c.nt();
    Vec<T> x(c, "x", n);
    x.set(X);
    x.freeze();
    auto v = x.view();
    int got = (int)tlapack::iamax(v);
    bool fine = got == want;
    if (!fine && fn < 0 && fi < 0 && got >= 0 && got < n) {
        // rounding of |re|+|im| may merge entries that differ by an ulp
        Z z = X(got, 0);
        F s = fabs_(z.re) * down + fabs_(z.im) * down;
        fine = s >= bv * (1 - 4 * eps()) && IsC && !grid;
    }
    c.ok("iamax.special", fine, "got %d want %d", got, want);
    int g2 = (int)tlapack::iamax(v, tlapack::IamaxOpts([](const T& t) -> R { return tlapack::abs1(t); }));
    c.ok("iamax.opts", g2 == got, "default %d with options %d", got, g2);
}
VK_MAIN
