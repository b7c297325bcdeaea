// C17: eigenvectors of a Schur form and the kernels that compute them
#include "eigref.hpp"
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/trevc3.hpp>
using namespace vk;
namespace tl = tlapack;

static bool isPair(const M& S, int i) { return i + 1 < S.m && abs(S(i + 1, i)) != 0; }
// Schur forms: ordinary, repeated, defective, graded, near the ends of the range
static M genT(Case& c, int n, int& kind, bool& hard)
{
    auto& g = c.rng;
    kind = g.range(0, dData_N + 5);
    hard = false;
    M S = randSchur(g, n, kind < dData_N ? kind : dRandom);
    if (kind == dData_N) {   // Jordan-like: one eigenvalue, large coupling
        F lam = F(g.range(-2, 2)), cp = F(std::ldexp(1.0, g.range(-3, 6)));
        for (int j = 0; j < n; ++j) {
            if (j && abs(S(j, j - 1)) != 0) S(j, j - 1) = Z(0);
            for (int i = 0; i <= j; ++i) S(i, j) = i == j ? Z(lam) : i + 1 == j ? Z(cp) : g.coin(0.2) ? Z(F(1)) : Z(0);
        }
    }
    else if (kind == dData_N + 1) {   // identical 2x2 blocks (real) or a repeated eigenvalue
        for (int i = 0; i < n; ++i) {
            if (!IsC && i + 1 < n) {
                S(i, i) = S(i + 1, i + 1) = Z(1);
                S(i, i + 1) = Z(2), S(i + 1, i) = Z(-1);
                if (i + 2 < n) S(i + 2, i + 1) = Z(0);
                ++i;
            }
            else S(i, i) = Z(1);
        }
        if (!IsC)
            for (int i = 1; i + 1 < n; i += 2) S(i + 1, i) = Z(0);
    }
    else if (kind == dData_N + 2) {   // ladder of close eigenvalues: growth of the solution
        for (int i = 0; i < n; ++i) {
            bool two = isPair(S, i) || (i && isPair(S, i - 1));
            if (!two) S(i, i) = Z(1) + Z(eps() * F(g.range(0, 6)));
        }
    }
    else if (kind == dData_N + 3) {   // singular
        for (int i = 0; i < n; ++i) {
            bool two = isPair(S, i) || (i && isPair(S, i - 1));
            if (!two && g.coin(0.7)) S(i, i) = Z(0);
        }
    }
    else if (kind >= dData_N + 4) {   // well separated
        kind = dData_N + 4;
        for (int i = 0; i < n; ++i) {
            F v = F(i + 1) + F(g.u01() / 4);
            S(i, i) = Z(v);
            if (isPair(S, i)) {
                S(i + 1, i + 1) = S(i, i);
                F b = F(0.5 + g.u01());
                S(i, i + 1) = Z(b);
                S(i + 1, i) = Z(-b * F(0.25 + g.u01()));
                ++i;
            }
        }
    }
    roundT(S);
    for (int i = 0; i + 1 < n; ++i)
        if (isPair(S, i)) {   // stay in standard form
            S(i + 1, i + 1) = S(i, i);
            F b = S(i, i + 1).re, d = S(i + 1, i).re;
            if (b == 0 || (b > 0) == (d > 0)) S(i + 1, i) = Z(0);
            else ++i;
        }
    // smallest gap between eigenvalues of different blocks relative to the largest entry
    F nm = nmax(S), gp = nm;
    std::vector<Z> e;
    std::vector<int> bl;
    for (int i = 0; i < n; ++i) {
        e.push_back(S(i, i)), bl.push_back(i);
        if (isPair(S, i)) {
            F wi = vsqrt(fabs_(S(i, i + 1).re)) * vsqrt(fabs_(S(i + 1, i).re));
            e.back() = Z(S(i, i).re, wi);
            e.push_back(Z(S(i, i).re, -wi)), bl.push_back(i);
            ++i;
        }
    }
    for (size_t a = 0; a < e.size(); ++a)
        for (size_t b = 0; b < a; ++b)
            if (bl[a] != bl[b]) gp = std::min(gp, absm(e[a] - e[b]));
    F mn = nm;
    for (auto& z : S.a)
        if (absm(z) > 0) mn = std::min(mn, absm(z));
    // the blocked solver is only protected against overflow inside a block of vectors
    hard = n > 0 && (gp < nm * F(1e-3) || nm > vsqrt(vsqrt(vsqrt(rmax()))) || mn < vsqrt(vsqrt(vsqrt(rmin()))) || n > 24);
    return S;
}
static const char* kname(int k)
{
    static const char* x[] = {"jordan", "same_blocks", "ladder", "singular", "separated"};
    return k < dData_N ? dname(k) : x[k - dData_N];
}
// eigenvector columns j.. of V for the block at i of S; left: V^H S = w V^H
static void checkVec(Case& c, const std::string& nm, const M& S, const M& V, int i, int j, bool left, double thr)
{
    int n = S.m;
    bool pr = isPair(S, i);
    F wr = S(i, i).re, wi = pr ? vsqrt(fabs_(S(i, i + 1).re)) * vsqrt(fabs_(S(i + 1, i).re)) : S(i, i).im;
    M x(n, 1);
    F big = 0;
    for (int k = 0; k < n; ++k) {
        x(k, 0) = pr ? Z(V(k, j).re, V(k, j + 1).re) : V(k, j);
        if (!c.ok((nm + ".finite").c_str(), ffinite(x(k, 0).re) && ffinite(x(k, 0).im), "vector of eigenvalue %d is not finite (row %d)", i, k)) return;
        big = std::max(big, absm(x(k, 0)));
    }
    if (!c.ok((nm + ".nonzero").c_str(), big > 0, "vector of eigenvalue %d is zero", i)) return;
    // nothing on the wrong side of the block
    for (int k = 0; k < n; ++k)
        if (left ? k < i : k > i + pr) c.ok((nm + ".shape").c_str(), absm(x(k, 0)) == 0, "vector of eigenvalue %d is nonzero in row %d", i, k);
    for (auto& z : x.a) z = z / Z(big);
    M r = left ? cmul(ctr(S), x) : cmul(S, x);
    Z w = Z(wr, left ? -wi : wi);
    for (int k = 0; k < n; ++k) r(k, 0) = r(k, 0) - w * x(k, 0);
    c.small((nm + ".res").c_str(), nmax(r), nmax(S) + rmin() / eps() / eps() * F(n) + rmin() / eps() / big, thr);
}
static void evecCase(Case& c, bool blocked)
{
    auto& g = c.rng;
    using idx_t = size_t;
    using tr_t = tl::real_type<T>;
    int n = blocked ? (g.coin(0.2) ? g.range(20, 40) : g.range(0, 14)) : (g.coin(0.1) ? g.range(20, 36) : g.range(0, 12));
    int kind;
    bool hard;
    M S = genT(c, n, kind, hard);
    static const tl::Side sides[] = {tl::Side::Right, tl::Side::Left, tl::Side::Both};
    static const tl::HowMny hows[] = {tl::HowMny::All, tl::HowMny::Back, tl::HowMny::Select};
    int o = g.range(0, 8);
    tl::Side side = sides[o % 3];
    tl::HowMny how = hows[o / 3];
    std::vector<char> want(n, 0);
    int sk = g.range(0, 4);
    for (int i = 0; i < n; ++i) want[i] = sk == 0 ? 0 : sk == 1 ? 1 : sk == 2 ? (i % 3 == 0) : g.coin(sk == 3 ? 0.5 : 0.15);
    std::vector<bool> sel(n);
    for (int i = 0; i < n; ++i) sel[i] = want[i];
    // columns needed
    std::vector<int> cols;   // starting rows of the computed blocks, in order
    int m = 0;
    for (int i = 0; i < n; ++i) {
        bool p = isPair(S, i);
        bool take = how != tl::HowMny::Select || want[i] || (p && want[i + 1]);
        if (take) cols.push_back(i), m += 1 + p;
        if (p) ++i;
    }
    int mm = how == tl::HowMny::Select ? m + (g.coin(0.3) ? g.range(1, 3) : 0) : n;
    tl::Trevc3Opts opts;
    opts.block_size = g.coin(0.2) ? 64 : g.range(1, 6);
    opts.block_size_solve = g.coin(0.2) ? 64 : g.range(1, 6);
    c.desc("%s n=%d %s side=%c how=%c sel=%d m=%d mm=%d nb=%zu nbs=%zu%s", blocked ? "trevc3" : "trevc", n, kname(kind), (char)side, (char)how, sk, m, mm, opts.block_size, opts.block_size_solve, hard ? " hard" : "");
    if (n > 1 && m) c.nt();
    if (hard) c.count("hard");
    bool wr = side != tl::Side::Left, wl = side != tl::Side::Right;
    M Q = how == tl::HowMny::Back ? randUnitary(g, n) : M(n, mm);
    roundT(Q);
    Mat<T> A(c, "T", n, n); Mat<T, LayB> Vl(c, "Vl", wl ? n : g.range(0, 2), wl ? mm : g.range(0, 2)); Mat<T, LayC> Vr(c, "Vr", wr ? n : g.range(0, 2), wr ? mm : g.range(0, 2));
    A.set(S), A.freeze();
    auto prep = [&](auto& V, bool used) {
        V.junk(c);
        if (!used) { V.freeze(); return; }
        if (how == tl::HowMny::Back) V.set(Q);
        if (m < mm) V.maskif([m](int, int j) { return j >= m; });
    };
    prep(Vl, wl), prep(Vr, wr);
    const auto a = A.view();
    auto vl = Vl.view();
    auto vr = Vr.view();
    std::vector<bool> before(sel);
    auto& sv = sel;
    int rc;
    auto run = [&](auto h, auto& sv2, auto& l2, auto& r2) {
        if (blocked) {
            auto wi = tl::trevc3_worksize(side, h, sv2, a, l2, r2, opts);
            Work<T> W(c, wi);
            Work<tr_t> RW(c, tl::WorkInfo(n, 1));
            auto w = W.view();
            auto rv = tl::LegacyVector<tr_t>(n, RW.p, 1);
            auto wv = tl::LegacyVector<T>(wi.m * wi.n, W.p, 1);
            return tl::trevc3_work(side, h, sv2, a, l2, r2, rv, wv, opts);
        }
        Work<T> W(c, tl::WorkInfo(3 * n, 1));
        Work<tr_t> RW(c, tl::WorkInfo(n, 1));
        auto rv = tl::LegacyVector<tr_t>(n, RW.p, 1);
        auto wv = tl::LegacyVector<T>(3 * n, W.p, 1);
        return tl::trevc(side, h, sv2, a, l2, r2, rv, wv);
    };
    rc = run(how, sv, vl, vr);
    std::string nm = blocked ? "trevc3" : "trevc";
    c.ok((nm + ".rc").c_str(), rc == 0, "return code %d", rc);
    // the selection as documented
    if (how == tl::HowMny::Select) {
        for (int i = 0; i < n; ++i) {
            bool p = isPair(S, i);
            if (!p) c.ok((nm + ".select").c_str(), sel[i] == before[i], "select[%d] changed", i);
            else {
                bool t = before[i] || before[i + 1];
                c.ok((nm + ".select").c_str(), sel[i] == t, "select[%d] of a pair is %d", i, int(sel[i]));
                ++i;
            }
        }
    }
    else
        c.ok((nm + ".select").c_str(), sel == before, "select was changed");
    if (n == 0) return;
    double thr = 20.0 * n + 40;
    M X[2];
    if (how == tl::HowMny::Back) {
        // back-transformation of what is computed without it
        Mat<T> L2(c, "L2", n, n), R2(c, "R2", n, n);
        L2.junk(c), R2.junk(c);
        auto l2 = L2.view(), r2 = R2.view();
        run(tl::HowMny::All, sv, l2, r2);
        X[0] = R2.ref(), X[1] = L2.ref();
        for (int s = 0; s < 2; ++s) {
            if (!(s ? wl : wr)) continue;
            M V = s ? Vl.ref() : Vr.ref();
            for (int j = 0; j < n; ++j) {
                F big = 0;
                bool fin = true;
                for (int i = 0; i < n; ++i) {
                    big = std::max(big, absm(X[s](i, j)));
                    fin = fin && ffinite(V(i, j).re) && ffinite(V(i, j).im);
                }
                if (!ffinite(big)) continue;   // reported with the vectors themselves
                if (!c.ok((nm + ".back.finite").c_str(), fin, "back-transformed vector %d is not finite (|x|=%Lg)", j, ld(big))) continue;
                // up to a positive scaling factor
                Z num(0);
                F den = 0, res = 0;
                M qx(n, 1);
                for (int i = 0; i < n; ++i)
                    for (int k = 0; k < n; ++k) qx(i, 0) = qx(i, 0) + Q(i, k) * (X[s](k, j) / Z(big > 0 ? big : F(1)));
                F vb = 0;
                for (int i = 0; i < n; ++i) vb = std::max(vb, absm(V(i, j)));
                if (!(vb > 0) ) {
                    c.ok((nm + ".back.zero").c_str(), !(big > 0), "back-transformed vector %d is zero", j);
                    continue;
                }
                for (int i = 0; i < n; ++i) {
                    Z v = V(i, j) / Z(vb);
                    num = num + conj(qx(i, 0)) * v;
                    den += abs2(qx(i, 0));
                }
                Z f = den > 0 ? num / Z(den) : Z(0);
                for (int i = 0; i < n; ++i) res = std::max(res, absm(V(i, j) / Z(vb) - f * qx(i, 0)));
                bool pairCol = (isPair(S, j) || (j && isPair(S, j - 1)));
                c.small((nm + ".back").c_str(), res, pairCol ? F(2) : F(2), thr);
                c.ok((nm + ".back.sign").c_str(), f.re > 0 && fabs_(f.im) <= F(1e-3) * f.re, "factor %Lg,%Lg", ld(f.re), ld(f.im));
            }
        }
    }
    else {
        if (wr) X[0] = Vr.ref();
        if (wl) X[1] = Vl.ref();
    }
    int j = 0;
    for (int i : cols) {
        if (wr) checkVec(c, nm + ".right", S, X[0], i, j, false, thr);
        if (wl) checkVec(c, nm + ".left", S, X[1], i, j, true, thr);
        j += 1 + isPair(S, i);
    }
}
FAMILY(trevc, 1500, 40000) { evecCase(c, false); }
FAMILY(trevc3, 1800, 50000) { evecCase(c, true); }

// kernels
static F wide(Rng& g)   // real value over the whole range
{
    int lo = EMIN - 1, hi = EMAX - 1;
    int md = g.range(0, 7);
    if (md == 0) return 0;
    if (md == 1) return F(g.range(1, 3));
    F v = 1 + F(g.u01());
    int e = md == 2 ? g.range(-4, 4) : md == 3 ? g.range(lo, lo + 8) : md == 4 ? g.range(hi - 10, hi - 3) : g.range(lo, hi - 3);
    if (g.coin(0.05)) e = lo - g.range(1, 10);   // subnormal
    while (e > 0) v *= 2, --e;
    while (e < 0) v /= 2, ++e;
    return F((R)v);
}
FAMILY(protect, 3000, 200000)
{
    auto& g = c.rng;
    const R smax = tl::safe_max<R>(), smin = tl::safe_min<R>();
    F lim = F(smax) * (1 + 8 * eps());
    F a = wide(g), b = wide(g), x = wide(g);
    if (g.coin(0.3)) {   // near the decision
        F q = fabs_(b) * F(smax) * (1 + F(g.range(-3, 3)) * eps());
        if (q < F(smax)) a = F((R)q);
    }
    a = std::min(a, F(smax)), b = std::min(b, F(smax)), x = std::min(x, F(smax));
    F sa = g.coin() ? -a : a, sb = g.coin() ? -b : b;
    c.desc("protect a=%Lg b=%Lg x=%Lg", ld(sa), ld(sb), ld(x));
    c.nt();
    if (b > 0) {
        R al = tl::trevc_protectdiv((R)sa, (R)sb, smin, smax);
        c.ok("div.range", al > R(0) && al <= R(1), "alpha %Lg", ld(F(al)));
        F num = F((R)(al * (R)a));
        if (b >= F(smin)) c.ok("div.bound", num / b <= lim, "quotient %Lg", ld(num / b));
        else c.ok("div.bound", num / b <= lim + 2 * rmin() * eps() * a / b, "quotient %Lg", ld(num / b));
    }
    {
        R xi = tl::trevc_protectupdate((R)a, (R)b, (R)x, smax);
        c.ok("upd.range", xi > R(0) && xi <= R(1), "scale %Lg", ld(F(xi)));
        F z = F(xi) * a + b * (F(xi) * x);
        c.ok("upd.bound", z <= lim, "update %Lg", ld(z));
        // not scaled without a reason
        if (b * x < F(smax) / 4 && a < F(smax) / 4) c.ok("upd.lazy", xi == R(1), "scale %Lg although nothing overflows", ld(F(xi)));
    }
    {
        R xi = tl::trevc_protectsum((R)sa, (R)sb, smax);
        c.ok("sum.range", xi >= R(0.5) && xi <= R(1), "scale %Lg", ld(F(xi)));
        c.ok("sum.bound", fabs_(F(xi) * sa + F(xi) * sb) <= lim, "sum");
    }
}
FAMILY(solve22, 3000, 100000)
{
    auto& g = c.rng;
    const R smax = tl::safe_max<R>(), smin = tl::safe_min<R>();
    bool cx = g.coin();
    int E = EMAX / 4;
    auto mv = [&]() -> F {   // matrix entries stay where the factorization cannot overflow
        int md = g.range(0, 4);
        if (md == 0) return 0;
        if (md == 1) return F(g.range(-2, 2));
        F v = F((R)g.sym());
        if (md == 2) { int e = g.range(-E, E); while (e > 0) v *= 2, --e; while (e < 0) v /= 2, ++e; }
        return F((R)v);
    };
    M A(2, 2), b(2, 1);
    for (auto& z : A.a) z = Z(mv(), cx ? mv() : F(0));
    if (g.coin(0.2)) A(1, 1) = A(0, 0);
    if (g.coin(0.15)) A(1, 0) = A(0, 0), A(1, 1) = A(0, 1) * Z(1 + eps() * F(g.range(1, 4)));
    auto rv = [&]() -> F { return VK_TI >= 8 ? mv() : (g.coin() ? -1 : 1) * wide(g); };   // no wider reference range for __float128
    for (auto& z : b.a) z = Z(rv(), cx ? rv() : F(0));
    for (auto& z : b.a) {
        if (fabs_(z.re) > F(smax) / 2) z = Z(F(smax) / 2, z.im);
        if (fabs_(z.im) > F(smax) / 2) z = Z(z.re, F(smax) / 2);
    }
    if (g.coin(0.3)) for (auto& z : b.a) z = Z(F(g.range(-2, 2)), cx ? F(g.range(-2, 2)) : F(0));
    for (M* x : {&A, &b})
        for (auto& z : x->a) z = Z(F((R)z.re), F((R)z.im));
    c.desc("2x2 solve %s [%Lg,%Lg;%Lg,%Lg] im [%Lg,%Lg;%Lg,%Lg] rhs %Lg,%Lg %Lg,%Lg", cx ? "complex" : "real", ld(A(0, 0).re), ld(A(0, 1).re), ld(A(1, 0).re), ld(A(1, 1).re), ld(A(0, 0).im), ld(A(0, 1).im), ld(A(1, 0).im), ld(A(1, 1).im), ld(b(0, 0).re), ld(b(1, 0).re), ld(b(0, 0).im), ld(b(1, 0).im));
    // singular to working precision: not specified
    F nA = nmax(A);
    if (nA == 0) return;
    Z det = (A(0, 0) / Z(nA)) * (A(1, 1) / Z(nA)) - (A(0, 1) / Z(nA)) * (A(1, 0) / Z(nA));
    if (absm(det) < F(64) * eps() * (absm(A(0, 0)) / nA * (absm(A(1, 1)) / nA) + absm(A(0, 1)) / nA * (absm(A(1, 0)) / nA)) || absm(det) * nA < F(smin) * 64) { c.count("near_singular"); return; }
    c.nt();
    M x(2, 1);
    R sc = R(-3);
    auto r = [](F v) { return (R)v; };
    if (cx) {
        R x1 = r(b(0, 0).re), y1 = r(b(0, 0).im), x2 = r(b(1, 0).re), y2 = r(b(1, 0).im);
        tl::trevc_2x2solve(r(A(0, 0).re), r(A(0, 0).im), r(A(0, 1).re), r(A(0, 1).im), r(A(1, 0).re), r(A(1, 0).im), r(A(1, 1).re), r(A(1, 1).im), x1, y1, x2, y2, sc, smin, smax);
        x(0, 0) = Z(F(x1), F(y1)), x(1, 0) = Z(F(x2), F(y2));
    }
    else {
        R x1 = r(b(0, 0).re), x2 = r(b(1, 0).re);
        tl::trevc_2x2solve(r(A(0, 0).re), r(A(0, 1).re), r(A(1, 0).re), r(A(1, 1).re), x1, x2, sc, smin, smax);
        x(0, 0) = Z(F(x1)), x(1, 0) = Z(F(x2));
    }
    for (auto& z : x.a)
        if (!c.ok("solve22.finite", ffinite(z.re) && ffinite(z.im), "solution is not finite")) return;
    if (!c.ok("solve22.scale", sc >= R(0) && sc <= R(1), "scale %Lg", ld(F(sc)))) return;
    F nx = nmax(x), nb = nmax(b);
    c.ok("solve22.nonzero", nb == 0 || nx > 0 || nb / nA < rmin() * 4 , "solution and scale vanished");
    F worst = 0;
    for (int i = 0; i < 2; ++i) {
        Z q = -Z(F(sc)) * b(i, 0);
        for (int k = 0; k < 2; ++k) q = q + A(i, k) * x(k, 0);
        worst = std::max(worst, absm(q));
    }
    c.small("solve22.res", worst, nA * nx + rmin() * (1 + nA) , 100);
}
VK_MAIN
