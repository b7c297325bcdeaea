// C18: bidiagonal reduction and singular value decomposition
#include "hh.hpp"
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
using namespace vk;
namespace tl = tlapack;

static M bidiagM(const M& A, int m, int n)
{
    M B(m, n);
    for (int i = 0; i < std::min(m, n); ++i) {
        B(i, i) = A(i, i);
        if (m >= n && i + 1 < n) B(i, i + 1) = A(i, i + 1);
        if (m < n && i + 1 < m) B(i + 1, i) = A(i + 1, i);
    }
    return B;
}
static int dim2(Rng& g) { return g.coin(0.2) ? g.range(20, 44) : dim(g, 16); }
FAMILY(bidiag, 900, 20000)
{
    auto& g = c.rng;
    int m = dim2(g), n = g.coin(0.3) ? m : dim2(g), kind = (int)(c.idx / 6 % dData_N), which = (int)(c.idx % 6);
    int nb = blk(g), k = std::min(m, n);
    static const char* W[] = {"gebd2", "gebrd", "bidiag", "gebd2_work", "gebrd_work", "bidiag_work"};
    tl::BidiagOpts o;
    o.nb = nb;
    o.variant = g.coin(0.3) ? tl::BidiagVariant::Level2 : tl::BidiagVariant::Blocked;
    tl::GebrdOpts go;
    go.nb = nb;
    c.desc("%s m=%d n=%d nb=%d variant=%c data=%s", W[which], m, n, nb, (char)o.variant, dname(kind));
    if (k > 1) c.nt();
    M X = gen<T>(g, m, n, kind);
    roundT(X);
    Mat<T> A(c, "A", m, n);
    A.set(X);
    Vec<T> tv(c, "tauv", k), tw(c, "tauw", k);
    tv.junk(), tw.junk();
    auto a = A.view();
    auto v = tv.view();
    auto w = tw.view();
    int r;
    if (which == 0) r = tl::gebd2(a, v, w);
    else if (which == 1) r = tl::gebrd(a, v, w, go);
    else if (which == 2) r = tl::bidiag(a, v, w, o);
    else {
        auto wi = which == 3 ? tl::gebd2_worksize<T>(a, v, w) : which == 4 ? tl::gebrd_worksize<T>(a, v, w, go) : tl::bidiag_worksize<T>(a, v, w, o);
        Work<T> wk(c, wi);
        auto wv = wk.view();
        r = which == 3 ? tl::gebd2_work(a, v, w, wv) : which == 4 ? tl::gebrd_work(a, v, w, wv, go) : tl::bidiag_work(a, v, w, wv, o);
    }
    c.ok("bidiag.ret", r == 0, "return %d", r);
    if (k == 0) return;
    M A1 = A.ref(), B = bidiagM(A1, m, n);
    F im = 0;
    for (auto& z : B.a) im = std::max(im, fabs_(z.im));
    c.ok("bidiag.real", im == 0, "bidiagonal form has imaginary part %Lg", ld(im));
    // reflectors
    bool up = m >= n;
    M V, Wr, tq(k, 1), tp(k, 1);
    {
        M s = up ? A1 : M(m, k);
        if (!up)
            for (int q = 0; q + 1 < k; ++q)
                for (int i = q + 2; i < m; ++i) s(i - 1 - 0, q) = A1(i, q);
        V = M(m, k);
        for (int q = 0; q < k; ++q) {
            int one = up ? q : q + 1;
            if (one >= m) continue;
            V(one, q) = Z(1);
            for (int i = one + 1; i < m; ++i) V(i, q) = A1(i, q);
        }
        Wr = M(n, k);
        for (int q = 0; q < k; ++q) {
            int one = up ? q + 1 : q;
            if (one >= n) continue;
            Wr(one, q) = Z(1);
            for (int i = one + 1; i < n; ++i) Wr(i, q) = conj(A1(q, i));
        }
        for (int q = 0; q < k; ++q) tq(q, 0) = toZ(tv[q]), tp(q, 0) = toZ(tw[q]);
    }
    // a trailing unit reflector must have tau = 0
    if (!up) c.ok("bidiag.tau", absm(tq(k - 1, 0)) == 0, "last left scalar factor is not zero");
    else if (k == n) c.ok("bidiag.tau", absm(tp(n - 1, 0)) == 0, "last right scalar factor is not zero");
    M Q = prodH(V, tq, Direction::Forward), P = prodH(Wr, tp, Direction::Forward);
    c.small("bidiag.orthq", orth(Q), 1, 10.0 * (k + 3));
    c.small("bidiag.orthp", orth(P), 1, 10.0 * (k + 3));
    c.small("bidiag.res", nrm(cmul(cmul(Q, B), ctr(P)) - X), nrm(X), 8.0 * (m + n + 6));
    // explicit factors
    tl::UngbrOpts uo;
    uo.nb = blk(g);
    bool wk = g.coin();
    {
        int nq = up ? g.range(n, m) : m;
        Mat<T> U(c, "Q", m, nq);
        U.junk(c);
        auto u = U.view();
        for (int j = 0; j < std::min(k, nq); ++j)
            for (int i = 0; i < m; ++i)
                if (up ? i > j : i > j + 1) u(i, j) = Mat<T>::fromZ(A1(i, j));
        tv.freeze();
        const auto& ct = v;
        int r2;
        if (wk) {
            auto wi = tl::ungbr_q_worksize<T>(n, u, ct, uo);
            Work<T> ws(c, wi);
            auto wv = ws.view();
            r2 = tl::ungbr_q_work(n, u, ct, wv, uo);
        }
        else r2 = tl::ungbr_q(n, u, ct, uo);
        c.ok("ungbr.retq", r2 == 0, "return %d", r2);
        c.small("ungbr.q", nrm(U.ref() - sub(Q, 0, m, 0, nq)), 1, 10.0 * (k + 4) * std::sqrt((double)m));
    }
    {
        int np = up ? n : g.range(m, n);
        Mat<T> U(c, "P", np, n);
        U.junk(c);
        auto u = U.view();
        for (int j = 0; j < std::min(k, np); ++j)
            for (int i = 0; i < n; ++i)
                if (up ? i > j + 1 : i > j) u(j, i) = Mat<T>::fromZ(A1(j, i));
        tw.freeze();
        const auto& ct = w;
        int r2;
        if (wk) {
            auto wi = tl::ungbr_p_worksize<T>(m, u, ct, uo);
            Work<T> ws(c, wi);
            auto wv = ws.view();
            r2 = tl::ungbr_p_work(m, u, ct, wv, uo);
        }
        else r2 = tl::ungbr_p(m, u, ct, uo);
        c.ok("ungbr.retp", r2 == 0, "return %d", r2);
        M Ph = ctr(P);
        c.small("ungbr.p", nrm(U.ref() - sub(Ph, 0, np, 0, n)), 1, 10.0 * (k + 4) * std::sqrt((double)n));
    }
}
static M diagS(const std::vector<F>& s, int m, int n)
{
    M S(m, n);
    for (int i = 0; i < (int)s.size() && i < m && i < n; ++i) S(i, i) = Z(s[i]);
    return S;
}
template <class VT>
static bool ordered(Case& c, const char* key, const VT& s, int k, std::vector<F>& out)
{
    out.resize(k);
    for (int i = 0; i < k; ++i) out[i] = F(s[i]);
    for (int i = 0; i < k; ++i) {
        if (!c.ok(key, ffinite(out[i]) && out[i] >= 0, "singular value %d is %Lg", i, ld(out[i]))) return false;
        if (i && !c.ok(key, out[i] <= out[i - 1], "singular values %d and %d are not in descending order: %Lg %Lg", i - 1, i, ld(out[i - 1]), ld(out[i]))) return false;
    }
    return true;
}
FAMILY(gesvd, 900, 20000)
{
    auto& g = c.rng;
    int m = dim2(g), n = g.coin(0.3) ? m : dim2(g), kind = (int)(c.idx / 4 % dData_N), k = std::min(m, n);
    bool wu = c.idx % 4 & 1, wv = c.idx % 4 & 2;
    int ku = g.coin() ? m : k, kv = g.coin() ? n : k;
    M X = gen<T>(g, m, n, kind);
    int sp = g.range(0, 9);
    if (sp == 0 && k > 1)   // block structure
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if ((i < k / 2) != (j < k / 2)) X(i, j) = Z(0);
    if (sp == 1 && k > 0)   // zero rows/columns
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (i % 3 == 1 || j % 4 == 2) X(i, j) = Z(0);
    if (sp == 2 && k > 0)
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (i > j) X(i, j) = Z(0);
    roundT(X);
    c.desc("gesvd m=%d n=%d u=%d(%d) vt=%d(%d) data=%s sp=%d", m, n, wu, ku, wv, kv, dname(kind), sp);
    if (k > 1) c.nt();
    Mat<T> A(c, "A", m, n), U(c, "U", wu ? m : g.range(0, 3), wu ? ku : g.range(0, 3)), V(c, "Vt", wv ? kv : g.range(0, 3), wv ? n : g.range(0, 3));
    Vec<R> s(c, "s", k);
    A.set(X);
    U.junk(c), V.junk(c), s.junk();
    if (!wu) U.freeze();
    if (!wv) V.freeze();
    auto a = A.view(), u = U.view(), v = V.view();
    auto sv = s.view();
    int r = tl::gesvd(wu, wv, a, sv, u, v);
    if (!c.ok("gesvd.ret", r == 0, "return %d", r)) return;
    std::vector<F> S;
    if (!ordered(c, "gesvd.order", s, k, S)) return;
    F nX = nrm(X);
    double thr = 30.0 * (m + n + 6);
    M U1, V1;
    if (wu) {
        U1 = U.ref();
        c.small("gesvd.orthu", orth(U1), 1, thr);
    }
    if (wv) {
        V1 = V.ref();
        c.small("gesvd.orthv", orth(ctr(V1)), 1, thr);
    }
    if (k == 0) return;
    if (wu && wv) c.small("gesvd.res", nrm(cmul(cmul(U1, diagS(S, ku, kv)), V1) - X), nX, thr);
    else {
        M W = wu ? cmul(ctr(U1), X) : wv ? cmul(X, ctr(V1)) : M(0, 0);
        if (wu || wv) {   // U^H A has orthogonal rows of length s_i
            F sc = nX > 0 ? nX : F(1);
            W = scale(Z(1 / sc), W);
            M G = wu ? cmul(W, ctr(W)) : cmul(ctr(W), W);
            for (int i = 0; i < G.m; ++i) G(i, i) = G(i, i) - (i < k ? Z(S[i] / sc * (S[i] / sc)) : Z(0));
            c.small("gesvd.one", nrm(G), nX > 0 ? F(1) : F(0), thr);
        }
        // the values do not depend on which vectors are wanted
        Mat<T> A2(c, "A2", m, n), U2(c, "U2", m, k), V2(c, "V2", k, n);
        Vec<R> s2(c, "s2", k);
        A2.set(X);
        U2.junk(c), V2.junk(c), s2.junk();
        auto a2 = A2.view(), u2 = U2.view(), v2 = V2.view();
        auto sv2 = s2.view();
        int r2 = tl::gesvd(true, true, a2, sv2, u2, v2);
        std::vector<F> S2;
        if (!c.ok("gesvd.ret", r2 == 0, "return %d", r2) || !ordered(c, "gesvd.order", s2, k, S2)) return;
        c.small("gesvd.res", nrm(cmul(cmul(U2.ref(), diagS(S2, k, k)), V2.ref()) - X), nX, thr);
        for (int i = 0; i < k; ++i) c.small("gesvd.values", fabs_(S[i] - S2[i]), nX, thr);
    }
}
// number of singular values of the bidiagonal matrix larger than or equal to x > 0 (Golub-Kahan form)
static int countGE(const std::vector<F>& b, F x)
{
    // tridiagonal with zero diagonal and off-diagonals b: eigenvalues +-sigma; count those >= x
    int cnt = 0;
    F q = -x;
    if (q >= 0) ++cnt;
    for (F o : b) {
        if (q == 0) q = -x * eps() * eps();
        q = -x - o * (o / q);
        if (q >= 0) ++cnt;
    }
    return cnt;
}
FAMILY(svdqr, 900, 30000)
{
    auto& g = c.rng;
    int n = g.coin(0.15) ? g.range(18, 34) : dim(g, 12);
    int dk = g.range(0, 12), ek = g.range(0, 7);
    std::vector<F> d(n), e(std::max(0, n - 1));
    double gr = std::pow(10.0, g.sym() * (g.coin() ? 1 : 3));
    F run = 1;
    for (int i = 0; i < n; ++i) {
        F x = F(g.sym());
        switch (dk) {
            case 0: case 1: break;
            case 2: x = F(g.range(-2, 2)); break;                          // zeros
            case 3: x *= run; run *= F(gr); if (run > F(1e12) || run < F(1e-12)) run = 1; break;                         // graded
            case 4: x = F(1); break;                                       // equal
            case 5: x = (i == 0 ? F(0) : x); break;
            case 6: x = (i == n - 1 ? F(0) : x); break;
            case 7: x = (i == n / 2 ? F(0) : x); break;
            case 8: x = F(std::pow(10.0, -3.0 * g.range(0, 5))) * (g.coin() ? 1 : -1); break;
            case 9: x = F(0); break;
            case 10: x = F(1) + F(g.range(0, 4)) * eps(); break;
            case 11: x = (g.coin(0.3) ? F(0) : x); break;
            case 12: x = F(i + 1); break;
        }
        d[i] = F((R)x);
    }
    run = 1;
    for (int i = 0; i + 1 < n; ++i) {
        F x = F(g.sym());
        switch (ek) {
            case 0: case 1: break;
            case 2: x = F(g.range(-1, 1)); break;
            case 3: x *= run; run *= F(gr); if (run > F(1e12) || run < F(1e-12)) run = 1; break;
            case 4: x = F(1); break;
            case 5: x *= eps() * F(std::pow(10.0, g.range(-1, 3))); break;
            case 6: x *= F(100); break;
            case 7: x = F(0); break;
        }
        e[i] = F((R)x);
    }
    int pw = g.coin(0.7) ? 0 : g.range(EMIN / 2, EMAX / 2);
    F sc = 1;
    for (int i = 0; i < pw; ++i) sc *= 2;
    for (int i = 0; i > pw; --i) sc /= 2;
    for (auto& x : d) x = F((R)(x * sc));
    for (auto& x : e) x = F((R)(x * sc));
    bool lower = g.coin(), wu = c.idx & 1, wv = c.idx & 2;
    int nu = g.coin(0.6) ? n : g.range(0, n + 3), nv = g.coin(0.6) ? n : g.range(0, n + 3);
    c.desc("svd_qr n=%d %s u=%d(%d) vt=%d(%d) d=%d e=%d scale 2^%d", n, lower ? "lower" : "upper", wu, nu, wv, nv, dk, ek, pw);
    if (n > 1) c.nt();
    // nu-by-n part of a unitary matrix
    auto uni = [&](int r) {
        int q = std::max(r, n);
        M Qf = M::eye(q, q);
        for (int t = 0; t < 3 && q > 0 && r != n + 1; ++t) {
            M v(q, 1);
            F ss = 0;
            for (auto& z : v.a) { z = toZ(rnd<T>(g)); ss += abs2(z); }
            if (ss > F(1e-3)) hmulR(Qf, v, Z(F(2) / ss));
        }
        M o = sub(Qf, 0, r, 0, n);
        roundT(o);
        return o;
    };
    M U0 = uni(nu), V0 = ctr(uni(nv));
    Mat<T> U(c, "U", wu ? nu : g.range(0, 3), wu ? n : g.range(0, 3)), V(c, "Vt", wv ? n : g.range(0, 3), wv ? nv : g.range(0, 3));
    if (wu) U.set(U0); else { U.junk(c); U.freeze(); }
    if (wv) V.set(V0); else { V.junk(c); V.freeze(); }
    Vec<R> dv(c, "d", n), ev(c, "e", std::max(0, n - 1));
    for (int i = 0; i < n; ++i) dv[i] = (R)d[i];
    for (int i = 0; i + 1 < n; ++i) ev[i] = (R)e[i];
    auto u = U.view(), v = V.view();
    auto D = dv.view();
    auto E = ev.view();
    int r = tl::svd_qr(lower ? tl::Uplo::Lower : tl::Uplo::Upper, wu, wv, D, E, u, v);
    if (r && getenv("VKD")) for (int i = 0; i < n; ++i) fprintf(stderr, "%d %.9Lg %.9Lg -> %.9Lg %.9Lg\n", i, ld(d[i]), i + 1 < n ? ld(e[i]) : 0.0L, ld(F(dv[i])), i + 1 < n ? ld(F(ev[i])) : 0.0L);
    if (!c.ok("svdqr.ret", r == 0, "return %d", r)) return;
    std::vector<F> S;
    if (!ordered(c, "svdqr.order", dv, n, S) || n == 0) return;
    M B(n, n);
    for (int i = 0; i < n; ++i) {
        B(i, i) = Z(d[i]);
        if (i + 1 < n) (lower ? B(i + 1, i) : B(i, i + 1)) = Z(e[i]);
    }
    F nB = nrm(B), unfl = rmin() * F(n) * 4;
    double thr = 30.0 * (n + 4);
    M U1, V1;
    if (wu) {
        U1 = U.ref();
        if (nu >= n) c.small("svdqr.orthu", orth(U1), 1, thr);
    }
    if (wv) {
        V1 = V.ref();
        if (nv >= n) c.small("svdqr.orthv", orth(ctr(V1)), 1, thr);
    }
    M SS = diagS(S, n, n);
    if (wu && wv) c.small("svdqr.res", nrm(cmul(cmul(U1, SS), V1) - cmul(cmul(U0, B), V0)), nB + unfl / eps(), thr);
    else if (wu && nu == n) {   // U1^H U0 B has orthogonal rows of length s
        M W = scale(Z(1 / (nB > 0 ? nB : F(1))), cmul(cmul(ctr(U1), U0), B)), G = cmul(W, ctr(W));
        for (int i = 0; i < n; ++i) G(i, i) = G(i, i) - (nB > 0 ? Z(S[i] / nB * (S[i] / nB)) : Z(0));
        c.small("svdqr.one", nrm(G), 1 + (nB > 0 ? unfl / nB / eps() : F(0)), thr);
    }
    else if (wv && nv == n) {
        M W = scale(Z(1 / (nB > 0 ? nB : F(1))), cmul(cmul(B, V0), ctr(V1))), G = cmul(ctr(W), W);
        for (int i = 0; i < n; ++i) G(i, i) = G(i, i) - (nB > 0 ? Z(S[i] / nB * (S[i] / nB)) : Z(0));
        c.small("svdqr.one", nrm(G), 1 + (nB > 0 ? unfl / nB / eps() : F(0)), thr);
    }
    // high relative accuracy of every singular value (Demmel-Kahan): bracketing with Sturm counts
    std::vector<F> b;
    for (int i = 0; i < n; ++i) {
        b.push_back(d[i]);
        if (i + 1 < n) b.push_back(e[i]);
    }
    F tol = F(1000) * eps() * F(n + 2);
    unfl = rmin() * F(n) * F(n) * 8 * (1 + S[0]);   // deflation threshold n*safe_min and underflowing rotations
    for (int i = 0; i < n; ++i) {
        F hi = S[i] * (1 + tol) + unfl, lo = S[i] * (1 - tol) - unfl;
        // sigma_i (0-based, descending) lies in [lo, hi]
        c.ok("svdqr.relhi", countGE(b, hi) <= i, "singular value %d=%Lg is too small (relative to %Lg)", i, ld(S[i]), ld(S[0]));
        if (lo > 0) c.ok("svdqr.rello", countGE(b, lo) >= i + 1, "singular value %d=%Lg is too large (relative to %Lg)", i, ld(S[i]), ld(S[0]));
    }
}
static F wide(Rng& g, int half)
{
    int lo = (EMIN - 1) / half, hi = (EMAX - 1) / half;
    int md = g.range(0, 7);
    if (md == 0) return 0;
    if (md == 1) return F(g.range(1, 2));
    F v = 1 + F(g.u01());
    int dg = std::numeric_limits<R>::digits;
    int e = md <= 3 ? g.range(-2, 2) : md == 4 ? g.range(-dg - 3, dg + 3) : md == 5 ? (g.coin() ? g.range(lo, lo + 6) : g.range(hi - 8, hi - 2)) : g.range(lo, hi - 2);
    while (e > 0) v *= 2, --e;
    while (e < 0) v /= 2, ++e;
    return F((R)v);
}
FAMILY(svd22, 4000, 200000)
{
    auto& g = c.rng;
    int half = std::is_same<R, long double>::value ? 3 : 1;
    F f = wide(g, half), gg = wide(g, half), h = wide(g, half);
    int sp = g.range(0, 10);
    if (sp == 0 || sp == 6) h = f;
    if (sp == 1) gg = f;
    if (sp == 2) gg = h;
    if (sp == 3) h = F((R)(f * (1 + eps() * F(g.range(1, 4)))));
    if (sp == 4) gg = F((R)(f * eps()));
    if (sp == 5) gg = F((R)(f / eps() * F(0.5 + g.u01())));
    if (sp == 6) {  // equal diagonal entries, (g / f)^2 underflows
        f = h = F(1 + g.range(0, 3)), gg = rmin() * F((R)(1 + g.u01()));
        for (int e = g.range(0, EMAX / 2); e > 0; --e) gg *= 2;
    }
    if (!(gg < rmax() / 8)) gg = f;
    if (g.coin()) f = -f;
    if (g.coin()) gg = -gg;
    if (g.coin()) h = -h;
    c.desc("svd22 [%.17Lg,%.17Lg;0,%.17Lg]", ld(f), ld(gg), ld(h));
    c.nt();
    F fa = fabs_(f), ha = fabs_(h), ga = fabs_(gg), big = std::max(fa, std::max(ga, ha));
    F smx = 0, smn = 0;
    if (big > 0) {
        F x = (fa + ha) / big, y = (fa - ha) / big, z = ga / big;
        smx = big * (vsqrt(x * x + z * z) + vsqrt(y * y + z * z)) / 2;
        smn = std::min(fa, ha) * (std::max(fa, ha) / smx);
    }
    F tiny = rmin() * 16;
    {
        R a = R(-5), b = R(-5);
        tl::singularvalues22((R)f, (R)gg, (R)h, a, b);
        c.bound("sv22.max", fabs_(F(b) - smx), 16 * eps() * smx + tiny * eps() * 16);
        c.bound("sv22.min", fabs_(F(a) - smn), 32 * eps() * smn + tiny * eps() * 16 + (smn < tiny ? tiny : F(0)));
        c.ok("sv22.sign", a >= R(0) && b >= R(0), "negative");
    }
    R a, b, cl, sl, cr, sr;
    tl::svd22((R)f, (R)gg, (R)h, a, b, cl, sl, cr, sr);
    c.bound("svd22.max", fabs_(fabs_(F(b)) - smx), 20 * eps() * smx + tiny * eps() * 16);
    c.bound("svd22.min", fabs_(fabs_(F(a)) - smn), 40 * eps() * smn + (smn < tiny / eps() ? tiny : F(0)));
    F o1 = F(cl) * F(cl) + F(sl) * F(sl), o2 = F(cr) * F(cr) + F(sr) * F(sr);
    c.bound("svd22.orth", std::max(fabs_(o1 - 1), fabs_(o2 - 1)), 16 * eps());
    // [cl sl; -sl cl] B [cr -sr; sr cr] = diag(ssmax, ssmin)
    F p = F(cl) * f, q = F(cl) * gg + F(sl) * h, r = -F(sl) * f, t = -F(sl) * gg + F(cl) * h;
    F x11 = p * F(cr) + q * F(sr), x12 = -p * F(sr) + q * F(cr), x21 = r * F(cr) + t * F(sr), x22 = -r * F(sr) + t * F(cr);
    F bd = 32 * eps() * smx + tiny;
    c.bound("svd22.d1", fabs_(x11 - F(b)), bd);
    c.bound("svd22.d2", fabs_(x22 - F(a)), bd);
    c.bound("svd22.o1", fabs_(x12), bd);
    c.bound("svd22.o2", fabs_(x21), bd);
}
VK_MAIN
