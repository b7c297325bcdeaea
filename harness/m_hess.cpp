// C12: Hessenberg and Hessenberg-triangular reductions
#include "hh.hpp"
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
using namespace vk;
namespace tl = tlapack;

static int shape(Rng& g) { return g.coin(0.15) ? g.range(24, 60) : dim(g, 26); }
static void active(Rng& g, int n, int& lo, int& hi)
{
    lo = 0, hi = n;
    if (!g.coin(0.5)) return;
    lo = g.range(0, std::max(0, n - 1));
    hi = g.range(lo, n);
    if (g.coin(0.5)) hi = n;
    else if (g.coin(0.5)) lo = 0;
}
static M hessV(const M& A, int lo, int hi)
{
    int n = A.m, k = std::max(0, hi - lo - 1);
    M V(n, k);
    for (int q = 0; q < k; ++q) {
        int j = lo + q;
        V(j + 1, q) = Z(1);
        for (int i = j + 2; i < hi; ++i) V(i, q) = A(i, j);
    }
    return V;
}
FAMILY(hess, 1000, 22000)
{
    auto& g = c.rng;
    int n = shape(g), lo, hi, kind = (int)(c.idx / 6 % dData_N), which = (int)(c.idx % 6);
    active(g, n, lo, hi);
    if (n == 0 && which != 0 && which != 3) which = 0;
    int nb = blk(g), nx = g.pick({0, 1, 2, 5, 8, 128});
    M X = gen<T>(g, n, n, kind);
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i)
            if (j < lo || i >= hi) X(i, j) = Z(0);
    static const char* W[] = {"gehd2", "gehrd", "hessenberg", "gehd2_work", "gehrd_work", "hessenberg_work"};
    tl::HessenbergOpts o;
    o.nb = nb;
    o.nx_switch = nx;
    o.variant = g.coin(0.3) ? tl::HessenbergVariant::Level2 : tl::HessenbergVariant::Blocked;
    c.desc("%s n=%d ilo=%d ihi=%d nb=%d nx=%d variant=%c data=%s", W[which], n, lo, hi, nb, nx, (char)o.variant, dname(kind));
    if (n > 1) c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(X);
    M A0 = A.ref();
    int nt = std::max(0, n - 1);
    Vec<T> tau(c, "tau", nt);
    tau.junk();
    auto a = A.view();
    auto t = tau.view();
    int r = -1;
    tl::GehrdOpts go;
    go.nb = nb;
    go.nx_switch = nx;
    if (which == 0) r = tl::gehd2(lo, hi, a, t);
    else if (which == 1) r = tl::gehrd(lo, hi, a, t, go);
    else if (which == 2) r = tl::hessenberg(lo, hi, a, t, o);
    else {
        auto wi = which == 3 ? tl::gehd2_worksize<T>(lo, hi, a, t)
                : which == 4 ? tl::gehrd_worksize<T>(lo, hi, a, t, go) : tl::hessenberg_worksize<T>(lo, hi, a, t, o);
        Work<T> w(c, wi);
        auto wv = w.view();
        r = which == 3 ? tl::gehd2_work(lo, hi, a, t, wv) : which == 4 ? tl::gehrd_work(lo, hi, a, t, wv, go) : tl::hessenberg_work(lo, hi, a, t, wv, o);
    }
    c.ok("hess.ret", r == 0, "return %d", r);
    M A1 = A.ref(), V = hessV(A1, lo, hi), H = A1;
    int k = V.n;
    M tv(k, 1);
    for (int q = 0; q < k; ++q) tv(q, 0) = toZ(tau[lo + q]);
    for (int q = 0; q < k; ++q)
        for (int i = lo + q + 2; i < hi; ++i) H(i, lo + q) = Z(0);
    M Q = prodH(V, tv, Direction::Forward);
    c.small("hess.orth", orth(Q), 1, 10.0 * (k + 3));
    // parts below the diagonal outside the active block are zero on entry and must stay so
    F out = 0;
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i)
            if (j < lo || i >= hi) out = std::max(out, absm(A1(i, j)));
    c.ok("hess.outside", out == 0, "nonzero %Lg below the diagonal outside the active block", ld(out));
    // block triangular structure: columns lo..hi judged against the active block and the rest separately
    c.small("hess.res", nrm(mul(mul(Q, H), ctr(Q)) - A0), nrm(A0), 8.0 * (n + 6));
    // rows hi.. and columns ..lo are invariant
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if ((i >= hi && j >= hi) || (j < lo + 1 && i < lo + 1) || (k == 0) || (i < lo && j >= hi)) {
                Z d = A1(i, j) - A0(i, j);
                un = std::max(un, absm(d));
            }
    c.ok("hess.invariant", un == 0, "an element outside the block touched by Q changed by %Lg", ld(un));
    // unghr: the full n-by-n factor
    if (n > 0) {
        Mat<T> B(c, "Q", n, n);
        B.set(A1);
        tau.freeze();
        auto b = B.view();
        const auto& ct = t;
        int r2;
        if (g.coin()) {
            auto wi = tl::unghr_worksize<T>(lo, hi, b, ct);
            Work<T> w(c, wi);
            auto wv = w.view();
            r2 = tl::unghr_work(lo, hi, b, ct, wv);
        }
        else r2 = tl::unghr(lo, hi, b, ct);
        c.ok("unghr.ret", r2 == 0, "return %d", r2);
        c.small("unghr.res", nrm(B.ref() - Q), 1, 10.0 * (k + 4) * std::sqrt((double)n));
        // unmhr applies op(Q) from either side
        Side s = g.coin() ? Side::Left : Side::Right;
        Op op = g.pick({Op::NoTrans, Op::ConjTrans});
        if (!IsC && g.coin(0.3)) op = Op::Trans;
        int p = g.coin(0.1) ? 0 : dim(g, 16), cm = s == Side::Left ? n : p, cn = s == Side::Left ? p : n;
        Mat<T> C(c, "C", cm, cn);
        C.set(gen<T>(g, cm, cn, g.coin(0.7) ? dRandom : dGradedRC));
        M C0 = C.ref();
        A.freeze();
        auto cc = C.view();
        const auto& ca = a;
        bool wk = g.coin();
        c.desc(" unmhr side=%c op=%c p=%d work=%d", (char)s, (char)op, p, wk);
        int r3;
        if (wk) {
            auto wi = tl::unmhr_worksize<T>(s, op, lo, hi, ca, ct, cc);
            Work<T> w(c, wi);
            auto wv = w.view();
            r3 = tl::unmhr_work(s, op, lo, hi, ca, ct, cc, wv);
        }
        else r3 = tl::unmhr(s, op, lo, hi, ca, ct, cc);
        c.ok("unmhr.ret", r3 == 0, "return %d", r3);
        M oq = opM(Q, op);
        M W = s == Side::Left ? mul(oq, C0) : mul(C0, oq);
        c.small("unmhr.res", nrm(C.ref() - W), nrm(C0), 10.0 * (k + 4));
    }
}
FAMILY(lahr2, 300, 6000)
{
    auto& g = c.rng;
    int n = g.range(2, g.coin(0.2) ? 40 : 14), k = g.range(0, n - 2), nb = g.range(1, n - 1 - k), kind = (int)(c.idx % dData_N);
    c.desc("lahr2 n=%d k=%d nb=%d data=%s", n, k, nb, dname(kind));
    c.nt();
    Mat<T> A(c, "A", n, n - k); Mat<T, LayB> Tm(c, "T", nb, nb); Mat<T, LayC> Y(c, "Y", n, nb);
    A.set(gen<T>(g, n, n - k, kind));
    M A0 = A.ref();
    Vec<T> tau(c, "tau", n - k - 1);
    Tm.fill(T(0));
    Y.fill(T(0));
    auto a = A.view();
    auto tm = Tm.view();
    auto y = Y.view();
    auto t = tau.view();
    c.ok("lahr2.ret", tl::lahr2(k, nb, a, t, tm, y) == 0);
    M A1 = A.ref(), T1 = Tm.ref(), V(n, nb), tv(nb, 1);
    for (int q = 0; q < nb; ++q) {
        V(k + q + 1, q) = Z(1);
        for (int i = k + q + 2; i < n; ++i) V(i, q) = A1(i, q);
        tv(q, 0) = toZ(tau[q]);
    }
    M Q = prodH(V, tv, Direction::Forward), TT(nb, nb);
    for (int j = 0; j < nb; ++j)
        for (int i = 0; i <= j; ++i) TT(i, j) = T1(i, j);
    c.small("lahr2.orth", orth(Q), 1, 10.0 * (nb + 3));
    M Q2 = M::eye(n, n) - mul(mul(V, TT), ctr(V));
    c.small("lahr2.T", nrm(Q2 - Q), 1, 10.0 * (nb + 3));
    M Ah = sub(A0, 0, n, 1, n - k), Vh = sub(V, k + 1, n, 0, nb);
    M Yr = mul(mul(Ah, Vh), TT);
    c.small("lahr2.Y", nrm(Y.ref() - Yr), nrm(Ah), 10.0 * (n + 4));
    // panel: Q^H (A0 - Y V^H)
    M P = A0;
    for (int j = 1; j < n - k; ++j)
        for (int i = 0; i < n; ++i)
            for (int q = 0; q < nb; ++q) P(i, j) -= Yr(i, q) * conj(Vh(j - 1, q));
    P = mul(ctr(Q), P);
    F e = 0;
    for (int j = 0; j < nb; ++j)
        for (int i = k + 1; i < n; ++i)
            e = std::max(e, abs(P(i, j) - (i <= k + 1 + j ? A1(i, j) : Z(0))));
    c.small("lahr2.panel", e, nrm(A0), 10.0 * (n + 6));
    F un = 0;
    for (int j = nb; j < n - k; ++j)
        for (int i = 0; i < n; ++i) un = std::max(un, absm(A1(i, j) - A0(i, j)));
    c.ok("lahr2.rest", un == 0, "columns past the panel changed by %Lg", ld(un));
}
static M randQ(Rng& g, int n)
{
    M V, tau;
    V = M(n, n);
    M Q = M::eye(n, n);
    for (int q = 0; q < std::min(n, 3); ++q) {
        M v(n, 1);
        F s = 0;
        for (auto& z : v.a) { z = toZ(rnd<T>(g)); s += abs2(z); }
        if (s > F(1e-3)) hmulR(Q, v, Z(F(2) / s));
    }
    return Q;
}
FAMILY(gghess, 700, 14000)
{
    auto& g = c.rng;
    int n = std::max(1, shape(g)), lo, hi, kind = (int)(c.idx / 8 % dData_N), w = (int)(c.idx % 8);
    do active(g, n, lo, hi); while (hi <= lo);
    bool blocked = w & 1, wq = w & 2, wz = w & 4;
    int nb = blk(g);
    M X = gen<T>(g, n, n, kind), Y = gen<T>(g, n, n, g.coin(0.3) ? kind : dRandom);
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            Y(i, j) = Z(0);
            if (j < lo || i >= hi) X(i, j) = Z(0);
        }
    if (g.coin(0.2)) { int i = g.range(0, n - 1); Y(i, i) = Z(0); }
    bool id = g.coin();
    c.desc("%s n=%d ilo=%d ihi=%d nb=%d wantq=%d wantz=%d identity=%d data=%s", blocked ? "gghd3" : "gghrd", n, lo, hi, nb, wq, wz, id, dname(kind));
    if (n > 1) c.nt();
    Mat<T> A(c, "A", n, n); Mat<T, LayB> B(c, "B", n, n); Mat<T, LayC> Q(c, "Q", n, n); Mat<T> Zm(c, "Z", n, n);
    A.set(X);
    B.set(Y);
    Q.set(id ? M::eye(n, n) : randQ(g, n));
    Zm.set(id ? M::eye(n, n) : randQ(g, n));
    M A0 = A.ref(), B0 = B.ref(), Q0 = Q.ref(), Z0 = Zm.ref();
    if (!wq) Q.freeze();
    if (!wz) Zm.freeze();
    auto a = A.view();
    auto b = B.view();
    auto q = Q.view();
    auto z = Zm.view();
    int r;
    if (blocked) {
        tl::Gghd3Opts o;
        o.nb = nb;
        r = tl::gghd3(wq, wz, lo, hi, a, b, q, z, o);
    }
    else r = tl::gghrd(wq, wz, lo, hi, a, b, q, z);
    c.ok("gg.ret", r == 0, "return %d", r);
    M H = A.ref(), P = B.ref(), Q1 = Q.ref(), Z1 = Zm.ref();
    F low = 0, lowb = 0;
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            lowb = std::max(lowb, absm(P(i, j)));
            if (i > j + 1 || j < lo || i >= hi) low = std::max(low, absm(H(i, j)));
        }
    c.ok("gg.hess", low == 0, "nonzero %Lg below the subdiagonal of A", ld(low));
    c.ok("gg.tri", lowb == 0, "nonzero %Lg below the diagonal of B", ld(lowb));
    double thr = 8.0 * (n + 4);
    // columnwise norms are preserved by unitary equivalences: judged even if the factors are not requested
    c.small("gg.normA", fabs_(nrm(H) - nrm(A0)), nrm(A0), thr);
    c.small("gg.normB", fabs_(nrm(P) - nrm(B0)), nrm(B0), thr);
    // Q0^H Q1 and Z0^H Z1 are the transformations: Q1 H Z1^H = Q0 A0 Z0^H
    if (wq) c.small("gg.orthQ", orth(Q1), 1, thr + 8 * n);
    if (wz) c.small("gg.orthZ", orth(Z1), 1, thr + 8 * n);
    if (wq && wz) {
        c.small("gg.resA", nrm(mul(mul(Q1, H), ctr(Z1)) - mul(mul(Q0, A0), ctr(Z0))), nrm(A0), 2 * thr + 8 * n);
        c.small("gg.resB", nrm(mul(mul(Q1, P), ctr(Z1)) - mul(mul(Q0, B0), ctr(Z0))), nrm(B0), 2 * thr + 8 * n);
    }
    else if (wz) {
        // Z alone: Z1 (H^H H) Z1^H = Z0 A0^H A0 Z0^H, and the cross Gram matrix with B
        M L = mul(mul(Z1, mul(ctr(H), P)), ctr(Z1)), Rr = mul(mul(Z0, mul(ctr(A0), B0)), ctr(Z0));
        c.small("gg.gramZ", nrm(L - Rr), nrm(A0) * nrm(B0), 4 * thr + 8 * n);
    }
    else if (wq) {
        M L = mul(mul(Q1, mul(H, ctr(P))), ctr(Q1)), Rr = mul(mul(Q0, mul(A0, ctr(B0))), ctr(Q0));
        c.small("gg.gramQ", nrm(L - Rr), nrm(A0) * nrm(B0), 4 * thr + 8 * n);
    }
    // leading lo columns / trailing n-hi rows and columns keep their diagonal blocks
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if ((i < lo && j < lo) || (i >= hi && j >= hi) || (i < lo && j >= hi))
                un = std::max(un, std::max(absm(H(i, j) - A0(i, j)), absm(P(i, j) - B0(i, j))));
    c.ok("gg.outside", un == 0, "an element outside the active rows and columns changed by %Lg", ld(un));
    c.count(blocked ? "gghd3" : "gghrd");
}
FAMILY(hessrq, 400, 8000)
{
    auto& g = c.rng;
    int n = std::max(1, g.coin(0.2) ? g.range(20, 50) : g.range(1, 14)), k = n - 1, kind = (int)(c.idx % dData_N);
    c.desc("hessenberg_rq n=%d data=%s", n, dname(kind));
    if (n > 1) c.nt();
    M X = gen<T>(g, n, n, kind);
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) X(i, j) = Z(0);
    Mat<T> A(c, "T", n, n);
    A.set(X);
    Vec<R> cl(c, "cl", k), cr(c, "cr", k);
    Vec<T> sl(c, "sl", k), sr(c, "sr", k);
    for (int i = 0; i < k; ++i) {
        double th = 6.283185307179586 * g.u01(), ph = IsC ? 6.283185307179586 * g.u01() : 0;
        int sp = g.range(0, 9);
        if (sp == 0) th = 0;
        if (sp == 1) th = 1.5707963267948966;
        cl[i] = (R)std::cos(th);
        if (sp == 1) cl[i] = R(0);
        sl[i] = Mat<T>::fromZ(Z(F(std::sin(th) * std::cos(ph)), F(std::sin(th) * std::sin(ph))));
    }
    cr.junk();
    sr.junk();
    // only the upper triangle and the subdiagonal may be touched
    A.maskif([&](int i, int j) { return i > j + 1; });
    M A0 = A.ref();
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) A0(i, j) = Z(0);
    cl.freeze();
    sl.freeze();
    auto a = A.view();
    auto v1 = cl.view(), v3 = cr.view();
    auto v2 = sl.view(), v4 = sr.view();
    tl::hessenberg_rq(a, v1, v2, v3, v4);
    M H = A0, A1 = A.ref();
    F sc = nrm(A0);
    for (int j = n - 2; j >= 0; --j)
        for (int q = 0; q < n; ++q) {
            Z x = H(j, q), y = H(j + 1, q), s = toZ(sl[j]), cc((F)cl[j]);
            H(j, q) = cc * x + s * y;
            H(j + 1, q) = cc * y - conj(s) * x;
        }
    for (int i = n - 1; i > 0; --i) {
        Z s = toZ(sr[i - 1]), cc((F)cr[i - 1]);
        c.small("rq.rot", fabs_(abs2(s) + cc.re * cc.re - 1), 1, 10);
        for (int q = 0; q < n; ++q) {
            Z x = H(q, i - 1), y = H(q, i);
            H(q, i - 1) = cc * x + conj(s) * y;
            H(q, i) = cc * y - s * x;
        }
    }
    F e = 0, low = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
            if (i > j + 1) { e = std::max(e, abs(H(i, j))); continue; }
            if (i == j + 1) low = std::max(low, absm(A1(i, j)));
            e = std::max(e, abs(H(i, j) - (i <= j ? A1(i, j) : Z(0))));
        }
    c.small("rq.res", e, sc, 10.0 * (n + 4));
    c.ok("rq.tri", low == 0, "subdiagonal %Lg", ld(low));
}
VK_MAIN
