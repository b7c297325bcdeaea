// C19: symmetric eigenvalue kernels
#include "hh.hpp"
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laev2.hpp>
using namespace vk;
namespace tl = tlapack;

static int dim2(Rng& g) { return g.coin(0.15) ? g.range(20, 40) : dim(g, 16); }
FAMILY(hetd2, 900, 25000)
{
    auto& g = c.rng;
    int n = dim2(g), kind = (int)(c.idx / 2 % dData_N);
    bool up = c.idx & 1;
    c.desc("hetd2+ungtr n=%d %s data=%s", n, up ? "upper" : "lower", dname(kind));
    if (n > 1) c.nt();
    M X = gen<T>(g, n, n, kind);
    X = scale(Z(0.5), X + ctr(X));
    roundT(X);
    X = scale(Z(0.5), X + ctr(X));
    M Y = X;
    if (IsC && g.coin())   // imaginary part of the diagonal is not used
        for (int i = 0; i < n; ++i) Y(i, i).im = F(g.sym());
    roundT(Y);
    Mat<T> A(c, "A", n, n);
    A.set(Y);
    A.maskif([&](int i, int j) { return up ? i > j : i < j; });
    Vec<T> tau(c, "tau", std::max(0, n - 1));
    tau.junk();
    auto a = A.view();
    auto t = tau.view();
    int r = up ? (g.coin() ? tl::hetd2(tl::Uplo::Upper, a, t) : tl::hetd2(tl::UPPER_TRIANGLE, a, t)) : (g.coin() ? tl::hetd2(tl::Uplo::Lower, a, t) : tl::hetd2(tl::LOWER_TRIANGLE, a, t));
    c.ok("hetd2.ret", r == 0, "return %d", r);
    M A1(n, n), Tr(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if (up ? i <= j : i >= j) A1(i, j) = toZ(a(i, j));
    F im = 0;
    for (int i = 0; i < n; ++i) {
        Tr(i, i) = A1(i, i);
        im = std::max(im, fabs_(Tr(i, i).im));
        if (i + 1 < n) {
            Z e = up ? A1(i, i + 1) : A1(i + 1, i);
            im = std::max(im, fabs_(e.im));
            Tr(i, i + 1) = Tr(i + 1, i) = e;
        }
    }
    c.ok("hetd2.real", im == 0, "tridiagonal form has imaginary part %Lg", ld(im));
    int k = std::max(0, n - 1);
    M V(n, k), tq(k, 1);
    for (int q = 0; q < k; ++q) {
        tq(q, 0) = toZ(tau[q]);
        if (up) {
            V(q, q) = Z(1);
            for (int i = 0; i < q; ++i) V(i, q) = A1(i, q + 1);
        }
        else {
            V(q + 1, q) = Z(1);
            for (int i = q + 2; i < n; ++i) V(i, q) = A1(i, q);
        }
    }
    M Q = prodH(V, tq, up ? Direction::Backward : Direction::Forward);
    c.small("hetd2.orth", orth(Q), 1, 10.0 * (n + 3));
    c.small("hetd2.res", nrm(cmul(cmul(Q, Tr), ctr(Q)) - X), nrm(X), 10.0 * (n + 4));
    // explicit factor
    Mat<T> U(c, "Q", n, n);
    U.junk(c);
    auto u = U.view();
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if (up ? i < j - 1 : i > j + 1) u(i, j) = a(i, j);
    tau.freeze();
    const auto& ct = t;
    int r2 = up ? tl::ungtr(tl::Uplo::Upper, u, ct) : tl::ungtr(tl::Uplo::Lower, u, ct);
    c.ok("ungtr.ret", r2 == 0, "return %d", r2);
    c.small("ungtr.q", nrm(U.ref() - Q), 1, 10.0 * (n + 4) * std::sqrt(n + 1.0));
}
// number of eigenvalues of the symmetric tridiagonal matrix smaller than x
static int countLT(const std::vector<F>& d, const std::vector<F>& e, F x, F tiny)
{
    int cnt = 0;
    F q = 1;
    for (size_t i = 0; i < d.size(); ++i) {
        F o = i ? e[i - 1] : F(0);
        q = d[i] - x - (i ? o * (o / q) : F(0));
        if (q == 0) q = -tiny;
        if (q < 0) ++cnt;
    }
    return cnt;
}
FAMILY(steqr, 1500, 60000)
{
    auto& g = c.rng;
    int n = g.coin(0.15) ? g.range(18, 40) : dim(g, 12);
    int dk = g.range(0, 12), ek = g.range(0, 8);
    std::vector<F> d(n), e(std::max(0, n - 1));
    double gr = std::pow(10.0, g.sym() * (g.coin() ? 1 : 3));
    F run = 1;
    for (int i = 0; i < n; ++i) {
        F x = F(g.sym());
        switch (dk) {
            case 2: x = F(g.range(-2, 2)); break;
            case 3: x *= run; run *= F(gr); if (run > F(1e12) || run < F(1e-12)) run = 1; break;
            case 4: x = F(1); break;
            case 5: x = F(0); break;
            case 6: x = F(std::abs(i - n / 2)); break;   // Wilkinson
            case 7: x = F(i); break;
            case 8: x = F(std::pow(10.0, -3.0 * g.range(0, 5))) * (g.coin() ? 1 : -1); break;
            case 9: x = F(1) + F(g.range(0, 4)) * eps(); break;
            case 10: x = g.coin(0.3) ? F(0) : x; break;
            case 11: x = F(i % 2); break;
            case 12: x = F(-2); break;
        }
        d[i] = F((R)x);
    }
    run = 1;
    for (int i = 0; i + 1 < n; ++i) {
        F x = F(g.sym());
        switch (ek) {
            case 2: x = F(g.range(-1, 1)); break;
            case 3: x *= run; run *= F(gr); if (run > F(1e12) || run < F(1e-12)) run = 1; break;
            case 4: x = F(1); break;
            case 5: x *= eps() * F(std::pow(10.0, g.range(-1, 3))); break;
            case 6: x *= F(100); break;
            case 7: x = F(0); break;
            case 8: x = (i % 7 == 6) ? F(1e-3) * F(vsqrt(eps())) : F(1); break;
        }
        e[i] = F((R)x);
    }
    int pw = g.coin(0.6) ? 0 : g.range(EMIN * 4 / 5, EMAX * 3 / 5);
    F sc = 1;
    for (int i = 0; i < pw; ++i) sc *= 2;
    for (int i = 0; i > pw; --i) sc /= 2;
    for (auto& x : d) x = F((R)(x * sc));
    for (auto& x : e) x = F((R)(x * sc));
    bool wz = c.idx & 1;
    c.desc("steqr n=%d z=%d d=%d e=%d scale 2^%d", n, wz, dk, ek, pw);
    if (n > 1) c.nt();
    M Z0 = M::eye(n, n);
    bool id = g.coin(0.4);
    if (!id && n > 0)
        for (int t = 0; t < 3; ++t) {
            M v(n, 1);
            F ss = 0;
            for (auto& z : v.a) { z = toZ(rnd<T>(g)); ss += abs2(z); }
            if (ss > F(1e-3)) hmulR(Z0, v, Z(F(2) / ss));
        }
    roundT(Z0);
    Mat<T> Zm(c, "Z", wz ? n : g.range(0, 3), wz ? n : g.range(0, 3));
    if (wz) Zm.set(Z0); else { Zm.junk(c); Zm.freeze(); }
    Vec<R> dv(c, "d", n), ev(c, "e", std::max(0, n - 1));
    for (int i = 0; i < n; ++i) dv[i] = (R)d[i];
    for (int i = 0; i + 1 < n; ++i) ev[i] = (R)e[i];
    auto z = Zm.view();
    auto D = dv.view();
    auto E = ev.view();
    int r = tl::steqr(wz, D, E, z);
    if (!c.ok("steqr.ret", r == 0, "return %d", r)) return;
    std::vector<F> S(n);
    F mx = 0;
    for (int i = 0; i < n; ++i) mx = std::max(mx, std::max(fabs_(d[i]), i + 1 < n ? fabs_(e[i]) : F(0)));
    F tiny = rmin() * eps() * eps() * eps();
    for (int i = 0; i < n; ++i) {
        S[i] = F(dv[i]);
        if (!c.ok("steqr.finite", ffinite(S[i]), "eigenvalue %d is not finite", i)) return;
        if (i && !c.ok("steqr.order", S[i] >= S[i - 1], "eigenvalues %d, %d out of order: %Lg %Lg", i - 1, i, ld(S[i - 1]), ld(S[i]))) return;
    }
    if (n == 0) return;
    F tol = F(40) * eps() * F(n + 2) * mx + rmin() * F(n) * 4;
    if (mx == 0) tol = 0;
    for (int i = 0; i < n; ++i) {
        if (mx == 0) { c.ok("steqr.zero", S[i] == 0, "zero matrix"); continue; }
        c.ok("steqr.hi", countLT(d, e, S[i] + tol, tiny) >= i + 1, "eigenvalue %d = %Lg is too small (largest entry %Lg)", i, ld(S[i]), ld(mx));
        c.ok("steqr.lo", countLT(d, e, S[i] - tol, tiny) <= i, "eigenvalue %d = %Lg is too large (largest entry %Lg)", i, ld(S[i]), ld(mx));
    }
    if (wz) {
        M Z1 = Zm.ref();
        double thr = 40.0 * (n + 3);
        c.small("steqr.orth", orth(Z1), 1, thr);
        M W = cmul(ctr(Z0), Z1), Rs(n, n);   // eigenvectors of the tridiagonal
        F q = mx > 0 ? mx : F(1);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i) {
                Z y = (d[i] / q - S[j] / q) * W(i, j);
                if (i) y = y + (e[i - 1] / q) * W(i - 1, j);
                if (i + 1 < n) y = y + (e[i] / q) * W(i + 1, j);
                Rs(i, j) = y;
            }
        c.bound("steqr.res", nrm(Rs), (F(thr) * eps() + rmin() / q * F(n) * 4) * F(1));
    }
}
static F wide(Rng& g)
{
    int lo = EMIN - 1 + std::numeric_limits<R>::digits + 3, hi = EMAX - 5;
    int md = g.range(0, 7);
    if (md == 0) return 0;
    if (md == 1) return F(g.range(1, 2));
    F v = 1 + F(g.u01());
    int dg = std::numeric_limits<R>::digits;
    int e = md <= 3 ? g.range(-2, 2) : md == 4 ? g.range(-dg - 3, dg + 3) : md == 5 ? (g.coin() ? g.range(lo, lo + 6) : g.range(hi - 6, hi - 1)) : g.range(lo, hi - 1);
    while (e > 0) v *= 2, --e;
    while (e < 0) v /= 2, ++e;
    return F((R)v);
}
FAMILY(eig22, 4000, 200000)
{
    auto& g = c.rng;
    F a = wide(g), b = wide(g), d = wide(g);
    int sp = g.range(0, 9);
    if (sp == 0) d = a;
    if (sp == 1) b = a;
    if (sp == 2) b = d;
    if (sp == 3) d = F((R)(a * (1 + eps() * F(g.range(1, 4)))));
    if (sp == 4) b = F((R)(a * eps()));
    if (sp == 5) b = F((R)((a - d) / 2));
    if (g.coin()) a = -a;
    if (g.coin()) b = -b;
    if (g.coin()) d = -d;
    if (sp == 6) d = -a;
    for (F* x : {&a, &b, &d}) if (*x != 0 && fabs_(*x) < rmin() / eps()) *x = 0;
    c.desc("laev2 [%.17Lg,%.17Lg;.,%.17Lg]", ld(a), ld(b), ld(d));
    c.nt();
    // exact eigenvalues
    F big = std::max(fabs_(a), std::max(fabs_(b), fabs_(d)));
    F l1 = 0, l2 = 0;
    if (big > 0) {
        F x = a / big, y = b / big, z = d / big, s = x + z, q = vsqrt((x - z) * (x - z) + 4 * y * y);
        l1 = (s < 0 ? s - q : s + q) / 2;
        l1 *= big;
        l2 = l1 != 0 ? (fabs_(a) > fabs_(d) ? (a / l1) * d : a * (d / l1)) - (b / l1) * b : F(0);
    }
    F und = rmin() * 8;
    R s1, s2, t1, t2, cs, sn;
    tl::lae2((R)a, (R)b, (R)d, s1, s2);
    tl::laev2((R)a, (R)b, (R)d, t1, t2, cs, sn);
    for (int w = 0; w < 2; ++w) {
        F e1 = F(w ? t1 : s1), e2 = F(w ? t2 : s2);
        F b1 = 16 * eps() * fabs_(l1) + und;
        if (l1 + l2 == 0 || fabs_(l1 + l2) < 8 * eps() * fabs_(l1)) {   // opposite eigenvalues: the sign is arbitrary
            c.bound("eig22.s1", std::min(fabs_(e1 - l1), fabs_(e1 + l1)), b1);
            c.bound("eig22.s2", std::min(fabs_(e2 - l2), fabs_(e2 + l2)), b1);
            c.bound("eig22.sum", fabs_(e1 + e2), 2 * b1);
        }
        else {
            c.bound("eig22.s1", fabs_(e1 - l1), b1);
            c.bound("eig22.s2", fabs_(e2 - l2), b1);
        }
        c.ok("eig22.order", fabs_(e1) * (1 + 16 * eps()) + und >= fabs_(e2), "|s1| = %Lg < |s2| = %Lg", ld(e1), ld(e2));
        // the smaller eigenvalue is accurate to a few ulps of its terms
        if (l1 != 0) c.bound("eig22.s2rel", std::min(fabs_(e2 - l2), l1 + l2 == 0 ? fabs_(e2 + l2) : fabs_(e2 - l2)), 24 * eps() * (fabs_(fabs_(a) > fabs_(d) ? (a / l1) * d : a * (d / l1)) + fabs_((b / l1) * b)) + und);
    }
    F C = F(cs), N = F(sn);
    c.bound("laev2.orth", fabs_(C * C + N * N - 1), 16 * eps());
    // [cs sn; -sn cs] A [cs -sn; sn cs] = diag(s1, s2)
    F p = C * a + N * b, q = C * b + N * d, r = -N * a + C * b, t = -N * b + C * d;
    F x11 = p * C + q * N, x12 = -p * N + q * C, x22 = -r * N + t * C;
    F bd = 32 * eps() * big + und;
    c.bound("laev2.d1", fabs_(x11 - F(t1)), bd);
    c.bound("laev2.d2", fabs_(x22 - F(t2)), bd);
    c.bound("laev2.off", fabs_(x12), bd);
}
VK_MAIN
