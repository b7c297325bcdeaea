// C20: secular equation solvers
#include "hh.hpp"
#include <tlapack/lapack/laed4.hpp>
using namespace vk;
namespace tl = tlapack;

// real value with the precision of R
static F rr(F x) { return F((R)x); }
static F p2(int e) { F v = 1; for (; e > 0; --e) v *= 2; for (; e < 0; ++e) v /= 2; return v; }
// poles in strictly ascending order, relative gaps bounded below
static std::vector<F> poles(Rng& g, int n, int kind, F mingap)
{
    std::vector<F> d(n);
    F x = kind == 1 ? F(0) : F(g.sym()) * 2;
    for (int i = 0; i < n; ++i) {
        F gap = 0;
        switch (kind) {
            case 0: gap = F(0.05) + F(g.u01()); break;
            case 1: gap = F(1); break;
            case 2: gap = mingap * F(1 + 8 * g.u01()); break;                            // nearly coincident
            case 3: gap = g.coin() ? mingap * F(1 + 4 * g.u01()) : F(g.u01()) + F(0.1); break;   // pairs
            case 4: gap = p2(-g.range(0, std::numeric_limits<R>::digits - 10)); break;   // graded
            case 5: gap = vsqrt(eps()) * F(1 + g.u01()); break;
        }
        if (gap < mingap) gap = mingap;
        if (i) x += gap;
        d[i] = rr(x);
        while (i && d[i] - d[i - 1] < mingap / 2) x += mingap, d[i] = rr(x);
    }
    return d;
}
static std::vector<F> weights(Rng& g, int n, int kind, F lo)
{
    std::vector<F> z(n);
    F s = 0;
    for (int i = 0; i < n; ++i) {
        F x = F(g.sym());
        switch (kind) {
            case 0: break;
            case 1: x = 1; break;
            case 2: x *= p2(-3 * (i % 9)); break;
            case 3: x = i == n / 2 ? F(1) : lo * F(1 + 3 * g.u01()); break;
            case 4: x *= p2(-g.range(0, 20)); break;
            case 5: x = g.coin() ? lo * F(1 + 3 * g.u01()) : x; break;
            case 6: x = i == 0 ? F(1) : i == n - 1 ? F(1) : lo * F(2); break;
            case 7: x = (i % 3 == 1) ? F(1) : vsqrt(eps()) * F(1 + g.u01()); break;
        }
        z[i] = x;
        s += x * x;
    }
    s = vsqrt(s);
    if (s == 0) s = 1;
    F t = 0;
    for (auto& x : z) {
        x /= s;
        if (fabs_(x) < lo) x = (x < 0 ? -lo : lo) * F(1 + g.u01());
        t += x * x;
    }
    t = vsqrt(t);
    for (auto& x : z) x = rr(x / t);
    return z;
}
FAMILY(laed4, 4000, 150000)
{
    auto& g = c.rng;
    int n = g.coin(0.12) ? g.range(14, 40) : g.coin(0.15) ? g.range(1, 2) : g.range(3, 10);
    int dk = g.range(0, 5), zk = g.range(0, 7), sh = g.coin(0.6) ? 0 : g.range(-12, 12), sd = g.coin(0.6) ? 0 : g.range(-10, 10);
    F rho = rr(F(0.1 + 2 * g.u01()) * p2(sh));
    if (g.coin(0.1)) rho = 1;
    std::vector<F> d = poles(g, n, dk, 64 * F(n) * eps());
    F mx = 0;
    for (auto& x : d) x = rr(x * p2(sd)), mx = std::max(mx, fabs_(x));
    F lo = 16 * eps() * std::max(mx, F(1)) / rho;   // smaller weights would have been deflated
    if (lo < eps() * 8) lo = eps() * 8;
    if (lo > F(0.05)) lo = F(0.05);
    std::vector<F> z = weights(g, n, zk, lo);
    int i = g.range(0, n - 1);
    c.desc("laed4 n=%d i=%d rho=%.9Lg d=%d*2^%d z=%d", n, i, ld(rho), dk, sd, zk);
    if (n > 2) c.nt();
    std::vector<R> D(n), Zv(n), dl(n, R(-77));
    for (int j = 0; j < n; ++j) D[j] = (R)d[j], Zv[j] = (R)z[j];
    auto D0 = D, Z0 = Zv;
    R lam = R(-99);
    int r = tl::laed4((size_t)n, (size_t)i, D, Zv, dl, (R)rho, lam);
    c.ok("laed4.const", D == D0 && Zv == Z0, "input modified");
    if (r && getenv("VKD")) for (int j = 0; j < n; ++j) fprintf(stderr, "%d d=%.20Lg z=%.20Lg delta=%.20Lg\n", j, ld(d[j]), ld(z[j]), ld(F(dl[j])));
    // reported failure is tolerated only for clusters of nearly coincident poles with tiny weights (reference LAPACK fails there, too)
    if (r == 1 && (dk == 2 || dk == 3) && zk >= 2) return;
    // and for the last root when the last two poles carry next to no weight: the two-pole interpolation then converges linearly (as in reference LAPACK)
    if (r == 1 && n > 2 && i == n - 1 && z[n - 1] * z[n - 1] + z[n - 2] * z[n - 2] < F(1e-8)) return;
    if (!c.ok("laed4.ret", r == 0, "return %d (root %d of %d)", r, i, n)) return;
    if (getenv("VKD")) for (int j = 0; j < n; ++j) fprintf(stderr, "%d d=%.20Lg z=%.20Lg delta=%.20Lg\n", j, ld(d[j]), ld(z[j]), ld(F(dl[j])));
    F L = F(lam), nz = 0;
    for (auto& x : z) nz += x * x;
    if (!c.ok("laed4.finite", ffinite(L), "eigenvalue not finite")) return;
    F hi = i + 1 < n ? d[i + 1] : d[i] + rho * nz;
    F sl = 4 * eps() * (fabs_(d[i]) + fabs_(hi));
    if (!c.ok("laed4.interlace", L >= d[i] - sl && L <= hi + sl, "root %d = %.17Lg outside [%.17Lg, %.17Lg]", i, ld(L), ld(d[i]), ld(hi))) return;
    if (n == 1) {
        c.bound("laed4.n1", fabs_(L - (d[0] + rho * z[0] * z[0])), 4 * eps() * (fabs_(d[0]) + rho));
        c.ok("laed4.delta1", dl[0] == R(1), "delta = %Lg", ld(F(dl[0])));
        return;
    }
    if (n == 2) {   // delta is the unit eigenvector; the root is accurate relative to its distance from the poles
        F v0 = F(dl[0]), v1 = F(dl[1]), zz = z[0] * v0 + z[1] * v1, sc = mx + rho;
        c.bound("laed4.unit", fabs_(v0 * v0 + v1 * v1 - 1), 20 * eps());
        c.bound("laed4.vec", std::max(fabs_(d[0] * v0 + rho * z[0] * zz - L * v0), fabs_(d[1] * v1 + rho * z[1] * zz - L * v1)), 40 * eps() * sc);
        return;
    }
    // distances to the poles
    int o = i;
    std::vector<F> de(n);
    for (int j = 0; j < n; ++j) de[j] = F(dl[j]);
    for (int j = 0; j < n; ++j) {
        if (!c.ok("laed4.side", ffinite(de[j]) && (j <= i ? de[j] <= 0 : de[j] >= 0), "delta[%d] = %Lg has the wrong sign for root %d", j, ld(de[j]), i)) return;
        if (fabs_(de[j]) < fabs_(de[o])) o = j;
    }
    F tau = -de[o];
    c.bound("laed4.lam", fabs_(L - (d[o] + tau)), 4 * eps() * (fabs_(d[o]) + fabs_(tau)));
    // the secular function vanishes at the returned distances, which agree with the poles up to rounding of the search interval
    F len = i + 1 < n ? d[i + 1] - d[i] : rho, f = 1 / rho, S = 1 / rho, dw = 0, fx = 1 / rho;
    for (int j = 0; j < n; ++j) {
        F x = (d[j] - d[o]) - tau;
        c.bound("laed4.delta", fabs_(x - de[j]), 40 * eps() * (fabs_(x) + fabs_(tau)) + 8 * eps() * len);
        if (!c.ok("laed4.pole", x != 0 && de[j] != 0, "root on pole %d", j)) return;
        F q = z[j] * z[j] / de[j];
        f += q, S += fabs_(q), dw += q / de[j], fx += z[j] * z[j] / x;
    }
    F bd = 8 * F(n + 8) * eps() * (S + fabs_(tau) * dw);
    c.bound("laed4.eq", fabs_(f), bd);
    c.bound("laed4.root", fabs_(fx), bd + 64 * eps() * len * dw);
}
FAMILY(laed5, 3000, 100000)
{
    auto& g = c.rng;
    int i = g.range(0, 1), zk = g.range(0, 7), dk = g.range(0, 5), sh = g.coin(0.5) ? 0 : g.range(-12, 12);
    F rho = rr(F(0.1 + 2 * g.u01()) * p2(sh));
    std::vector<F> d = poles(g, 2, dk, 128 * eps());
    F mx = std::max(fabs_(d[0]), fabs_(d[1]));
    F lo = 16 * eps() * std::max(mx, F(1)) / rho;
    if (lo < eps() * 8) lo = eps() * 8;
    if (lo > F(0.05)) lo = F(0.05);
    std::vector<F> z = weights(g, 2, zk, lo);
    c.desc("laed5 i=%d rho=%.9Lg d=[%.17Lg,%.17Lg] z=[%.17Lg,%.17Lg]", i, ld(rho), ld(d[0]), ld(d[1]), ld(z[0]), ld(z[1]));
    c.nt();
    Vec<R> D(c, "d", 2), Zv(c, "z", 2), dl(c, "delta", 2);
    for (int j = 0; j < 2; ++j) D[j] = (R)d[j], Zv[j] = (R)z[j];
    D.freeze(), Zv.freeze();
    dl.junk();
    auto dv = D.view(), zv = Zv.view(), ev = dl.view();
    R lam = R(-99);
    tl::laed5((size_t)i, dv, zv, ev, (R)rho, lam);
    F L = F(lam);
    // exact: roots of 1/rho + z0^2/(d0-x) + z1^2/(d1-x)
    F del = d[1] - d[0], s = rho * (z[0] * z[0] + z[1] * z[1]), b = del + s, cc = rho * z[0] * z[0] * del, q = vsqrt((del - s) * (del - s) + 4 * rho * z[1] * z[1] * del);
    F t1 = (b + q) / 2, t0 = cc / t1;   // distances from d0
    F ex = d[0] + (i ? t1 : t0);
    c.bound("laed5.root", fabs_(L - ex), 16 * eps() * (mx + (i ? t1 : t0)));
    F sl = 4 * eps() * mx;
    c.ok("laed5.interlace", i ? L >= d[1] - sl : (L >= d[0] - sl && L <= d[1] + sl), "root %.17Lg", ld(L));
    F v0 = F(dl[0]), v1 = F(dl[1]);
    c.bound("laed5.unit", fabs_(v0 * v0 + v1 * v1 - 1), 20 * eps());
    // (A - x) v = 0 with x = d0 + t known accurately
    F t = i ? t1 : t0, zz = z[0] * v0 + z[1] * v1, sc = del + rho;
    c.bound("laed5.vec", std::max(fabs_(rho * z[0] * zz - t * v0), fabs_(del * v1 + rho * z[1] * zz - t * v1)), 60 * eps() * sc);
}
FAMILY(laed6, 3000, 100000)
{
    auto& g = c.rng;
    bool org = g.coin();
    int kn = g.range(0, 2), sh = g.coin(0.6) ? 0 : g.range(-20, 20), sc = g.coin(0.8) ? 0 : g.range(std::max(EMIN / 2 + 55, -150), EMAX / 8);
    auto mag = [&](int k) { return rr(F(0.05 + g.u01()) * p2(k == 0 ? 0 : -g.range(0, 24)) * p2(sc)); };
    F d[3], z[3];
    int k = g.range(0, 1);
    if (org) {
        d[1] = -mag(k), d[2] = mag(g.range(0, 1));
        d[0] = rr(d[1] - mag(g.range(0, 1)));
        if (!(d[0] < d[1])) d[0] = 2 * d[1];
    }
    else {
        d[0] = -mag(k), d[1] = mag(g.range(0, 1));
        d[2] = rr(d[1] + mag(g.range(0, 1)));
        if (!(d[2] > d[1])) d[2] = 2 * d[1];
    }
    int zk = g.range(0, 3);
    for (int j = 0; j < 3; ++j) z[j] = rr(F(0.05 + g.u01()) * (zk == 0 ? F(1) : zk == 1 ? p2(-g.range(0, 30)) : zk == 2 ? p2(-10 * j) : p2(10 * j - 20)) * p2(sc));
    F rho = rr(F(g.sym()) * p2(sh));
    F fi = rho;
    for (int j = 0; j < 3; ++j) fi += z[j] / d[j];
    c.desc("laed6 kniter=%d orgati=%d rho=%.9Lg d=[%.9Lg,%.9Lg,%.9Lg] z=[%.9Lg,%.9Lg,%.9Lg]", kn, org, ld(rho), ld(d[0]), ld(d[1]), ld(d[2]), ld(z[0]), ld(z[1]), ld(z[2]));
    c.nt();
    std::vector<R> D(3), Zv(3);
    for (int j = 0; j < 3; ++j) D[j] = (R)d[j], Zv[j] = (R)z[j];
    R finit = (R)fi, tau = R(-99);
    auto D0 = D, Z0 = Zv;
    bool org1 = org;
    int r = tl::laed6((size_t)kn, org1, (R)rho, D, Zv, finit, tau);
    c.ok("laed6.const", D == D0 && Zv == Z0 && org1 == org, "input modified");
    if (!c.ok("laed6.ret", r == 0, "return %d", r)) return;
    F t = F(tau), l = d[org ? 1 : 0], u = d[org ? 2 : 1];
    if (!c.ok("laed6.interval", ffinite(t) && t >= l && t <= u && (fi < 0 ? t >= 0 : t <= 0), "root %.17Lg outside its interval", ld(t))) return;
    // residual of f(x) = finit + x * sum z/(d (d-x))
    F x = 0, S = fabs_(rho), df = 0;
    x = F(finit);
    S = fabs_(x);
    for (int j = 0; j < 3; ++j) {
        F q = d[j] - t;
        if (q == 0) { 
            F rest = fabs_(fi);
            for (int l = 0; l < 3; ++l) rest += l == j ? fabs_(z[j] / d[j]) : fabs_(t * z[l] / (d[l] * (d[l] - t)));
            c.ok("laed6.pole", z[j] <= 300 * eps() * fabs_(d[j]) * rest, "root on a pole");   // no representable number is closer
            return;
         }
        x += t * z[j] / (d[j] * q), S += fabs_(t * z[j] / (d[j] * q)), df += z[j] / (q * q);
    }
    c.bound("laed6.eq", fabs_(x), 80 * eps() * (S + fabs_(t) * df));
}
VK_MAIN
