#include "ops.hpp"
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
using namespace vk;

// A vector operand with one of several view kinds over guarded memory:
// 0 strided, 1 contiguous, 2 backward strided, 3 matrix row/column/diagonal
template <class S>
struct Opd {
    Case& c;
    int kind, n;
    std::unique_ptr<Vec<S>> v;
    std::unique_ptr<Mat<S>> mt;
    std::unique_ptr<std::vector<S>> sv;
    int which = 0;
    Opd(Case& c, const char* nm, int n, int kind) : c(c), kind(kind), n(n)
    {
        if (kind == 3) {
            which = c.rng.range(0, 2);
            int o = c.rng.range(1, 3);
            if (which == 0) mt.reset(new Mat<S>(c, nm, std::max(n, 1), o));
            else if (which == 1) mt.reset(new Mat<S>(c, nm, o, std::max(n, 1)));
            else mt.reset(new Mat<S>(c, nm, std::max(n, 1), std::max(n, 1)));
            mt->maskif([&](int i, int j) { return !(which == 0 ? j == o - 1 : which == 1 ? i == o - 1 : i == j); });
            if (n == 0) mt->maskif([](int, int) { return true; });
        }
        else
            v.reset(new Vec<S>(c, nm, n, kind == 1 ? 1 : -1));
    }
    S& at(int i)
    {
        if (kind == 3)
            return which == 0 ? (*mt)(i, mt->n - 1) : which == 1 ? (*mt)(mt->m - 1, i) : (*mt)(i, i);
        return (*v)[kind == 2 ? n - 1 - i : i];
    }
    M ref()
    {
        M a(n, 1);
        for (int i = 0; i < n; ++i) a(i, 0) = toZ(at(i));
        return a;
    }
    void fillr(Rng& g, bool ints)
    {
        for (int i = 0; i < n; ++i) at(i) = ints ? smallint<S>(g, 4) : rndfull<S>(g);
    }
    void freeze()
    {
        if (v) v->freeze();
        else mt->freeze();
    }
    template <class Fn>
    void with(Fn f)
    {
        if (kind == 0) {
            auto x = v->view();
            f(x);
        }
        else if (kind == 1) {
            auto x = v->cview();
            f(x);
        }
        else if (kind == 2) {
            tlapack::LegacyVector<S, idx_t, idx_t, Direction::Backward> x(n, v->p, v->inc);
            f(x);
        }
        else if (n == 0) {
            auto x = v ? v->view() : Vec<S>(c, "e", 0).view();
            f(x);
        }
        else {
            auto A = mt->view();
            if (which == 0) {
                auto x = tlapack::slice(A, std::pair<idx_t, idx_t>{0, (idx_t)n}, mt->n - 1);
                f(x);
            }
            else if (which == 1) {
                auto x = tlapack::slice(A, mt->m - 1, std::pair<idx_t, idx_t>{0, (idx_t)n});
                f(x);
            }
            else {
                auto x = tlapack::diag(A);
                f(x);
            }
        }
    }
};
static int ln(Case& c) { return c.rng.coin(0.1) ? c.rng.range(0, 1) : c.rng.coin(0.1) ? c.rng.range(30, 120) : c.rng.range(1, 20); }
static double th(int n) { return 2.0 * (n + 6); }

FAMILY(asum, 200, 3000)
{
    auto& g = c.rng;
    int n = ln(c), k = (int)(c.idx % 4);
    bool ints = kExactInts && g.coin();
    c.desc("asum n=%d kind=%d ints=%d", n, k, ints);
    if (n) c.nt();
    Opd<T> x(c, "x", n, k);
    x.fillr(g, ints);
    x.freeze();
    F want = 0;
    for (int i = 0; i < n; ++i) want += fabs_(toZ(x.at(i)).re) + fabs_(toZ(x.at(i)).im);
    F got = 0;
    x.with([&](auto& v) { got = (F)tlapack::asum(v); });
    c.small("asum", fabs_(got - want), want, ints ? 0 : th(n));
}
FAMILY(nrm2, 400, 6000)
{
    auto& g = c.rng;
    int n = ln(c), k = (int)(c.idx % 4);
    int mode = g.range(0, 3);
    c.desc("nrm2 n=%d kind=%d mode=%d", n, k, mode);
    if (n) c.nt();
    Opd<T> x(c, "x", n, k);
    x.fillr(g, false);
    int e0 = EMIN, e1 = EMAX - 8;
    int base = g.range(e0, e1);
    for (int i = 0; i < n && mode; ++i) {
        int e = mode == 1 ? g.range(e0, e1) : mode == 2 ? base : std::min(e1, std::max(e0, base + g.range(-40, 0)));
        R f = xldexp<R>(R(1), e);
        x.at(i) = x.at(i) * f;
        if (g.coin(0.1)) x.at(i) = T(0);
    }
    x.freeze();
    F want = nrm(x.ref()), got = 0;
    x.with([&](auto& v) { got = (F)tlapack::nrm2(v); });
    c.bound("nrm2", fabs_(got - want), want * eps() * F(th(n) + 4) + rmin() * eps() * 4);
}
FAMILY(axpy, 300, 4000)
{
    auto& g = c.rng;
    int n = ln(c), kx = (int)(c.idx % 4), ky = (int)(c.idx / 4 % 4);
    int ex = g.coin(0.3) ? g.range(1, 3) : 0;  // y may be longer
    bool ints = kExactInts && g.coin(), ra = g.coin(0.3), rx = g.coin(0.2);
    T alpha = coef<T>(g, ints);
    if (ra) alpha = T(re(alpha));
    c.desc("axpy n=%d kx=%d ky=%d extra=%d ints=%d ra=%d rx=%d", n, kx, ky, ex, ints, ra, rx);
    if (n) c.nt();
    Opd<T> y(c, "y", n + ex, ky);
    y.fillr(g, ints);
    M Y = y.ref();
    auto run = [&](auto& x) {
        x.fillr(g, ints);
        x.freeze();
        M X = x.ref();
        x.with([&](auto& xv) {
            y.with([&](auto& yv) {
                if (ra) tlapack::axpy(re(alpha), xv, yv);
                else tlapack::axpy(alpha, xv, yv);
            });
        });
        M W = Y, G(n + ex, 1);
        for (int i = 0; i < n; ++i) {
            W(i, 0) += toZ(alpha) * X(i, 0);
            G(i, 0) = Z(abs(toZ(alpha)) * abs(X(i, 0)) + abs(Y(i, 0)));
        }
        cmp(c, "axpy", y.ref(), W, G, ints ? 0 : 8);
    };
    if (rx) { Opd<R> x(c, "x", n, kx); run(x); }
    else { Opd<T> x(c, "x", n, kx); run(x); }
}
FAMILY(copyswap, 300, 4000)
{
    auto& g = c.rng;
    int n = ln(c), kx = (int)(c.idx % 4), ky = (int)(c.idx / 4 % 4);
    bool sw = c.idx / 16 % 2, rx = !sw && g.coin(0.2);
    int ex = !sw && g.coin(0.3) ? g.range(1, 3) : 0;
    c.desc("%s n=%d kx=%d ky=%d extra=%d rx=%d", sw ? "swap" : "copy", n, kx, ky, ex, rx);
    if (n) c.nt();
    Opd<T> y(c, "y", n + ex, ky);
    y.fillr(g, false);
    M Y = y.ref();
    auto run = [&](auto& x) {
        x.fillr(g, false);
        M X = x.ref();
        if (!sw) x.freeze();
        x.with([&](auto& xv) {
            y.with([&](auto& yv) {
                if constexpr (std::is_same_v<std::decay_t<decltype(x.at(0))>, T>)
                    if (sw) return (void)tlapack::swap(xv, yv);
                if (sw) return;
                tlapack::copy(xv, yv);
            });
        });
        M W = Y;
        for (int i = 0; i < n; ++i) W(i, 0) = X(i, 0);
        same(c, sw ? "swap.y" : "copy.y", y.ref(), W);
        if (sw) same(c, "swap.x", x.ref(), Y);
    };
    if (rx) { Opd<R> x(c, "x", n, kx); run(x); }
    else { Opd<T> x(c, "x", n, kx); run(x); }
}
FAMILY(dot, 400, 6000)
{
    auto& g = c.rng;
    int n = ln(c), kx = (int)(c.idx % 4), ky = (int)(c.idx / 4 % 4);
    bool u = c.idx / 16 % 2, ints = g.coin();
    int mixed = g.coin(0.3) ? g.range(1, 2) : 0;
    c.desc("%s n=%d kx=%d ky=%d ints=%d mixed=%d", u ? "dotu" : "dot", n, kx, ky, ints, mixed);
    if (n) c.nt();
    auto run = [&](auto& x, auto& y) {
        x.fillr(g, ints);
        y.fillr(g, ints);
        x.freeze();
        y.freeze();
        M X = x.ref(), Y = y.ref();
        Z w, got;
        F mag = 0;
        for (int i = 0; i < n; ++i) {
            w += (u ? X(i, 0) : conj(X(i, 0))) * Y(i, 0);
            mag += abs(X(i, 0)) * abs(Y(i, 0));
        }
        x.with([&](auto& xv) {
            y.with([&](auto& yv) {
                if (u) got = toZ(tlapack::dotu(xv, yv));
                else got = toZ(tlapack::dot(xv, yv));
            });
        });
        c.small(u ? "dotu" : "dot", absm(got - w), mag, ints ? 0 : th(n));
    };
    if (mixed == 1) { Opd<R> x(c, "x", n, kx); Opd<T> y(c, "y", n, ky); run(x, y); }
    else if (mixed == 2) { Opd<T> x(c, "x", n, kx); Opd<R> y(c, "y", n, ky); run(x, y); }
    else { Opd<T> x(c, "x", n, kx); Opd<T> y(c, "y", n, ky); run(x, y); }
}
FAMILY(scal, 200, 3000)
{
    auto& g = c.rng;
    int n = ln(c), k = (int)(c.idx % 4);
    bool ints = g.coin(), ra = g.coin(0.3);
    T alpha = coef<T>(g, ints);
    if (ra) alpha = T(re(alpha));
    c.desc("scal n=%d kind=%d ints=%d ra=%d", n, k, ints, ra);
    if (n) c.nt();
    Opd<T> x(c, "x", n, k);
    x.fillr(g, ints);
    M X = x.ref(), G = scale(abs(toZ(alpha)), absM(X));
    x.with([&](auto& v) {
        if (ra) tlapack::scal(re(alpha), v);
        else tlapack::scal(alpha, v);
    });
    cmp(c, "scal", x.ref(), scale(toZ(alpha), X), G, ints ? 0 : 6);
}
FAMILY(rot, 400, 5000)
{
    auto& g = c.rng;
    int n = ln(c), kx = (int)(c.idx % 4), ky = (int)(c.idx / 4 % 4);
    bool ints = g.coin(), rs = g.coin(0.4);
    int sp = g.range(0, 7);
    R cs;
    T sn = rndfull<T>(g);
    if (rs) sn = T(re(sn));
    if (ints) { cs = R(g.range(-2, 2)); sn = smallint<T>(g, 2); if (rs) sn = T(re(sn)); }
    else if (sp == 0) { cs = R(1); sn = T(0); }
    else if (sp == 1) { cs = R(0); sn = T(1); }
    else if (sp == 2) { cs = R(-1); sn = T(0); }
    else if (sp == 3) { cs = R(1); }
    else cs = rndfull<R>(g);
    c.desc("rot n=%d kx=%d ky=%d ints=%d rs=%d sp=%d", n, kx, ky, ints, rs, sp);
    if (n) c.nt();
    Opd<T> x(c, "x", n, kx), y(c, "y", n, ky);
    x.fillr(g, ints);
    y.fillr(g, ints);
    M X = x.ref(), Y = y.ref();
    x.with([&](auto& xv) {
        y.with([&](auto& yv) {
            if (rs) tlapack::rot(xv, yv, cs, re(sn));
            else tlapack::rot(xv, yv, cs, sn);
        });
    });
    Z s = toZ(sn), cz = toZ(cs);
    M WX = scale(cz, X) + scale(s, Y), WY = scale(cz, Y) - scale(conj(s), X);
    M G = scale(abs(cz) + abs(s), absM(X) + absM(Y));
    cmp(c, "rot.x", x.ref(), WX, G, ints ? 0 : 6);
    cmp(c, "rot.y", y.ref(), WY, G, ints ? 0 : 6);
}
FAMILY(rotm, 320, 4000)
{
    if constexpr (!IsC) {
        auto& g = c.rng;
        int n = ln(c), kx = (int)(c.idx % 4), ky = (int)(c.idx / 4 % 4), flag = (int)(c.idx / 16 % 4) - 2;
        bool ints = g.coin();
        T h[4];
        for (auto& v : h) v = ints ? smallint<T>(g, 3) : rndfull<T>(g);
        // entries the flag makes implicit must not be used
        T hh[4] = {h[0], h[1], h[2], h[3]};
        if (flag == 0) { canary_fill(&h[0], 0, 3); canary_fill(&h[3], 3, 3); hh[0] = hh[3] = T(1); }
        if (flag == 1) { canary_fill(&h[1], 1, 3); canary_fill(&h[2], 2, 3); hh[2] = T(1); hh[1] = T(-1); }
        if (flag == -2) { for (int i = 0; i < 4; ++i) canary_fill(&h[i], i, 3); hh[0] = hh[3] = T(1); hh[1] = hh[2] = T(0); }
        c.desc("rotm flag=%d n=%d kx=%d ky=%d ints=%d", flag, n, kx, ky, ints);
        if (n) c.nt();
        Opd<T> x(c, "x", n, kx), y(c, "y", n, ky);
        x.fillr(g, ints);
        y.fillr(g, ints);
        M X = x.ref(), Y = y.ref();
        x.with([&](auto& xv) {
            y.with([&](auto& yv) {
                if (flag == -2) tlapack::rotm<-2>(xv, yv, h);
                else if (flag == -1) tlapack::rotm<-1>(xv, yv, h);
                else if (flag == 0) tlapack::rotm<0>(xv, yv, h);
                else tlapack::rotm<1>(xv, yv, h);
            });
        });
        M WX = scale(toZ(hh[0]), X) + scale(toZ(hh[2]), Y), WY = scale(toZ(hh[1]), X) + scale(toZ(hh[3]), Y);
        M G = scale(Z(4), absM(X) + absM(Y));
        cmp(c, "rotm.x", x.ref(), WX, G, ints ? 0 : 4);
        cmp(c, "rotm.y", y.ref(), WY, G, ints ? 0 : 4);
    }
}
FAMILY(iamax, 400, 4000)
{
    auto& g = c.rng;
    int n = ln(c), k = (int)(c.idx % 4);
    bool ints = g.coin(0.7);
    c.desc("iamax n=%d kind=%d ints=%d", n, k, ints);
    if (n > 1) c.nt();
    Opd<T> x(c, "x", n, k);
    x.fillr(g, ints);
    x.freeze();
    // library default for complex entries is abs1 (|Re| + |Im|)
    auto mg = [&](int i) { Z z = toZ(x.at(i)); return fabs_(z.re) + fabs_(z.im); };
    int want = 0;
    for (int i = 1; i < n; ++i)
        if (mg(i) > mg(want)) want = i;
    x.with([&](auto& v) {
        int a = (int)tlapack::iamax(v);
        bool okk = a == want;
        // rounding of |Re|+|Im| may create ties for non-integer complex data
        if (!okk && IsC && !ints && n > 0 && a < n && a >= 0) okk = mg(a) >= mg(want) * (1 - 2 * eps());
        c.ok("iamax", okk, "got %d want %d", a, want);
        int b = (int)tlapack::iamax_nc(v, [](const T& t) { return tlapack::abs1(t); });
        okk = b == want;
        if (!okk && IsC && !ints && n > 0 && b < n && b >= 0) okk = mg(b) >= mg(want) * (1 - 2 * eps());
        c.ok("iamax_nc", okk, "got %d want %d", b, want);
    });
    ++g_events;
}
// contiguous std::vector operands
FAMILY(stdvec, 60, 600)
{
    auto& g = c.rng;
    int n = g.range(0, 20);
    c.desc("std::vector n=%d", n);
    if (n) c.nt();
    std::vector<T> x(n), y(n);
    M X(n, 1), Y(n, 1);
    for (int i = 0; i < n; ++i) {
        x[i] = smallint<T>(g);
        y[i] = smallint<T>(g);
        X(i, 0) = toZ(x[i]);
        Y(i, 0) = toZ(y[i]);
    }
    auto rf = [](const std::vector<T>& v) { M a((int)v.size(), 1); for (size_t i = 0; i < v.size(); ++i) a.a[i] = toZ(v[i]); return a; };
    Z d = toZ(tlapack::dot(x, y)), w;
    for (int i = 0; i < n; ++i) w += conj(X(i, 0)) * Y(i, 0);
    c.ok("sv.dot", absm(d - w) == 0);
    tlapack::axpy(T(2), x, y);
    same(c, "sv.axpy", rf(y), Y + scale(Z(2), X));
    tlapack::scal(T(3), y);
    same(c, "sv.scal", rf(y), scale(Z(3), Y + scale(Z(2), X)));
    tlapack::copy(x, y);
    same(c, "sv.copy", rf(y), X);
}
VK_MAIN
