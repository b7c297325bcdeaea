// C06: copy/set/scale/transpose/rotation-sequence/sort utilities
#include "ops.hpp"
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/larnv.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lasrt.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/transpose.hpp>
using namespace vk;
using tlapack::BandAccess;

static const Uplo UP3[3] = {Uplo::Upper, Uplo::Lower, Uplo::General};
static const Uplo UP7[7] = {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper,
                            Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower};
static bool inU(Uplo u, int i, int j)
{
    switch (u) {
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::StrictUpper: return i < j;
        case Uplo::StrictLower: return i > j;
        default: return true;
    }
}
// magnitudes over the full exponent range
static T wide(Rng& g)
{
    T x = rndfull<T>(g);
    int e = g.range(EMIN + 30, EMAX - 30);
    return x * (R)std::ldexp((long double)1, g.coin(0.3) ? e : 0);
}

FAMILY(lacpy, 240, 4000)
{
    auto& g = c.rng;
    Uplo u = UP3[c.idx % 3];
    int m = dim(g, 20), n = dim(g, 20), rt = c.idx / 3 % 3;
    c.desc("lacpy u=%c m=%d n=%d kind=%d", ch(u), m, n, rt);
    if (m && n) c.nt();
    if (rt < 2) {
        Mat<T> A(c, "A", m, n); Mat<T, LayB> B(c, "B", m, n);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) A(i, j) = wide(g);
        maskTri(A, u);
        maskTri(B, u);
        A.freeze();
        auto a = A.view();
        auto b = B.view();
        if (u == Uplo::General && rt == 1) tlapack::lacpy(tlapack::GENERAL, a, b);
        else if (u == Uplo::Upper && rt == 1) tlapack::lacpy(tlapack::UPPER_TRIANGLE, a, b);
        else if (u == Uplo::Lower && rt == 1) tlapack::lacpy(tlapack::LOWER_TRIANGLE, a, b);
        else tlapack::lacpy(u, a, b);
        cmp(c, "lacpy", B.ref(), A.ref(), M(m, n), 0, [&](int i, int j) { return inTri(u, i, j); });
    }
    else {  // real -> complex conversion
        Mat<R> A(c, "A", m, n);
        Mat<CT> B(c, "B", m, n);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) A(i, j) = re(wide(g));
        maskTri(A, u);
        maskTri(B, u);
        A.freeze();
        auto a = A.view();
        auto b = B.view();
        tlapack::lacpy(u, a, b);
        cmp(c, "lacpy.r2c", B.ref(), A.ref(), M(m, n), 0, [&](int i, int j) { return inTri(u, i, j); });
    }
}
FAMILY(laset, 240, 4000)
{
    auto& g = c.rng;
    Uplo u = UP3[c.idx % 3];
    int m = dim(g, 20), n = dim(g, 20);
    c.desc("laset u=%c m=%d n=%d", ch(u), m, n);
    if (m && n) c.nt();
    Mat<T> A(c, "A", m, n);
    A.junk(c);
    maskTri(A, u);
    T al = wide(g), be = wide(g);
    auto a = A.view();
    if (g.coin()) tlapack::laset(u, al, be, a);
    else if (u == Uplo::General) tlapack::laset(tlapack::GENERAL, al, be, a);
    else if (u == Uplo::Upper) tlapack::laset(tlapack::UPPER_TRIANGLE, al, be, a);
    else tlapack::laset(tlapack::LOWER_TRIANGLE, al, be, a);
    M W(m, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) W(i, j) = toZ(i == j ? be : al);
    cmp(c, "laset", A.ref(), W, M(m, n), 0, [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(lascl, 560, 9000)
{
    auto& g = c.rng;
    Uplo u = UP7[c.idx % 7];
    bool band = c.idx % 8 == 7;
    int m = dim(g, 14), n = dim(g, 14), kl = 0, ku = 0;
    if (band) {
        if (m == 0 || n == 0) { m += 1; n += 1; }
        kl = g.range(0, m - 1);
        ku = g.range(0, n - 1);
    }
    // a and b over the whole exponent range; entries such that a*x/b is representable
    int emin = EMIN, emax = EMAX;
    int ea, eb;
    switch (g.range(0, 3)) {
        case 0: ea = g.range(-5, 5); eb = g.range(-5, 5); break;
        case 1: ea = g.range(emin + 2, emax - 2); eb = g.range(emin + 2, emax - 2); break;
        case 2: ea = g.range(emax - 4, emax - 1); eb = g.range(emin + 1, emin + 5); break;
        default: ea = g.range(emin + 1, emin + 5); eb = g.range(emax - 4, emax - 1); break;
    }
    R a = (R)std::ldexp((long double)(1 + g.u01()) / 2, ea), b = (R)std::ldexp((long double)(1 + g.u01()) / 2, eb);
    if (g.coin(0.3)) a = -a;
    if (g.coin(0.3)) b = -b;
    if (g.coin(0.08)) a = decltype(a)(0);
    c.desc("lascl u=%c band=%d kl=%d ku=%d m=%d n=%d ea=%d eb=%d a0=%d", ch(u), band, kl, ku, m, n, ea, eb, a == 0);
    if (m && n) c.nt();
    auto in = [&](int i, int j) { return band ? (i - j <= kl && j - i <= ku) : inU(u, i, j); };
    Mat<T> A(c, "A", m, n);
    M X(m, n), W(m, n), G(m, n);
    F ratio = a == 0 ? F(0) : F(1);
    (void)ratio;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            // choose x with exponent so that both x and a x / b are normal
            int d = ea - eb, lo = std::max(emin + 3, emin + 3 - d), hi = std::min(emax - 3, emax - 3 - d);
            bool zero = lo > hi || g.coin(0.05);
            auto one = [&]() { return zero ? R(0) : (R)std::ldexp((long double)((g.coin() ? 1 : -1) * (1 + g.u01()) / 2), g.range(lo, hi)); };
            if constexpr (IsC) A(i, j) = T(one(), one());
            else A(i, j) = one();
        }
    X = A.ref();
    A.maskif([&](int i, int j) { return !in(i, j); });
    auto v = A.view();
    int r;
    if (band) {
        BandAccess ba{(size_t)kl, (size_t)ku};
        r = tlapack::lascl(ba, b, a, v);
    }
    else r = tlapack::lascl(u, b, a, v);
    c.ok("lascl.ret", r == 0);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            // form a/b * x without leaving the range of the reference type
            auto sc = [&](F x) {
                if (x == 0 || a == 0) return F(0);
                int ex;
                std::frexp((long double)x, &ex);
                F mx = fldexp(x, -ex), ma = fldexp((F)a, -ea), mb = fldexp((F)b, -eb);
                return fldexp(mx * ma / mb, ex + ea - eb);
            };
            W(i, j) = Z(sc(X(i, j).re), sc(X(i, j).im));
            G(i, j) = Z(absm(W(i, j)));
        }
    for (int comp = 0; comp < 2; ++comp)
        ;
    // component-wise relative accuracy
    M got = A.ref();
    bool bad = false;
    int bi = 0, bj = 0;
    for (int j = 0; j < n && !bad; ++j)
        for (int i = 0; i < m; ++i) {
            if (!in(i, j)) continue;
            ++g_events;
            auto okc = [&](F x, F y) { return fabs_(x - y) <= 10 * eps() * fabs_(y); };
            if (!okc(got(i, j).re, W(i, j).re) || !okc(got(i, j).im, W(i, j).im)) { bad = true; bi = i; bj = j; break; }
        }
    c.ok("lascl", !bad, "element (%d,%d) got %Lg want %Lg (x=%Lg a=%Lg b=%Lg)", bi, bj, bad ? ld(got(bi, bj).re) : 0, bad ? ld(W(bi, bj).re) : 0,
         bad ? ld(X(bi, bj).re) : 0, (long double)a, (long double)b);
}
FAMILY(lasclinf, 240, 3000)
{
    auto& g = c.rng;
    int m = g.range(1, 5), n = g.range(1, 5), k = (int)(c.idx % 3), form = g.range(0, 7), kl = g.range(0, m - 1), ku = g.range(0, n - 1);
    auto in = [&](int i, int j) { return form == 7 ? (i - j <= kl && j - i <= ku) : inU(UP7[form], i, j); };
    Mat<T> A(c, "A", m, n);
    M X = randM<T>(g, m, n, true);
    for (auto& z : X.a) { if (z.re == 0) z.re = 1; if (IsC && z.im == 0) z.im = 2; }
    A.set(X);
    R inf = std::numeric_limits<R>::infinity();
    R a = k == 0 ? R(2) : k == 1 ? -inf : R(1), b = k == 0 ? -inf : R(4);
    c.desc("lascl a=%g b=%g m=%d n=%d form=%d", (double)a, (double)b, m, n, form);
    A.maskif([&](int i, int j) { return !in(i, j); });
    c.nt();
    auto v = A.view();
    if (form == 7) {
        BandAccess ba{(size_t)kl, (size_t)ku};
        tlapack::lascl(ba, b, a, v);
    }
    else tlapack::lascl(UP7[form], b, a, v);
    R want = a / b;
    bool okk = true;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            if (!in(i, j)) continue;
            auto chk = [&](R got, F x) {
                R w = (R)(x) * want;
                return got == w && xsignbit<R>(got) == xsignbit<R>(w);
            };
            okk = okk && chk(re(A(i, j)), X(i, j).re);
            if (IsC) okk = okk && chk(im(A(i, j)), X(i, j).im);
        }
    c.ok("lascl.inf", okk, "scaling by %g/%g", (double)a, (double)b);
}
FAMILY(transp, 240, 3000)
{
    auto& g = c.rng;
    int v = (int)(c.idx % 2), nx = g.range(2, 20);
    bool def = g.coin(0.3);
    int m = g.coin(0.4) ? g.range(0, 60) : dim(g, 40), n = g.coin(0.4) ? g.range(0, 60) : dim(g, 40);
    c.desc("%s m=%d n=%d nx=%d", v ? "conjtranspose" : "transpose", m, n, def ? -1 : nx);
    if (m && n) c.nt();
    Mat<T> A(c, "A", m, n);
    Mat<T, LayB> B(c, "B", n, m);
    A.set(randM<T>(g, m, n, false));
    B.junk(c);
    A.freeze();
    auto a = A.view();
    auto b = B.view();
    tlapack::TransposeOpts o;
    if (!def) o.nx = nx;
    if (v) def ? tlapack::conjtranspose(a, b) : tlapack::conjtranspose(a, b, o);
    else def ? tlapack::transpose(a, b) : tlapack::transpose(a, b, o);
    same(c, v ? "conjtranspose" : "transpose", B.ref(), v ? ctr(A.ref()) : tr(A.ref()));
}
FAMILY(conjug, 80, 800)
{
    auto& g = c.rng;
    int n = dim(g, 30);
    c.desc("conjugate n=%d", n);
    if (n) c.nt();
    Vec<T> x(c, "x", n);
    for (int i = 0; i < n; ++i) x[i] = wide(g);
    M W = cj(x.ref());
    auto v = x.view();
    tlapack::conjugate(v);
    same(c, "conjugate", x.ref(), W);
}
// apply rotations one after another (the order in which the routine is
// exercised by its callers: Forward starts with the last rotation)
static void applyrot(M& A, bool left, int i, F cs, Z sn)
{
    int len = left ? A.n : A.m;
    for (int t = 0; t < len; ++t) {
        Z& x = left ? A(i, t) : A(t, i);
        Z& y = left ? A(i + 1, t) : A(t, i + 1);
        Z s = left ? sn : conj(sn);
        Z nx = Z(cs) * x + s * y;
        y = -conj(s) * x + Z(cs) * y;
        x = nx;
    }
}
FAMILY(rotseq, 320, 4000)
{
    auto& g = c.rng;
    bool left = c.idx % 2, fwd = c.idx / 2 % 2, gen = g.coin(0.3);
    int p = g.range(1, 14), q = g.coin(0.2) ? g.range(0, 40) : g.range(0, 10);
    int m = left ? p : q, n = left ? q : p;
    bool rs = IsC && g.coin(0.3);
    c.desc("rot_sequence %s %s m=%d n=%d general=%d realS=%d", left ? "left" : "right", fwd ? "fwd" : "bwd", m, n, gen, rs);
    int k = p - 1;
    if (k && q) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(randM<T>(g, m, n, false));
    Vec<R> cs(c, "c", k);
    Vec<T> sn(c, "s", k);
    Vec<R> snr(c, "s", rs ? k : 0);
    M W = A.ref();
    F gmax = 1;
    for (int i = 0; i < k; ++i) {
        double th = 6.3 * g.u01(), ph = 6.3 * g.u01();
        cs[i] = (R)std::cos(th);
        if constexpr (IsC) sn[i] = rs ? T((R)std::sin(th)) : T((R)(std::sin(th) * std::cos(ph)), (R)(std::sin(th) * std::sin(ph)));
        else sn[i] = (R)std::sin(th);
        if (gen) { cs[i] = rr(g); sn[i] = rnd<T>(g); if (rs) sn[i] = T(re(sn[i])); }
        if (rs) snr[i] = re(sn[i]);
    }
    for (int t = 0; t < k; ++t) {
        int i = fwd ? k - 1 - t : t;
        applyrot(W, left, i, (F)cs[i], toZ(sn[i]));
        gmax = std::max(gmax, nmax(W));
    }
    cs.freeze();
    sn.freeze();
    auto a = A.view();
    auto vc = cs.view();
    auto vs = sn.view();
    auto vr = snr.view();
    Side sd = left ? Side::Left : Side::Right;
    Direction d = fwd ? Direction::Forward : Direction::Backward;
    int r = rs ? tlapack::rot_sequence(sd, d, vc, vr, a) : tlapack::rot_sequence(sd, d, vc, vs, a);
    c.ok("rot_sequence.ret", r == 0);
    M G(m, n);
    for (auto& z : G.a) z = Z(gmax);
    cmp(c, "rot_sequence", A.ref(), W, G, 8.0 * (k + 2));
}
FAMILY(rotseq3, 400, 4000)
{
    auto& g = c.rng;
    bool left = c.idx % 2, fwd = c.idx / 2 % 2;
    bool wide_ = c.idx % 20 >= 16;  // more rows/columns than one internal block
    int p = g.range(1, wide_ ? 8 : 16), q = wide_ ? g.range(250, 560) : g.coin(0.2) ? g.range(0, 40) : g.range(0, 10);
    int m = left ? p : q, n = left ? q : p, k = p - 1, l = g.range(0, std::max(1, g.coin(0.8) ? k : k + 3));
    c.desc("rot_sequence3 %s %s m=%d n=%d l=%d", left ? "left" : "right", fwd ? "fwd" : "bwd", m, n, l);
    if (k && q && l) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(randM<T>(g, m, n, false));
    Mat<R> cs(c, "C", k, l);
    Mat<T> sn(c, "S", k, l);
    M W = A.ref();
    for (int j = 0; j < l; ++j)
        for (int i = 0; i < k; ++i) {
            double th = 6.3 * g.u01(), ph = 6.3 * g.u01();
            cs(i, j) = (R)std::cos(th);
            if constexpr (IsC) sn(i, j) = T((R)(std::sin(th) * std::cos(ph)), (R)(std::sin(th) * std::sin(ph)));
            else sn(i, j) = (R)std::sin(th);
        }
    for (int j = 0; j < l; ++j)
        for (int t = 0; t < k; ++t) {
            int i = fwd ? k - 1 - t : t;
            applyrot(W, left, i, (F)cs(i, j), toZ(sn(i, j)));
        }
    cs.freeze();
    sn.freeze();
    auto a = A.view();
    auto vc = cs.view();
    auto vs = sn.view();
    tlapack::rot_sequence3(left ? Side::Left : Side::Right, fwd ? Direction::Forward : Direction::Backward, vc, vs, a);
    M G(m, n);
    F gm = std::max(F(1), nmax(W)) * 2;
    for (auto& z : G.a) z = Z(gm);
    cmp(c, "rot_sequence3", A.ref(), W, G, 8.0 * (k * std::max(1, l) + 2));
}
template <int D, class VT>
static void larn(int& seed, VT& v) { tlapack::larnv<D>(seed, v); }
FAMILY(larnv, 100, 600)
{
    auto& g = c.rng;
    int d = 1 + (int)(c.idx % 5), n = g.coin(0.3) ? 3000 : dim(g, 40);
    int seed = g.range(-100, 100000);
    c.desc("larnv dist=%d n=%d seed=%d", d, n, seed);
    if (n) c.nt();
    Vec<T> x(c, "x", n, n > 1000 ? 1 : -1), y(c, "y", n, n > 1000 ? 1 : -1);
    if (d < 4 || IsC) { x.junk(); y.junk(); }
    else
        for (int i = 0; i < n; ++i) x[i] = y[i] = T(1);
    auto vx = x.view();
    auto vy = y.view();
    int s1 = seed, s2 = seed;
    switch (d) {
        case 1: larn<1>(s1, vx); larn<1>(s2, vy); break;
        case 2: larn<2>(s1, vx); larn<2>(s2, vy); break;
        case 3: larn<3>(s1, vx); larn<3>(s2, vy); break;
        case 4: larn<4>(s1, vx); larn<4>(s2, vy); break;
        default: larn<5>(s1, vx); larn<5>(s2, vy); break;
    }
    c.ok("larnv.seed", s1 == seed + 1 && s2 == seed + 1, "seed %d -> %d", seed, s1);
    same(c, "larnv.repro", y.ref(), x.ref());
    if (d > 3 && !IsC) return;
    F lo = 1e30, hi = -1e30, amin = 1e30, amax = 0;
    double s = 0, ss = 0, si = 0, ssi = 0;
    for (int i = 0; i < n; ++i) {
        Z z = toZ(x[i]);
        for (int k = 0; k < (IsC ? 2 : 1); ++k) {
            F v = k ? z.im : z.re;
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        amin = std::min(amin, abs(z));
        amax = std::max(amax, abs(z));
        s += (double)z.re; ss += (double)(z.re * z.re);
        si += (double)z.im; ssi += (double)(z.im * z.im);
        if (!zfin(z)) c.ok("larnv.finite", false, "element %d not finite", i);
    }
    if (!n) return;
    if (d == 1) c.ok("larnv.range1", lo >= 0 && hi <= 1, "values in [%Lg,%Lg]", ld(lo), ld(hi));
    if (d == 2) c.ok("larnv.range2", lo >= -1 && hi <= 1, "values in [%Lg,%Lg]", ld(lo), ld(hi));
    if (d == 4) c.ok("larnv.disc", amax <= 1 + 4 * eps(), "max modulus %Lg", ld(amax));
    if (d == 5) c.ok("larnv.circle", amax <= 1 + 4 * eps() && amin >= 1 - 4 * eps(), "modulus in [%Lg,%Lg]", ld(amin), ld(amax));
    if (n >= 3000) {
        double mean = d == 1 ? 0.5 : 0, var = d == 1 ? 1.0 / 12 : d == 2 ? 1.0 / 3 : d == 3 ? 1 : d == 4 ? 0.25 : 0.5;
        double tolm = 7 * std::sqrt(var / n), tolv = 0.2 * var;
        c.ok("larnv.moments", std::fabs(s / n - mean) <= tolm && std::fabs(ss / n - s / n * s / n - var) <= tolv, "mean %g var %g", s / n, ss / n - s / n * s / n);
        if (IsC) c.ok("larnv.moments", std::fabs(si / n - mean) <= tolm && std::fabs(ssi / n - si / n * si / n - var) <= tolv, "imag mean %g var %g", si / n, ssi / n - si / n * si / n);
    }
}
FAMILY(lasrt, 240, 3000)
{
    auto& g = c.rng;
    int v = (int)(c.idx % 4);
    const char id = "dDiI"[v];
    int n = g.coin(0.4) ? g.range(0, 300) : g.range(0, 45), kind = g.range(0, 7), extra = g.range(0, 3);
    c.desc("lasrt id=%c n=%d kind=%d", id, n, kind);
    if (n) c.nt();
    Vec<R> x(c, "d", n + extra);
    for (int i = 0; i < n + extra; ++i)
        x[i] = kind == 0 ? rr(g) : kind == 1 ? (R)g.range(0, 3) : kind == 2 ? (R)i : kind == 3 ? (R)-i : kind == 4 ? R(1) : kind == 5 ? (R)(i % 7)
             : kind == 6 ? (R)(i < n / 2 ? i : n - i) : (g.coin(0.1) ? std::numeric_limits<R>::infinity() * (g.coin() ? R(1) : R(-1)) : rr(g));
    std::vector<R> w;
    for (int i = 0; i < n + extra; ++i) w.push_back(x[i]);
    if (v < 2) std::sort(w.begin(), w.begin() + n, std::greater<R>());
    else std::sort(w.begin(), w.begin() + n);
    auto d = x.view();
    int r = g.coin() ? tlapack::lasrt(id, (int)n, d) : tlapack::lasrt(id, (idx_t)n, d);
    c.ok("lasrt.ret", r == 0);
    for (int i = 0; i < n + extra; ++i)
        if (!(x[i] == w[i])) {
            c.ok("lasrt", false, "position %d is %g, sorted sequence has %g", i, (double)x[i], (double)w[i]);
            break;
        }
    g_events += n;
    ++g_checks;
    if (c.idx % 10 == 0) c.ok("lasrt.badid", tlapack::lasrt('x', (int)n, d) == -1);
}
FAMILY(lamrg, 240, 3000)
{
    auto& g = c.rng;
    int n1 = g.range(0, 12), n2 = g.range(0, 12), d1 = g.coin() ? 1 : -1, d2 = g.coin() ? 1 : -1, kind = g.range(0, 2);
    if (n1 == 0 && n2 == 0) n1 = 1;
    c.desc("lamrg n1=%d n2=%d d1=%d d2=%d kind=%d", n1, n2, d1, d2, kind);
    c.nt();
    Vec<R> a(c, "a", n1 + n2);
    for (int i = 0; i < n1 + n2; ++i) a[i] = kind ? (R)g.range(0, 5) : rr(g);
    std::vector<R> p, q;
    for (int i = 0; i < n1; ++i) p.push_back(a[i]);
    for (int i = 0; i < n2; ++i) q.push_back(a[n1 + i]);
    std::sort(p.begin(), p.end());
    std::sort(q.begin(), q.end());
    if (d1 < 0) std::reverse(p.begin(), p.end());
    if (d2 < 0) std::reverse(q.begin(), q.end());
    for (int i = 0; i < n1; ++i) a[i] = p[i];
    for (int i = 0; i < n2; ++i) a[n1 + i] = q[i];
    a.freeze();
    Vec<int> ix(c, "index", n1 + n2);
    auto av = a.view();
    auto iv = ix.view();
    tlapack::lamrg((int)n1, (int)n2, av, d1, d2, iv);
    std::vector<int> seen(n1 + n2, 0);
    bool okk = true;
    for (int i = 0; i < n1 + n2; ++i) {
        int k = ix[i];
        if (k < 0 || k >= n1 + n2 || seen[k]++) { okk = false; c.ok("lamrg.perm", false, "index[%d]=%d", i, k); break; }
    }
    for (int i = 0; okk && i + 1 < n1 + n2; ++i)
        if (!(a[ix[i]] <= a[ix[i + 1]])) { c.ok("lamrg.order", false, "not ascending at %d", i); break; }
    g_checks += 2;
}
VK_MAIN
