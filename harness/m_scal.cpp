// C02: scalar generators and safe scaling over the full exponent range
#include "ops.hpp"
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/lascl.hpp>
using namespace vk;
using LD = long double;

static const int E0 = EMIN - 1, E1 = EMAX - 1;
// real number with a chosen style of magnitude; lo/hi bound the exponent
static R wild(Rng& g, int lo, int hi, int style, int center)
{
    int e;
    switch (style) {
        case 0: e = g.range(lo, hi); break;
        case 1: e = center + g.range(-3, 3); break;
        case 2: e = center + g.range(-60, 60); break;
        case 3: e = g.coin() ? g.range(lo, std::min(hi, lo + 4)) : g.range(std::max(lo, hi - 4), hi); break;
        default: e = g.range(-3, 3);
    }
    e = std::min(hi, std::max(lo, e));
    if (g.coin(0.06)) return R(0);
    R m = g.coin(0.2) ? R(1) : (R)(1 + g.u01() * 0.999);
    return xldexp<R>(g.coin() ? m : -m, e);
}
template <class T>
static T wild_(Rng& g, int lo, int hi, int style, int center)
{
    if constexpr (IsC) {
        R a = wild(g, lo, hi, style, center), b = wild(g, lo, hi, style, center);
        return T(a, b);
    }
    else
        return wild(g, lo, hi, style, center);
}
static T wildT(Rng& g, int lo, int hi, int style, int center) { return wild_<T>(g, lo, hi, style, center); }
static int cent(Rng& g) { return g.range(E0, E1); }
// exact scaling of reference numbers by powers of two
static F sc(F x, int e)
{
    if (x == 0) return x;
    // stepwise to stay in range for wide exponents
    while (e > 0) { int k = std::min(e, 1000); x *= (F)std::ldexp(1.0, k); e -= k; }
    while (e < 0) { int k = std::min(-e, 1000); x *= (F)std::ldexp(1.0, -k); e += k; }
    return x;
}
static int expo(F x) { int e = 0; if (x == 0) return -20000; std::frexp((LD)fabs_(x), &e); return e; }
static Z scz(Z z, int e) { return {sc(z.re, e), sc(z.im, e)}; }

// c real, s, r with [c s; -conj(s) c][a;b] = [r;0]
static void judge_rot(Case& c, const char* nm, Z a, Z b, F cs, Z s, Z r, bool haveExpect)
{
    int e = -std::max(expo(absm(a)), expo(absm(b)));
    Z as = scz(a, e), bs = scz(b, e), rs = scz(r, e);
    F n = vsqrt(abs2(as) + abs2(bs));
    std::string k = nm;
    c.small((k + ".unitary").c_str(), fabs_(cs * cs + abs2(s) - 1), 1, 20);
    c.small((k + ".r").c_str(), abs(Z(cs) * as + s * bs - rs), n, 20);
    c.small((k + ".zero").c_str(), abs(-conj(s) * as + Z(cs) * bs), n, 20);
    c.small((k + ".norm").c_str(), fabs_(abs(rs) - n), n, 20);
    (void)haveExpect;
}
FAMILY(rotg, 4000, 100000)
{
    auto& g = c.rng;
    int st = (int)(c.idx % 5), ce = cent(g);
    int hi = E1 - 2;
    T a = wildT(g, E0, hi, st, ce), b = wildT(g, E0, hi, st, ce);
    if (!IsC && g.coin(0.05)) b = a;
    c.desc("rotg style=%d a=(%.9Lg,%.9Lg) b=(%.9Lg,%.9Lg)", st, (LD)re(a), (LD)im(a), (LD)re(b), (LD)im(b));
    c.nt();
    Z za = toZ(a), zb = toZ(b);
    if constexpr (!IsC) {
        for (int v = 0; v < 2; ++v) {
            T r = a, z = b, cs, s;
            if (v == 0) tlapack::rotg(r, z, cs, s);
            else tlapack::lartg(a, b, cs, s, r);
            judge_rot(c, v ? "lartg" : "rotg", za, zb, (F)cs, toZ(s), toZ(r), true);
            if (v == 0) {
                // reconstruction value: s if |a|>|b|, 1/c if c != 0, else 1 (or 0 for b == 0)
                if (b == 0) c.ok("rotg.z", z == 0, "z=%Lg", (LD)z);
                else if (xfabs<R>(a) > xfabs<R>(b)) c.ok("rotg.z", z == s, "z=%Lg s=%Lg", (LD)z, (LD)s);
                else if ((F)cs * rmax() > 2) c.small("rotg.z", fabs_((F)z * (F)cs - 1), 1, 4);
                else if (cs == 0) c.ok("rotg.z", z == 1, "z=%Lg", (LD)z);
                // sign convention: r has the sign of the larger component
                if (a != 0 || b != 0) {
                    T big = xfabs<R>(a) > xfabs<R>(b) ? a : b;
                    if (b != 0) c.ok("rotg.sign", (r > 0) == (big > 0), "r=%Lg a=%Lg b=%Lg", (LD)r, (LD)a, (LD)b);
                }
            }
        }
    }
    else {
        T r = a, s;
        R cs;
        tlapack::rotg(r, b, cs, s);
        judge_rot(c, "rotg", za, zb, (F)cs, toZ(s), toZ(r), true);
        c.ok("rotg.cpos", cs >= 0, "c=%Lg", (LD)cs);
    }
}
FAMILY(rotmg, 3000, 60000)
{
    if constexpr (!IsC) {
        auto& g = c.rng;
        int st = (int)(c.idx % 3);
        int w = st == 0 ? 3 : st == 1 ? 30 : std::min(E1 / 5, 90);
        auto num = [&](bool pos) { R m = (R)(1 + g.u01()); m = xldexp<R>(m, g.range(-w, w)); return pos || g.coin() ? m : -m; };
        T d1 = num(true), d2 = num(g.coin(0.85)), a = num(false), b = g.coin(0.05) ? T(0) : num(false);
        if (g.coin(0.03)) d2 = R(0);
        if (g.coin(0.05)) a = R(0);
        c.desc("rotmg st=%d d1=%.12Lg d2=%.12Lg a=%.12Lg b=%.12Lg", st, (LD)d1, (LD)d2, (LD)a, (LD)b);
        c.nt();
        F q1 = (F)d1 * (F)a * (F)a, q2 = (F)d2 * (F)b * (F)b;
        if (q2 < 0 && fabs_(q1) > fabs_(q2) && fabs_(fabs_(q1) - fabs_(q2)) < (F)1e-2 * fabs_(q1)) return;  // near-degenerate hyperbolic
        F D1 = (F)d1, D2 = (F)d2, A = (F)a, B = (F)b;
        T h[4];
        for (int i = 0; i < 4; ++i) canary_fill(&h[i], i, 9);
        int flag = tlapack::rotmg(d1, d2, a, b, h);
        c.ok("rotmg.flag", flag >= -2 && flag <= 1, "flag=%d", flag);
        if (q2 < 0 && !(fabs_(q1) > fabs_(q2))) {
            c.ok("rotmg.degenerate", flag == -1 && d1 == 0 && d2 == 0 && a == 0 && h[0] == 0 && h[1] == 0 && h[2] == 0 && h[3] == 0, "flag=%d", flag);
            return;
        }
        F H[4];  // h11 h21 h12 h22
        for (int i = 0; i < 4; ++i) H[i] = (F)h[i];
        if (flag == 0) H[0] = H[3] = 1;
        if (flag == 1) { H[1] = -1; H[2] = 1; }
        if (flag == -2) { H[0] = H[3] = 1; H[1] = H[2] = 0; }
        if (flag == -2) {
            c.ok("rotmg.identity", q2 == 0 && (F)d1 == D1 && (F)d2 == D2 && (F)a == A, "flag -2 with d2*b*b != 0");
            return;
        }
        F amp = q2 < 0 ? fabs_(q1) / (fabs_(q1) - fabs_(q2)) : 1;
        // [h11 h12; h21 h22] [a;b] = [a';0]
        c.small("rotmg.a", fabs_(H[0] * A + H[2] * B - (F)a), fabs_(H[0] * A) + fabs_(H[2] * B), 20 * (double)amp);
        c.small("rotmg.zero", fabs_(H[1] * A + H[3] * B), fabs_(H[1] * A) + fabs_(H[3] * B), 20 * (double)amp);
        // H^T D' H = D
        F p11 = (F)d1 * H[0] * H[0] + (F)d2 * H[1] * H[1], m11 = fabs_((F)d1) * H[0] * H[0] + fabs_((F)d2) * H[1] * H[1];
        F p22 = (F)d1 * H[2] * H[2] + (F)d2 * H[3] * H[3], m22 = fabs_((F)d1) * H[2] * H[2] + fabs_((F)d2) * H[3] * H[3];
        F p12 = (F)d1 * H[0] * H[2] + (F)d2 * H[1] * H[3], m12 = fabs_((F)d1 * H[0] * H[2]) + fabs_((F)d2 * H[1] * H[3]);
        c.small("rotmg.d1", fabs_(p11 - D1), m11 + fabs_(D1), 30 * (double)amp);
        c.small("rotmg.d2", fabs_(p22 - D2), m22 + fabs_(D2), 30 * (double)amp);
        c.small("rotmg.d12", fabs_(p12), m12, 30 * (double)amp);
        // rescaled factors stay in the documented working range
        F gs = (F)4096 * 4096;
        if (d1 != 0) c.ok("rotmg.range1", (F)d1 > 1 / gs && (F)d1 < gs, "d1=%Lg", (LD)d1);
        if (d2 != 0) c.ok("rotmg.range2", fabs_((F)d2) > 1 / gs && fabs_((F)d2) < gs, "d2=%Lg", (LD)d2);
    }
}
FAMILY(lapy, 3000, 60000)
{
    if constexpr (!IsC) {
        auto& g = c.rng;
        int st = (int)(c.idx % 5), ce = cent(g);
        R x = wild(g, E0, E1 - 2, st, ce), y = wild(g, E0, E1 - 2, st, ce), z = wild(g, E0, E1 - 2, st, ce);
        c.desc("lapy st=%d x=%.9Lg y=%.9Lg z=%.9Lg", st, (LD)x, (LD)y, (LD)z);
        c.nt();
        M v(3, 1);
        v.a = {Z((F)x), Z((F)y), Z(0)};
        F w = nrm(v);
        c.small("lapy2", fabs_((F)tlapack::lapy2(x, y) - w), w, 6);
        v.a[2] = Z((F)z);
        w = nrm(v);
        c.small("lapy3", fabs_((F)tlapack::lapy3(x, y, z) - w), w, 8);
    }
}
FAMILY(ladiv, 4000, 100000)
{
    if constexpr (IsC) {
        auto& g = c.rng;
        int st = (int)(c.idx % 5), ce = cent(g);
        // numerator and denominator normal, quotient representable
        T a = wildT(g, E0, E1, st, ce), b = wildT(g, E0, E1, g.range(0, 4), cent(g));
        if (b == T(0)) b = T(1);
        c.desc("ladiv a=(%.9Lg,%.9Lg) b=(%.9Lg,%.9Lg)", (LD)re(a), (LD)im(a), (LD)re(b), (LD)im(b));
        Z za = toZ(a), zb = toZ(b);
        int ea = expo(absm(za)), eb = expo(absm(zb));
        if (absm(za) == 0) ea = 0;
        if (ea - eb > E1 - 2 || (absm(za) != 0 && ea - eb < E0 + 4)) return;
        // normwise accuracy near the underflow threshold is not promised
        Z q = scz(za, -ea) / scz(zb, -eb);
        c.nt();
        T r = tlapack::ladiv(a, b);
        R p1, q1;
        tlapack::ladiv(a.real(), a.imag(), b.real(), b.imag(), p1, q1);
        int sh = ea - eb;
        c.small("ladiv", abs(scz(toZ(r), -sh) - q), abs(q), 20);
        c.small("ladiv.real", abs(scz(Z((F)p1, (F)q1), -sh) - q), abs(q), 20);
    }
}
FAMILY(lassq, 2000, 40000)
{
    auto& g = c.rng;
    int n = g.range(0, 12), st = (int)(c.idx % 5), ce = cent(g);
    Vec<T> x(c, "x", n);
    for (int i = 0; i < n; ++i) x[i] = wildT(g, E0 - 10, E1 - 4, st, ce);
    R sc0 = g.coin(0.3) ? R(0) : g.coin(0.3) ? R(1) : xfabs<R>(wild(g, E0 / 2, E1 / 2, st, ce));
    R sq0 = g.coin(0.3) ? R(0) : g.coin(0.3) ? R(1) : xfabs<R>(wild(g, E0 / 2, E1 / 2, g.range(0, 4), ce));
    c.desc("lassq n=%d st=%d scale=%.9Lg sumsq=%.9Lg", n, st, (LD)sc0, (LD)sq0);
    if (n) c.nt();
    M v(n + 1, 1);
    for (int i = 0; i < n; ++i) v.a[i] = toZ(x[i]);
    v.a[n] = Z((F)sc0 * vsqrt((F)sq0));
    F want = nrm(v);
    if (want > rmax() / 8) return;
    x.freeze();
    auto xv = x.view();
    R s = sc0, q = sq0;
    tlapack::lassq(xv, s, q);
    c.ok("lassq.nonneg", s >= 0 && q >= 0, "scl=%Lg smsq=%Lg", (LD)s, (LD)q);
    F got = (F)s * vsqrt((F)q);
    c.bound("lassq", fabs_(got - want), want * eps() * F(2 * n + 12) + rmin() * eps() * 8);
    if (sc0 == 0 || sq0 == 0) {
        F nn = (F)tlapack::nrm2(xv);
        c.bound("nrm2", fabs_(nn - want), want * eps() * F(2 * n + 12) + rmin() * eps() * 8);
    }
    // user-supplied absolute value
    s = R(0); q = R(1);
    tlapack::lassq(xv, s, q, [](const T& t) { return tlapack::abs1(t) / R(4); });
    for (int i = 0; i < n; ++i) v.a[i] = Z((fabs_(toZ(x[i]).re) + fabs_(toZ(x[i]).im)) / 4);
    v.a[n] = Z(0);
    want = nrm(v);
    got = (F)s * vsqrt((F)q);
    c.bound("lassq.absF", fabs_(got - want), want * eps() * F(2 * n + 14) + rmin() * eps() * 16);
}
FAMILY(rscl, 3000, 60000)
{
    auto& g = c.rng;
    int n = g.range(1, 6), st = (int)(c.idx % 5), ce = cent(g);
    bool ra = g.coin(0.3);
    T al = wildT(g, E0 - 8, E1, st, ce);
    if (IsC && ra) al = T(re(al));
    if (al == T(0)) al = T(1);
    Vec<T> x(c, "x", n);
    c.desc("rscl n=%d alpha=(%.9Lg,%.9Lg) ra=%d", n, (LD)re(al), (LD)im(al), ra);
    Z za = toZ(al);
    int ea = expo(absm(za));
    int s2 = g.range(0, 4);
    std::vector<Z> want(n);
    std::vector<int> sh(n), ex0(n);
    for (int i = 0; i < n; ++i) {
        // choose x with |x/alpha| comfortably representable
        int lo = std::max(E0 + 3, E0 + 6 + ea), hi = std::min(E1 - 3, E1 - 6 + ea);
        if (lo > hi) lo = hi = std::min(E1 - 3, std::max(E0 + 3, ea));
        x[i] = wildT(g, lo, hi, s2, (lo + hi) / 2);
        Z z = toZ(x[i]);
        int ex = absm(z) == 0 ? 0 : expo(absm(z));
        want[i] = scz(z, -ex) / scz(za, -ea);
        sh[i] = ex - ea;
        ex0[i] = ex;
    }
    // complex alpha whose components differ so much that |alpha|^2/min component
    // leaves the range: accuracy only demanded for x >= 1 (pre-scaling by safe_min)
    bool xw = false;
    if (re(al) != 0 && im(al) != 0) {
        int e1 = expo(za.re), e2 = expo(za.im);
        if (2 * std::max(e1, e2) - std::min(e1, e2) > E1 - 4) xw = true;
        if (std::min(e1, e2) < E0 + 2) return;  // subnormal component
    }
    c.nt();
    auto v = x.view();
    if (ra && IsC) tlapack::rscl(re(al), v);
    else tlapack::rscl(al, v);
    for (int i = 0; i < n; ++i) {
        if (sh[i] < E0 + 4 || sh[i] > E1 - 3) continue;
        if (xw && ex0[i] < 2) continue;
        c.small("rscl", abs(scz(toZ(x[i]), -sh[i]) - want[i]), abs(want[i]), 20);
    }
}
static bool inPart(int form, int kl, int ku, int i, int j)
{
    switch (form) {
        case 1: return i <= j + 1;
        case 2: return j <= i + 1;
        case 3: return i <= j;
        case 4: return i >= j;
        case 5: return i < j;
        case 6: return i > j;
        case 7: return i - j <= kl && j - i <= ku;
        default: return true;
    }
}
FAMILY(lascl, 3000, 60000)
{
    auto& g = c.rng;
    int st = (int)(c.idx % 5), ce = cent(g);
    R a = wild(g, E0, E1, st, ce), b = wild(g, E0, E1, g.range(0, 4), cent(g));
    if (b == 0 || !ffinite((F)b)) b = R(1);  // wild values may round to 0 or infinity
    int m = g.range(1, 4), n = g.range(1, 4), form = g.range(0, 7), kl = g.range(0, m - 1), ku = g.range(0, n - 1);
    if (g.coin(0.02)) a = g.coin() ? std::numeric_limits<R>::infinity() : -std::numeric_limits<R>::infinity();
    c.desc("lascl a=%.9Lg b=%.9Lg form=%d", (LD)a, (LD)b, form);
    Mat<T> A(c, "A", m, n);
    int ea = expo((F)a), eb = expo((F)b);
    if (a == 0) ea = eb;
    bool inf = !ffinite((F)a);
    if (inf) ea = eb;
    std::vector<Z> want;
    std::vector<int> sh;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            int lo = std::max(E0 + 3, E0 + 6 - (ea - eb)), hi = std::min(E1 - 3, E1 - 6 - (ea - eb));
            if (lo > hi) { lo = hi = 0; A(i, j) = T(0); }
            else A(i, j) = wildT(g, lo, hi, 0, 0);
            Z z = toZ(A(i, j));
            int ex = absm(z) == 0 ? 0 : expo(absm(z));
            want.push_back(scz(z, -ex) * Z(sc((F)a, -ea) / sc((F)b, -eb)));
            sh.push_back(ex + ea - eb);
        }
    c.nt();
    M X = A.ref();
    A.maskif([&](int i, int j) { return !inPart(form, kl, ku, i, j); });
    auto v = A.view();
    using tlapack::Uplo;
    static const Uplo UP[7] = {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower};
    int info;
    if (form == 7) {
        tlapack::BandAccess ba{(size_t)kl, (size_t)ku};
        info = tlapack::lascl(ba, b, a, v);
    }
    else info = tlapack::lascl(UP[form], b, a, v);
    c.ok("lascl.ret", info == 0, "ret=%d", info);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            int k = i + j * m;
            if (!inPart(form, kl, ku, i, j)) continue;
            Z gz = toZ(A(i, j));
            if (inf) {
                // an infinite factor: infinities of the right sign, NaN for zeros
                auto good = [&](F y, F x) { return x == 0 ? y != y : !ffinite(y) && y == y && (y > 0) == ((x > 0) == ((a > 0) == (b > 0))); };
                c.ok("lascl.inf", good(gz.re, X(i, j).re) && (!IsC || good(gz.im, X(i, j).im)), "scaled by an infinite factor");
                continue;
            }
            if (a == 0) { c.ok("lascl.zero", absm(gz) == 0); continue; }
            if (sh[k] < E0 + 4 || sh[k] > E1 - 3) continue;
            Z d = scz(gz, -sh[k]) - want[k];
            c.small("lascl", abs(d), abs(want[k]), 20);
        }
}
FAMILY(larfg, 3000, 50000)
{
    auto& g = c.rng;
    int n = g.range(1, 8), st = (int)(c.idx % 5), ce = cent(g);
    // 0: vector x (alpha, x) form, 1: storev/whole-vector form
    T alpha = wildT(g, E0 + 2, E1 - 6, st, ce);
    int xs = g.range(0, 4);
    int sv = (int)(c.idx / 5 % 2);
    Vec<T> x(c, "x", n - 1);
    for (int i = 0; i < n - 1; ++i) x[i] = xs == 0 && g.coin() ? T(0) : wildT(g, E0 + 2, E1 - 6, st, ce);
    if (g.coin(0.1))
        for (int i = 0; i < n - 1; ++i) x[i] = T(0);
    if (IsC && g.coin(0.15)) alpha = T(re(alpha));
    c.desc("larfg n=%d st=%d storev=%d alpha=(%.9Lg,%.9Lg)", n, st, sv, (LD)re(alpha), (LD)im(alpha));
    c.nt();
    std::vector<Z> x0(n);
    x0[0] = toZ(alpha);
    for (int i = 1; i < n; ++i) x0[i] = toZ(x[i - 1]);
    F mx = 0;
    for (auto& z : x0) mx = std::max(mx, absm(z));
    int e = mx == 0 ? 0 : -expo(mx);
    T tau;
    canary_fill(&tau, 0, 5);
    auto xv = x.view();
    tlapack::larfg(sv ? StoreV::Rowwise : StoreV::Columnwise, alpha, xv, tau);
    // v = [1; x];  H = I - tau v v^H with  H^H [alpha;x] = [beta;0] (columnwise)
    // rowwise: [alpha x] H = [beta 0]
    std::vector<Z> v(n);
    v[0] = Z(1);
    for (int i = 1; i < n; ++i) v[i] = toZ(x[i - 1]);
    F vv = 0, nx = 0;
    for (int i = 0; i < n; ++i) {
        vv += abs2(v[i]);
        Z t = scz(x0[i], e);
        nx += abs2(t);
    }
    nx = vsqrt(nx);
    Z tz = toZ(tau), bz = scz(toZ(alpha), e);
    if (mx > 0) {
        c.ok("larfg.vbounded", ffinite(vv), "v not finite");
        // unitary: |tau|^2 vv = 2 Re(tau)
        c.small("larfg.unitary", fabs_(abs2(tz) * vv - 2 * tz.re), 1, 20 + 4 * n);
        c.small("larfg.beta", fabs_(abs(bz) - nx), nx, 10 + 2 * n);
        c.ok("larfg.real", bz.im == 0, "beta not real");
        Z dot;
        for (int i = 0; i < n; ++i) {
            Z t = scz(x0[i], e);
            dot += t * conj(v[i]);  // v^H x  or  x v^H (row)
        }
        F rr_ = 0;
        for (int i = 0; i < n; ++i) {
            Z t = scz(x0[i], e);
            Z h = sv ? t - dot * tz * v[i] : t - conj(tz) * dot * v[i];
            if (i == 0) h = h - bz;
            rr_ += abs2(h);
        }
        c.small("larfg.apply", vsqrt(rr_), nx, 20 + 6 * n);
    }
    else c.ok("larfg.zero", absm(tz) == 0 && alpha == T(0), "tau nonzero for zero vector");
    bool allz = true;
    for (int i = 1; i < n; ++i) allz &= absm(x0[i]) == 0;
    if (allz && x0[0].im == 0) c.ok("larfg.H=I", absm(tz) == 0, "H should be the identity for a real multiple of e1");
}
FAMILY(consts, 1, 1)
{
    // machine constants, all powers of two, against the format of the type
    using L = std::numeric_limits<R>;
    int p = L::digits, lo = L::min_exponent, hi = L::max_exponent;
    auto two = [](int e) { F x = 1; for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; };
    auto fl = [](int a) { return a >= 0 ? a / 2 : -((1 - a) / 2); };  // floor(a / 2)
    c.desc("constants of the real type");
    c.nt();
    c.ok("const.digits", tlapack::digits<R>() == p, "digits() = %d", tlapack::digits<R>());
    auto is = [&](const char* k, R x, F want) { c.ok(k, F(x) == want, "is %Lg, should be %Lg", ld(F(x)), ld(want)); };
    is("const.ulp", tlapack::ulp<R>(), two(1 - p));
    is("const.uroundoff", tlapack::uroundoff<R>(), two(-p));
    is("const.safemin", tlapack::safe_min<R>(), two(std::max(lo - 1, 1 - hi)));
    is("const.safemax", tlapack::safe_max<R>(), two(-std::max(lo - 1, 1 - hi)));
    is("const.bluemin", tlapack::blue_min<R>(), two(-fl(1 - lo)));
    is("const.bluemax", tlapack::blue_max<R>(), two(fl(hi - p + 1)));
    is("const.scalemin", tlapack::blue_scalingMin<R>(), two(-fl(lo - p)));
    is("const.scalemax", tlapack::blue_scalingMax<R>(), two(fl(1 - p - hi)));
}
VK_MAIN
