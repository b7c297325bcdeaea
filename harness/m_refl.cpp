// C08: Householder reflectors, single and blocked
#include "hh.hpp"
#include <tlapack/lapack/inv_house3.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larft.hpp>
using namespace vk;

static const Side SD[2] = {Side::Left, Side::Right};
static const Direction DI[2] = {Direction::Forward, Direction::Backward};
static const StoreV SV[2] = {StoreV::Columnwise, StoreV::Rowwise};
static const Op OP3[3] = {Op::NoTrans, Op::ConjTrans, Op::Trans};


FAMILY(larf, 900, 20000)
{
    auto& g = c.rng;
    int id = (int)c.idx;
    Side s = SD[id % 2];
    Direction d = DI[id / 2 % 2];
    StoreV sv = SV[id / 4 % 2];
    bool wk = id / 8 % 2;
    bool ints = kExactInts && g.coin();
    int m = dim(g, 20), n = dim(g, 20);
    int nv = s == Side::Left ? m : n;
    c.desc("larf side=%c dir=%c storev=%c work=%d m=%d n=%d ints=%d", ch(s), (char)d, (char)sv, wk, m, n, ints);
    if (m && n) c.nt();
    Vec<T> v(c, "v", nv);
    v.set(randM<T>(g, nv, 1, ints));
    T tau = coef<T>(g, ints);
    M vz(nv, 1);
    int one = d == Direction::Forward ? 0 : nv - 1;
    for (int i = 0; i < nv; ++i) vz(i, 0) = i == one ? Z(1) : sv == StoreV::Columnwise ? toZ(v[i]) : conj(toZ(v[i]));
    Mat<T> C(c, "C", m, n);
    C.set(randM<T>(g, m, n, ints));
    M C0 = C.ref();
    if (nv) v.mask(one);
    v.freeze();
    auto vv = v.view();
    auto cc = C.view();
    if (wk) {
        auto wi = tlapack::larf_worksize<T>(s, d, sv, vv, tau, cc);
        Work<T> w(c, wi);
        auto wv = w.view();
        tlapack::larf_work(s, d, sv, vv, tau, cc, wv);
    }
    else
        tlapack::larf(s, d, sv, vv, tau, cc);
    if (!m || !n) { same(c, "larf.empty", C.ref(), C0); return; }
    M W, G;
    if (s == Side::Left) {
        M w = mul(ctr(vz), C0);
        W = C0 - scale(toZ(tau), mul(vz, w));
        G = absM(C0) + scale(Z(abs(toZ(tau))), mul(absM(vz), mul(absM(ctr(vz)), absM(C0))));
    }
    else {
        M w = mul(C0, vz);
        W = C0 - scale(toZ(tau), mul(w, ctr(vz)));
        G = absM(C0) + scale(Z(abs(toZ(tau))), mul(mul(absM(C0), absM(vz)), absM(ctr(vz))));
    }
    cmp(c, ints ? "larf.exact" : "larf", C.ref(), W, G, ints ? 0 : 4.0 * (nv + 8));
}
// two-piece variant: C0 vector, C1 matrix, x without the leading one
FAMILY(larf01, 700, 15000)
{
    auto& g = c.rng;
    int id = (int)c.idx;
    Side s = SD[id % 2];
    StoreV sv = SV[id / 2 % 2];
    bool wk = id / 4 % 2;
    bool ints = kExactInts && g.coin();
    int m = dim(g, 20), n = dim(g, 20);
    int nx = s == Side::Left ? m : n, k = s == Side::Left ? n : m;
    c.desc("larf01 side=%c storev=%c work=%d m=%d n=%d ints=%d", ch(s), (char)sv, wk, m, n, ints);
    if (m && n) c.nt();
    Vec<T> x(c, "x", nx), C0(c, "C0", k);
    x.set(randM<T>(g, nx, 1, ints));
    C0.set(randM<T>(g, k, 1, ints));
    T tau = coef<T>(g, ints);
    Mat<T> C1(c, "C1", m, n);
    C1.set(randM<T>(g, m, n, ints));
    M vz(nx + 1, 1), S;
    vz(0, 0) = Z(1);
    for (int i = 0; i < nx; ++i) vz(i + 1, 0) = sv == StoreV::Columnwise ? toZ(x[i]) : conj(toZ(x[i]));
    x.freeze();
    M c1 = C1.ref(), c0 = C0.ref();
    S = s == Side::Left ? M(m + 1, n) : M(m, n + 1);
    for (int i = 0; i < k; ++i) (s == Side::Left ? S(0, i) : S(i, 0)) = c0(i, 0);
    put(S, s == Side::Left, s == Side::Right, c1);
    auto xv = x.view();
    auto c0v = C0.view();
    auto c1v = C1.view();
    if (wk) {
        auto wi = tlapack::larf_worksize<T>(s, sv, xv, tau, c0v, c1v);
        Work<T> w(c, wi);
        auto wv = w.view();
        tlapack::larf_work(s, sv, xv, tau, c0v, c1v, wv);
    }
    else
        tlapack::larf(s, sv, xv, tau, c0v, c1v);
    M got(S.m, S.n), q0 = C0.ref();
    for (int i = 0; i < k; ++i) (s == Side::Left ? got(0, i) : got(i, 0)) = q0(i, 0);
    put(got, s == Side::Left, s == Side::Right, C1.ref());
    M W, G;
    F at = abs(toZ(tau));
    if (s == Side::Left) {
        W = S - scale(toZ(tau), mul(vz, mul(ctr(vz), S)));
        G = absM(S) + scale(Z(at), mul(absM(vz), mul(absM(ctr(vz)), absM(S))));
    }
    else {
        W = S - scale(toZ(tau), mul(mul(S, vz), ctr(vz)));
        G = absM(S) + scale(Z(at), mul(mul(absM(S), absM(vz)), absM(ctr(vz))));
    }
    cmp(c, ints ? "larf01.exact" : "larf01", got, W, G, ints ? 0 : 4.0 * (nx + 8));
}
FAMILY(larft, 700, 15000)
{
    auto& g = c.rng;
    int id = (int)c.idx;
    Direction d = DI[id % 2];
    StoreV sv = SV[id / 2 % 2];
    bool ints = kExactInts && id / 4 % 2;
    int k = ints ? g.range(1, 3) : g.range(1, 9), n = k + (g.coin(0.3) ? 0 : g.range(0, ints ? 5 : 14));
    int sparse = g.range(0, 3);
    c.desc("larft dir=%c storev=%c n=%d k=%d ints=%d sp=%d", (char)d, (char)sv, n, k, ints, sparse);
    c.nt();
    bool cw = sv == StoreV::Columnwise;
    Mat<T> V(c, "V", cw ? n : k, cw ? k : n); Mat<T, LayB> Tm(c, "T", k, k);
    M V0 = randM<T>(g, V.m, V.n, false);
    for (auto& x : V0.a) {
        if (ints) x = toZ(smallint<T>(g, 1));
        else if (sparse == 0) x = x * Z(F(2) / vsqrt(F(n)));
        if (sparse == 1 && g.coin(0.5)) x = Z(0);
    }
    roundT(V0);
    V.set(V0);
    V0 = V.ref();
    Vec<T> tau(c, "tau", k);
    M VV = expandV(V0, d, sv, n, k);
    for (int j = 0; j < k; ++j) {
        if (ints) tau[j] = smallint<T>(g, 1);
        else if (g.coin(0.15)) tau[j] = T(0);
        else {
            F s = 0;
            for (int i = 0; i < n; ++i) s += abs2(VV(i, j));
            // unitary reflector: tau = (1 - e^{i t}) / ||v||^2
            Z t = IsC ? Z((F)1 - (F)std::cos(6.28 * g.u01())) : Z(2);
            if (IsC) { double a = 6.28 * g.u01(); t = Z(F(1 - std::cos(a)), F(-std::sin(a))); }
            tau[j] = Mat<T>::fromZ(t * Z(F(1) / s));
        }
    }
    maskV(V, d, sv, n, k);
    V.freeze();
    tau.freeze();
    // only the documented triangle of T is an output
    Tm.junk(c);
    maskTri(Tm, d == Direction::Forward ? Uplo::Upper : Uplo::Lower);
    auto vv = V.view();
    auto tv = tau.view();
    auto tt = Tm.view();
    tlapack::larft(d, sv, vv, tv, tt);
    M TT = triM(Tm.ref(), d == Direction::Forward ? Uplo::Upper : Uplo::Lower, Diag::NonUnit);
    M H = M::eye(n, n);
    F sc = 1;
    for (int q = 0; q < k; ++q) {
        int j = d == Direction::Forward ? q : k - 1 - q;
        M v = sub(VV, 0, n, j, j + 1);
        Z t = toZ(tau[j]);
        F vn = nrm(v);
        sc *= 1 + abs(t) * vn * vn;
        H = H - scale(t, mul(mul(H, v), ctr(v)));
    }
    M got = M::eye(n, n) - mul(mul(VV, TT), ctr(VV));
    if (ints) same(c, "larft.exact", got, H);
    else {
        F vn = nrm(VV), tn = nrm(TT);
        F s = 1 + vn * vn * tn;
        c.small("larft", nrm(got - H), s * s, 8.0 * (n + k));
    }
}
FAMILY(larfb, 1200, 25000)
{
    auto& g = c.rng;
    int id = (int)c.idx;
    Side s = SD[id % 2];
    Direction d = DI[id / 2 % 2];
    StoreV sv = SV[id / 4 % 2];
    Op op = OP3[id / 8 % (IsC ? 2 : 3)];
    bool wk = g.coin(), ints = kExactInts && g.coin();
    int k = g.range(1, ints ? 4 : 9), nv = k + (g.coin(0.35) ? 0 : g.range(0, 14)), o = dim(g, 18);
    int m = s == Side::Left ? nv : o, n = s == Side::Left ? o : nv;
    c.desc("larfb side=%c op=%c dir=%c storev=%c work=%d m=%d n=%d k=%d ints=%d", ch(s), ch(op), (char)d, (char)sv, wk, m, n, k, ints);
    if (m && n) c.nt();
    bool cw = sv == StoreV::Columnwise;
    Mat<T> V(c, "V", cw ? nv : k, cw ? k : nv); Mat<T, LayB> Tm(c, "T", k, k); Mat<T, LayC> C(c, "C", m, n);
    V.set(randM<T>(g, V.m, V.n, ints));
    if (ints)
        for (idx_t i = 0; i < V.m; ++i)
            for (idx_t j = 0; j < V.n; ++j) V(i, j) = smallint<T>(g, 1);
    Tm.set(randM<T>(g, k, k, ints));
    C.set(randM<T>(g, m, n, ints));
    Uplo u = d == Direction::Forward ? Uplo::Upper : Uplo::Lower;
    M VV = expandV(V.ref(), d, sv, nv, k), TT = opM(triM(Tm.ref(), u, Diag::NonUnit), op), C0 = C.ref();
    maskV(V, d, sv, nv, k);
    maskTri(Tm, u);
    V.freeze();
    Tm.freeze();
    auto vv = V.view();
    auto tt = Tm.view();
    auto cc = C.view();
    if (wk) {
        auto wi = tlapack::larfb_worksize<T>(s, op, d, sv, vv, tt, cc);
        Work<T> w(c, wi);
        auto wv = w.view();
        tlapack::larfb_work(s, op, d, sv, vv, tt, cc, wv);
    }
    else
        tlapack::larfb(s, op, d, sv, vv, tt, cc);
    // op(H) = I - V op(T) V^H for NoTrans/ConjTrans; transpose only in the real case
    M H = mul(mul(VV, TT), ctr(VV));
    M W = C0 - (s == Side::Left ? mul(H, C0) : mul(C0, H));
    M aH = mul(mul(absM(VV), absM(TT)), absM(ctr(VV)));
    M G = absM(C0) + (s == Side::Left ? mul(aH, absM(C0)) : mul(absM(C0), aH));
    cmp(c, ints ? "larfb.exact" : "larfb", C.ref(), W, G, ints ? 0 : 4.0 * (nv + 2 * k + 8));
}
// larfg on whole vectors, both directions, combined with larf (H maps the vector to beta e)
FAMILY(larfgvec, 900, 20000)
{
    auto& g = c.rng;
    int id = (int)c.idx;
    Direction d = DI[id % 2];
    StoreV sv = SV[id / 2 % 2];
    int n = g.coin(0.2) ? g.range(1, 2) : dim(g, 30);
    n = std::max(1, n);
    int kind = g.range(0, 6);
    c.desc("larfgvec dir=%c storev=%c n=%d kind=%d", (char)d, (char)sv, n, kind);
    c.nt();
    Vec<T> v(c, "v", n);
    M x = randM<T>(g, n, 1, kind == 1);
    if (kind == 2) x = scale(Z((F)bigS()), x);
    if (kind == 3) x = scale(Z((F)tinyS()), x);
    int a = d == Direction::Forward ? 0 : n - 1;
    if (kind == 4) for (int i = 0; i < n; ++i) if (i != a) x(i, 0) = Z(0);
    if (kind == 5) x(a, 0) = Z(0);
    if (kind == 6) x = scale(Z(rmin() * 4), x);
    v.set(x);
    x = v.ref();
    T tau;
    canary_fill(&tau, 0, 3);
    auto vv = v.view();
    tlapack::larfg(d, sv, vv, tau);
    M w = v.ref();
    Z beta = w(a, 0), t = toZ(tau);
    w(a, 0) = Z(1);
    F s = nmax(x);
    if (s == 0) { c.ok("larfgvec.zero", absm(t) == 0 && absm(beta) == 0); return; }
    M xs = x;
    for (auto& z : xs.a) z = Z(z.re / s, z.im / s);
    Z bs(beta.re / s, beta.im / s);
    F nx = nrm(xs);
    // subnormal data lose relative accuracy
    F floor_ = rmin() * eps() / s / eps();
    Z dot;
    for (int i = 0; i < n; ++i) dot += xs(i, 0) * conj(w(i, 0));
    F r = 0, vn = 0;
    for (int i = 0; i < n; ++i) {
        Z h = sv == StoreV::Columnwise ? xs(i, 0) - conj(t) * dot * w(i, 0) : xs(i, 0) - dot * t * w(i, 0);
        if (i == a) h = h - bs;
        r += abs2(h);
        vn += abs2(w(i, 0));
    }
    c.small("larfgvec.apply", vsqrt(r), nx + 0 * floor_, 20 + 6 * n);
    c.small("larfgvec.unitary", fabs_(abs2(t) * vn - 2 * t.re), 1, 20 + 4 * n);
    c.ok("larfgvec.betareal", beta.im == 0);
    c.small("larfgvec.beta", fabs_(fabs_(bs.re) - nx), nx, 20 + 3 * n);
    if (absm(t) != 0) {
        c.ok("larfgvec.tau", (double)t.re >= 1 - 1e-3 && (double)t.re <= 2 + 1e-3, "Re tau = %g", (double)t.re);
        c.ok("larfgvec.tau1", (double)abs(t - Z(1)) <= 1 + 1e-3, "|tau-1| = %g", (double)abs(t - Z(1)));
    }
}
FAMILY(invhouse3, 800, 15000)
{
    auto& g = c.rng;
    int kind = (int)(c.idx % 9);
    Mat<T> A(c, "A", 2, 3);
    M X = randM<T>(g, 2, 3, kind == 1 || kind == 2 || kind == 3);
    if (kind == 2) for (int j = 1; j < 3; ++j) X(1, j) = X(0, j) * Z((F)g.range(-2, 2));           // rank-1 trailing block
    if (kind == 3) for (int j = 1; j < 3; ++j) X(g.range(0, 1), j) = Z(0);
    if (kind == 4) for (int j = 1; j < 3; ++j) X(0, j) = X(1, j) = Z(0);
    if (kind == 5) for (int j = 0; j < 3; ++j) X(1, j) = X(1, j) * Z((F)1e-4);
    if (kind == 6) X(0, 1) = X(1, 1) = Z(0);
    if (kind == 7) for (auto& z : X.a) z = z * Z((F)(g.coin() ? bigS() : R(1)));
    if (kind == 8) for (int i = 0; i < 2; ++i) X(i, 2) = X(i, 1) * Z((F)g.pick({0.5, 1.0, 2.0, -4.0}));
    A.set(X);
    X = A.ref();
    c.desc("inv_house3 kind=%d A=[%g %g %g; %g %g %g]", kind, (double)X(0, 0).re, (double)X(0, 1).re, (double)X(0, 2).re, (double)X(1, 0).re, (double)X(1, 1).re, (double)X(1, 2).re);
    c.nt();
    A.freeze();
    Vec<T> v(c, "v", 3);
    v.junk();
    T tau;
    canary_fill(&tau, 0, 3);
    auto a = A.view();
    auto vv = v.view();
    tlapack::inv_house3(a, vv, tau);
    M w = v.ref();
    w(0, 0) = Z(1);
    Z t = toZ(tau);
    F vn = nrm(w);
    c.small("inv_house3.unitary", fabs_(abs2(t) * vn * vn - 2 * t.re), 1, 40);
    // A H e1 = 0 with H = I - tau v v^H
    M He = scale(Z(-1) * t, w);
    He(0, 0) = He(0, 0) + Z(1);
    M r = mul(X, He);
    c.small("inv_house3", nrm(r), nrm(X), 60);
}
VK_MAIN
