// C03: level-2 BLAS
#include "ops.hpp"
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsv.hpp>
using namespace vk;

static const Op OP4[4] = {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj};
static const Uplo UP2[2] = {Uplo::Upper, Uplo::Lower};
static const Diag DG[2] = {Diag::NonUnit, Diag::Unit};
static double thr(int k) { return 4.0 * (k + 8); }
static bool upd(Uplo u, int i, int j) { return inTri(u, i, j); }

FAMILY(gemv, 500, 8000)
{
    auto& g = c.rng;
    Op t = OP4[c.idx % 4];
    bool nobeta = c.idx / 4 % 3 == 0, ints = kExactInts && g.coin(), ra = g.coin(0.3);
    int m = dim(g, 30), n = dim(g, 30);
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    if (ra) al = T(re(al)), be = T(re(be));
    c.desc("gemv t=%c m=%d n=%d ints=%d nobeta=%d ra=%d al=%g be=%g", ch(t), m, n, ints, nobeta, ra, (double)re(al), (double)re(be));
    bool nt = t == Op::NoTrans || t == Op::Conj;
    Mat<T> A(c, "A", m, n);
    Vec<T> x(c, "x", nt ? n : m), y(c, "y", nt ? m : n);
    if (m && n) c.nt();
    A.set(randM<T>(g, m, n, ints));
    x.set(randM<T>(g, x.n, 1, ints));
    y.set(randM<T>(g, y.n, 1, ints));
    if (nobeta) y.junk();
    M y0 = nobeta ? M(y.n, 1) : y.ref();
    A.freeze();
    x.freeze();
    auto a = A.view();
    auto xv = x.view();
    auto yv = y.view();
    if (nobeta) {
        if (ra) tlapack::gemv(t, re(al), a, xv, yv);
        else tlapack::gemv(t, al, a, xv, yv);
        be = T(0);
    }
    else if (ra) tlapack::gemv(t, re(al), a, xv, re(be), yv);
    else tlapack::gemv(t, al, a, xv, be, yv);
    if (x.n == 0) return;  // BLAS quick return: y left alone
    M X = opM(A.ref(), t);
    M W = scale(toZ(al), mul(X, x.ref())) + scale(toZ(be), y0);
    M G = scale(abs(toZ(al)), mul(absM(X), absM(x.ref()))) + scale(abs(toZ(be)), absM(y0));
    if (ints) same(c, "gemv.exact", y.ref(), W);
    else cmp(c, "gemv", y.ref(), W, G, thr(x.n));
}
template <class T, bool cj_>
static void do_ger(Case& c)
{
    auto& g = c.rng;
    bool ints = kExactInts && g.coin(), ra = g.coin(0.3);
    int m = dim(g, 30), n = dim(g, 30);
    T al = coef<T>(g, ints);
    if (ra) al = T(re(al));
    c.desc("ger%s m=%d n=%d ints=%d ra=%d al=%g", cj_ ? "" : "u", m, n, ints, ra, (double)re(al));
    Mat<T> A(c, "A", m, n);
    Vec<T> x(c, "x", m), y(c, "y", n);
    if (m && n) c.nt();
    A.set(randM<T>(g, m, n, ints));
    x.set(randM<T>(g, m, 1, ints));
    y.set(randM<T>(g, n, 1, ints));
    M A0 = A.ref();
    x.freeze();
    y.freeze();
    auto a = A.view();
    auto xv = x.view();
    auto yv = y.view();
    if constexpr (cj_) {
        if (ra) tlapack::ger(re(al), xv, yv, a);
        else tlapack::ger(al, xv, yv, a);
    }
    else {
        if (ra) tlapack::geru(re(al), xv, yv, a);
        else tlapack::geru(al, xv, yv, a);
    }
    M yt = cj_ ? ctr(y.ref()) : tr(y.ref());
    M W = scale(toZ(al), mul(x.ref(), yt)) + A0;
    M G = scale(abs(toZ(al)), mul(absM(x.ref()), absM(yt))) + absM(A0);
    if (ints) same(c, "ger.exact", A.ref(), W);
    else cmp(c, "ger", A.ref(), W, G, thr(1));
}
FAMILY(ger, 250, 4000) { do_ger<T, true>(c); }
FAMILY(geru, 250, 4000) { do_ger<T, false>(c); }

template <class T, bool herm>
static void do_mv(Case& c)
{
    auto& g = c.rng;
    Uplo u = UP2[c.idx % 2];
    bool nobeta = c.idx / 2 % 3 == 0, ints = kExactInts && g.coin(), ra = g.coin(0.3);
    int n = dim(g, 30);
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    if (ra) al = T(re(al)), be = T(re(be));
    c.desc("%s u=%c n=%d ints=%d nobeta=%d ra=%d al=%g be=%g", herm ? "hemv" : "symv", ch(u), n, ints, nobeta, ra, (double)re(al), (double)re(be));
    Mat<T> A(c, "A", n, n);
    Vec<T> x(c, "x", n), y(c, "y", n);
    if (n) c.nt();
    A.set(randM<T>(g, n, n, ints));
    x.set(randM<T>(g, n, 1, ints));
    y.set(randM<T>(g, n, 1, ints));
    M Af = fullM(A.ref(), u, herm);
    if (herm) junkDiagImag(c, A);
    if (nobeta) y.junk();
    M y0 = nobeta ? M(n, 1) : y.ref();
    maskTri(A, u);
    A.freeze();
    x.freeze();
    auto a = A.view();
    auto xv = x.view();
    auto yv = y.view();
    if (nobeta) {
        if constexpr (herm) tlapack::hemv(u, al, a, xv, yv);
        else tlapack::symv(u, al, a, xv, yv);
        be = T(0);
    }
    else if (ra) {
        if constexpr (herm) tlapack::hemv(u, re(al), a, xv, re(be), yv);
        else tlapack::symv(u, re(al), a, xv, re(be), yv);
    }
    else {
        if constexpr (herm) tlapack::hemv(u, al, a, xv, be, yv);
        else tlapack::symv(u, al, a, xv, be, yv);
    }
    M W = scale(toZ(al), mul(Af, x.ref())) + scale(toZ(be), y0);
    M G = scale(abs(toZ(al)), mul(absM(Af), absM(x.ref()))) + scale(abs(toZ(be)), absM(y0));
    const char* k = herm ? (ints ? "hemv.exact" : "hemv") : ints ? "symv.exact" : "symv";
    if (ints) same(c, k, y.ref(), W);
    else cmp(c, k, y.ref(), W, G, thr(n));
}
FAMILY(hemv, 240, 4000) { do_mv<T, true>(c); }
FAMILY(symv, 240, 4000) { do_mv<T, false>(c); }

template <class T, bool herm>
static void do_r(Case& c)
{
    auto& g = c.rng;
    Uplo u = UP2[c.idx % 2];
    bool ints = kExactInts && g.coin(), two = c.idx / 2 % 2, ra = g.coin(0.3);
    int n = dim(g, 30);
    T al = coef<T>(g, ints);
    if ((herm && !two) || ra) al = T(re(al));
    c.desc("%s%s u=%c n=%d ints=%d ra=%d al=(%g,%g)", herm ? "her" : "syr", two ? "2" : "", ch(u), n, ints, ra, (double)re(al), (double)im(al));
    Mat<T> A(c, "A", n, n);
    Vec<T> x(c, "x", n), y(c, "y", n);
    if (n) c.nt();
    A.set(randM<T>(g, n, n, ints));
    x.set(randM<T>(g, n, 1, ints));
    y.set(randM<T>(g, n, 1, ints));
    M A0 = fullM(A.ref(), u, herm);
    if (herm) junkDiagImag(c, A);
    maskTri(A, u);
    x.freeze();
    y.freeze();
    auto a = A.view();
    auto xv = x.view();
    auto yv = y.view();
    M X = x.ref(), Y = y.ref(), W, G;
    if (!two) {
        if constexpr (herm) tlapack::her(u, re(al), xv, a);
        else if (ra) tlapack::syr(u, re(al), xv, a);
        else tlapack::syr(u, al, xv, a);
        M xt = herm ? ctr(X) : tr(X);
        W = scale(toZ(al), mul(X, xt)) + A0;
        G = scale(abs(toZ(al)), mul(absM(X), absM(xt))) + absM(A0);
    }
    else {
        if constexpr (herm) {
            if (ra) tlapack::her2(u, re(al), xv, yv, a);
            else tlapack::her2(u, al, xv, yv, a);
        }
        else if (ra) tlapack::syr2(u, re(al), xv, yv, a);
        else tlapack::syr2(u, al, xv, yv, a);
        M xt = herm ? ctr(X) : tr(X), yt = herm ? ctr(Y) : tr(Y);
        W = scale(toZ(al), mul(X, yt)) + scale(herm ? conj(toZ(al)) : toZ(al), mul(Y, xt)) + A0;
        G = scale(abs(toZ(al)), mul(absM(X), absM(yt)) + mul(absM(Y), absM(xt))) + absM(A0);
    }
    std::string k = std::string(herm ? "her" : "syr") + (two ? "2" : "") + (ints ? ".exact" : "");
    cmp(c, k.c_str(), A.ref(), W, G, ints ? 0 : thr(2), [&](int i, int j) { return upd(u, i, j); });
}
FAMILY(her_, 320, 5000) { do_r<T, true>(c); }
FAMILY(syr_, 320, 5000) { do_r<T, false>(c); }

FAMILY(trmv, 480, 8000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 16);
    Uplo u = UP2[o % 2];
    Op t = OP4[o / 2 % 4];
    Diag d = DG[o / 8];
    bool ints = kExactInts && g.coin();
    int n = dim(g, 30);
    c.desc("trmv u=%c t=%c d=%c n=%d ints=%d", ch(u), ch(t), ch(d), n, ints);
    Mat<T> A(c, "A", n, n);
    Vec<T> x(c, "x", n);
    if (n) c.nt();
    A.set(randM<T>(g, n, n, ints));
    x.set(randM<T>(g, n, 1, ints));
    M Af = opM(triM(A.ref(), u, d), t), x0 = x.ref();
    maskTri(A, u, d);
    A.freeze();
    auto a = A.view();
    auto xv = x.view();
    tlapack::trmv(u, t, d, a, xv);
    M W = mul(Af, x0), G = mul(absM(Af), absM(x0));
    if (ints) same(c, "trmv.exact", x.ref(), W);
    else cmp(c, "trmv", x.ref(), W, G, thr(n));
}
FAMILY(trsv, 480, 8000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 16);
    Uplo u = UP2[o % 2];
    Op t = OP4[o / 2 % 4];
    Diag d = DG[o / 8];
    int n = dim(g, 30), kind = g.range(0, 2);
    bool bad = kind == 2;  // arbitrary diagonal scaling, componentwise residual must still hold
    c.desc("trsv u=%c t=%c d=%c n=%d kind=%d", ch(u), ch(t), ch(d), n, kind);
    Mat<T> A(c, "A", n, n);
    Vec<T> x(c, "x", n);
    if (n) c.nt();
    M X = wellTri<T>(g, n, kind == 0);
    if (bad)
        for (int i = 0; i < n; ++i) X(i, i) = Z(std::ldexp(1.0, g.range(-8, 8))) * X(i, i);
    A.set(X);
    x.set(randM<T>(g, n, 1, false));
    M Af = opM(triM(A.ref(), u, d), t), b = x.ref();
    maskTri(A, u, d);
    A.freeze();
    auto a = A.view();
    auto xv = x.view();
    tlapack::trsv(u, t, d, a, xv);
    M r = mul(Af, x.ref()), G = mul(absM(Af), absM(x.ref())) + absM(b);
    cmp(c, "trsv.residual", r, b, G, thr(n));
}
VK_MAIN
