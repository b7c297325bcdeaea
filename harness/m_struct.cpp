// C05: structured / in-place triangular products
#include "ops.hpp"
#include <iostream>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/ul_mult.hpp>
using namespace vk;

static const Op OP3[3] = {Op::NoTrans, Op::Trans, Op::ConjTrans};
static const Uplo UP2[2] = {Uplo::Upper, Uplo::Lower};
static const Diag DG[2] = {Diag::NonUnit, Diag::Unit};
static const Side SD[2] = {Side::Left, Side::Right};
static double thr(int k) { return 4.0 * (k + 8); }
template <class P>
static void judge(Case& c, const char* k, bool ints, const M& got, const M& W, const M& G, int n, P p)
{
    std::string key = std::string(k) + (ints ? ".exact" : "");
    cmp(c, key.c_str(), got, W, G, ints ? 0 : thr(n), p);
}

FAMILY(lauum, 160, 3000)
{
    auto& g = c.rng;
    Uplo u = UP2[c.idx % 2];
    int n = dim(g, 30);
    bool ints = g.coin();
    c.desc("lauum u=%c n=%d ints=%d", ch(u), n, ints);
    if (n) c.nt();
    Mat<T> A(c, "C", n, n);
    A.set(randM<T>(g, n, n, ints));
    M X = triM(A.ref(), u, Diag::NonUnit);
    maskTri(A, u);
    auto a = A.view();
    int r = tlapack::lauum_recursive(u, a);
    c.ok("lauum.ret", r == 0, "ret %d", r);
    M W = u == Uplo::Lower ? mul(ctr(X), X) : mul(X, ctr(X));
    M G = u == Uplo::Lower ? mul(absM(ctr(X)), absM(X)) : mul(absM(X), absM(ctr(X)));
    judge(c, "lauum", ints, A.ref(), W, G, n, [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(lumult, 200, 3000)
{
    auto& g = c.rng;
    int n = dim(g, 30), v = (int)(c.idx % 2), nx = g.range(1, 5);
    bool ints = g.coin();
    c.desc("%s n=%d nx=%d ints=%d", v ? "ul_mult" : "lu_mult", n, nx, ints);
    if (n) c.nt();
    Mat<T> A(c, "A", n, n);
    A.set(randM<T>(g, n, n, ints));
    M L = triM(A.ref(), Uplo::Lower, Diag::Unit), U = triM(A.ref(), Uplo::Upper, Diag::NonUnit);
    auto a = A.view();
    M W, G;
    if (v) {
        int r = tlapack::ul_mult(a);
        c.ok("ul_mult.ret", r == 0);
        W = mul(U, L);
        G = mul(absM(U), absM(L));
    }
    else {
        tlapack::LuMultOpts o;
        o.nx = nx;
        tlapack::lu_mult(a, o);
        W = mul(L, U);
        G = mul(absM(L), absM(U));
    }
    judge(c, v ? "ul_mult" : "lu_mult", ints, A.ref(), W, G, n, [](int, int) { return true; });
}
FAMILY(multll, 200, 3000)
{
    auto& g = c.rng;
    int n = dim(g, 30), v = (int)(c.idx % 2), nx = g.range(1, 5);
    bool ints = g.coin();
    c.desc("%s n=%d nx=%d ints=%d", v ? "mult_uhu" : "mult_llh", n, nx, ints);
    if (n) c.nt();
    Uplo u = v ? Uplo::Upper : Uplo::Lower;
    Mat<T> A(c, "A", n, n);
    A.set(randM<T>(g, n, n, ints));
    M X = triM(A.ref(), u, Diag::NonUnit);
    maskTri(A, u);
    auto a = A.view();
    if (v) {
        tlapack::mult_uhu_Opts o;
        o.nx = nx;
        tlapack::mult_uhu(a, o);
    }
    else {
        tlapack::mult_llh_Opts o;
        o.nx = nx;
        tlapack::mult_llh(a, o);
    }
    M W = v ? mul(ctr(X), X) : mul(X, ctr(X)), G = v ? mul(absM(ctr(X)), absM(X)) : mul(absM(X), absM(ctr(X)));
    judge(c, v ? "mult_uhu" : "mult_llh", ints, A.ref(), W, G, n, [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(hehe, 160, 3000)
{
    auto& g = c.rng;
    Uplo u = UP2[c.idx % 2];
    bool nobeta = c.idx / 2 % 3 == 0, ints = g.coin();
    int n = dim(g, 20);
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    c.desc("mult_hehe u=%c n=%d ints=%d nobeta=%d al=%g be=%g", ch(u), n, ints, nobeta, (double)re(al), (double)re(be));
    if (n) c.nt();
    Mat<T> A(c, "A", n, n); Mat<T, LayB> B(c, "B", n, n); Mat<T, LayC> C(c, "C", n, n);
    A.set(randM<T>(g, n, n, ints));
    B.set(randM<T>(g, n, n, ints));
    C.set(randM<T>(g, n, n, ints));
    M X = fullM(A.ref(), u, true), Y = fullM(B.ref(), u, true);
    junkDiagImag(c, A);
    junkDiagImag(c, B);
    maskTri(A, u);
    maskTri(B, u);
    if (nobeta) C.junk(c);
    M C0 = nobeta ? M(n, n) : C.ref();
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (nobeta) {
        tlapack::mult_hehe(u, al, a, b, cc);
        be = T(0);
    }
    else tlapack::mult_hehe(u, al, a, b, be, cc);
    M W = scale(toZ(al), mul(X, Y)) + scale(toZ(be), C0);
    M G = scale(abs(toZ(al)), mul(absM(X), absM(Y))) + scale(abs(toZ(be)), absM(C0));
    judge(c, "mult_hehe", ints, C.ref(), W, G, n, [](int, int) { return true; });
}
FAMILY(gemmtr, 360, 5000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 18);
    Uplo u = UP2[o % 2];
    Op ta = OP3[o / 2 % 3], tb = OP3[o / 6 % 3];
    bool ints = g.coin(), ra = g.coin(0.3);
    int n = dim(g, 20), k = dim(g, 20);
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    if (ra) al = T(re(al)), be = T(re(be));
    c.desc("gemmtr u=%c ta=%c tb=%c n=%d k=%d ints=%d al=%g be=%g", ch(u), ch(ta), ch(tb), n, k, ints, (double)re(al), (double)re(be));
    if (n && k) c.nt();
    Mat<T> A(c, "A", ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n);
    Mat<T, LayB> B(c, "B", tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
    Mat<T, LayC> C(c, "C", n, n);
    A.set(randM<T>(g, A.m, A.n, ints));
    B.set(randM<T>(g, B.m, B.n, ints));
    C.set(randM<T>(g, n, n, ints));
    M C0 = C.ref();
    maskTri(C, u);
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (ra) tlapack::gemmtr(u, ta, tb, re(al), a, b, re(be), cc);
    else tlapack::gemmtr(u, ta, tb, al, a, b, be, cc);
    M X = opM(A.ref(), ta), Y = opM(B.ref(), tb);
    M W = scale(toZ(al), mul(X, Y)) + scale(toZ(be), C0);
    M G = scale(abs(toZ(al)), mul(absM(X), absM(Y))) + scale(abs(toZ(be)), absM(C0));
    judge(c, "gemmtr", ints, C.ref(), W, G, k, [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(trmmout, 480, 6000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 24);
    Side s = SD[o % 2];
    Uplo u = UP2[o / 2 % 2];
    Diag d = DG[o / 4 % 2];
    Op tb = OP3[o / 8];
    bool ints = g.coin();
    int m = dim(g, 20), n = dim(g, 20), k = s == Side::Left ? m : n;
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    c.desc("trmm_out s=%c u=%c d=%c tb=%c m=%d n=%d ints=%d al=%g be=%g", ch(s), ch(u), ch(d), ch(tb), m, n, ints, (double)re(al), (double)re(be));
    if (m && n) c.nt();
    Mat<T> A(c, "A", k, k); Mat<T, LayB> B(c, "B", tb == Op::NoTrans ? m : n, tb == Op::NoTrans ? n : m); Mat<T, LayC> C(c, "C", m, n);
    A.set(randM<T>(g, k, k, ints));
    B.set(randM<T>(g, B.m, B.n, ints));
    C.set(randM<T>(g, m, n, ints));
    M X = triM(A.ref(), u, d), C0 = C.ref();
    maskTri(A, u, d);
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    tlapack::trmm_out(s, u, Op::NoTrans, d, tb, al, a, b, be, cc);
    M Y = opM(B.ref(), tb);
    bool L = s == Side::Left;
    M W = scale(toZ(al), L ? mul(X, Y) : mul(Y, X)) + scale(toZ(be), C0);
    M G = scale(abs(toZ(al)), L ? mul(absM(X), absM(Y)) : mul(absM(Y), absM(X))) + scale(abs(toZ(be)), absM(C0));
    judge(c, "trmm_out", ints, C.ref(), W, G, k, [](int, int) { return true; });
}
FAMILY(trmmmixed, 120, 2000)
{
    auto& g = c.rng;
    Diag d = DG[c.idx % 2];
    bool ints = g.coin();
    int m = dim(g, 40), n = dim(g, 16), nb = g.pick<int>({1, 2, 3, 5, 8, 16, 32});
    T al = coef<T>(g, ints);
    c.desc("trmm_blocked_mixed d=%c m=%d n=%d nb=%d ints=%d", ch(d), m, n, nb, ints);
    if (m == 0) return;
    if (m && n) c.nt();
    Mat<T> A(c, "A", m, m); Mat<T, LayB> B(c, "B", m, n);
    A.set(randM<T>(g, m, m, ints));
    B.set(randM<T>(g, m, n, ints));
    M X = triM(A.ref(), Uplo::Upper, d), B0 = B.ref();
    maskTri(A, Uplo::Upper, d);
    A.freeze();
    auto a = A.view();
    auto b = B.view();
    struct { idx_t m, n; } wi{(idx_t)std::min(nb, m), (idx_t)n};
    Work<T> w(c, wi);
    auto wv = w.view();
    tlapack::TrmmBlockedOpts o;
    o.nb = nb;
    tlapack::trmm_blocked_mixed(Side::Left, Uplo::Upper, Op::NoTrans, d, al, a, b, wv, o);
    M W = scale(toZ(al), mul(X, B0)), G = scale(abs(toZ(al)), mul(absM(X), absM(B0)));
    judge(c, "trmm_blocked_mixed", ints, B.ref(), W, G, m, [](int, int) { return true; });
}
FAMILY(trsmtri, 480, 6000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 24);
    Side s = SD[o % 2];
    Uplo u = UP2[o / 2 % 2];
    Diag d = DG[o / 4 % 2];
    Op t = OP3[o / 8];
    int n = dim(g, 24);
    T al = coef<T>(g, false);
    c.desc("trsm_tri s=%c uB=%c t=%c d=%c n=%d al=%g", ch(s), ch(u), ch(t), ch(d), n, (double)re(al));
    if (n) c.nt();
    Uplo ua = t == Op::NoTrans ? u : u == Uplo::Upper ? Uplo::Lower : Uplo::Upper;
    Mat<T> A(c, "A", n, n); Mat<T, LayB> B(c, "B", n, n);
    A.set(wellTri<T>(g, n, false));
    B.set(randM<T>(g, n, n, false));
    M X = opM(triM(A.ref(), ua, d), t), B0 = triM(B.ref(), u, Diag::NonUnit);
    maskTri(A, ua, d);
    maskTri(B, u);
    A.freeze();
    auto a = A.view();
    auto b = B.view();
    tlapack::trsm_tri(s, u, t, d, al, a, b);
    M Y = triM(B.ref(), u, Diag::NonUnit);
    bool L = s == Side::Left;
    M W = L ? mul(X, Y) : mul(Y, X), aB = scale(toZ(al), B0);
    F sc = 1;
    // row/column-wise backward error: recursion uses products of computed blocks
    M G = L ? mul(absM(X), absM(Y)) : mul(absM(Y), absM(X));
    (void)sc;
    F big = nmax(G) + nmax(aB);
    for (auto& z : G.a) z = Z(big);
    cmp(c, "trsm_tri", W, aB, G, 20.0 * (n + 8), [&](int i, int j) { return inTri(u, i, j); });
}
FAMILY(hemm2, 360, 5000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 12);
    Side s = SD[o % 2];
    Uplo u = UP2[o / 2 % 2];
    Op tb = OP3[o / 4];
    bool nobeta = g.coin(0.3), ints = g.coin();
    int m = dim(g, 20), n = dim(g, 20), k = s == Side::Left ? m : n;
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    c.desc("hemm2 s=%c u=%c tb=%c m=%d n=%d ints=%d nobeta=%d al=%g be=%g", ch(s), ch(u), ch(tb), m, n, ints, nobeta, (double)re(al), (double)re(be));
    if (m && n) c.nt();
    Mat<T> A(c, "A", k, k); Mat<T, LayB> B(c, "B", tb == Op::NoTrans ? m : n, tb == Op::NoTrans ? n : m); Mat<T, LayC> C(c, "C", m, n);
    A.set(randM<T>(g, k, k, ints));
    B.set(randM<T>(g, B.m, B.n, ints));
    C.set(randM<T>(g, m, n, ints));
    M X = fullM(A.ref(), u, true);
    junkDiagImag(c, A);
    maskTri(A, u);
    if (nobeta) C.junk(c);
    M C0 = nobeta ? M(m, n) : C.ref();
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (nobeta) {
        if constexpr (requires { tlapack::hemm2(s, u, tb, al, a, b, cc); })
            tlapack::hemm2(s, u, tb, al, a, b, cc);
        else
            c.ok("hemm2.callable", false, "the documented overload without beta cannot be called");
        be = T(0);
    }
    else tlapack::hemm2(s, u, tb, al, a, b, be, cc);
    M Y = opM(B.ref(), tb);
    bool L = s == Side::Left;
    M W = scale(toZ(al), L ? mul(X, Y) : mul(Y, X)) + scale(toZ(be), C0);
    M G = scale(abs(toZ(al)), L ? mul(absM(X), absM(Y)) : mul(absM(Y), absM(X))) + scale(abs(toZ(be)), absM(C0));
    judge(c, "hemm2", ints, C.ref(), W, G, k, [](int, int) { return true; });
}
FAMILY(trtri, 320, 5000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 4);
    Uplo u = UP2[o % 2];
    Diag d = DG[o / 2];
    int n = dim(g, 30);
    int sing = (n > 0 && d == Diag::NonUnit && g.coin(0.2)) ? g.range(0, n - 1) : -1;
    c.desc("trtri u=%c d=%c n=%d sing=%d", ch(u), ch(d), n, sing);
    if (n) c.nt();
    Mat<T> A(c, "C", n, n);
    A.set(wellTri<T>(g, n, false));
    if (sing >= 0) A(sing, sing) = T(0);
    M X = triM(A.ref(), u, d);
    maskTri(A, u, d);
    auto a = A.view();
    tlapack::EcOpts opts;
    opts.ec.internal = false;
    int r = tlapack::trtri_recursive(u, d, a, opts);
    if (sing >= 0) {
        c.ok("trtri.info", r == sing + 1, "info %d want %d", r, sing + 1);
        return;
    }
    c.ok("trtri.ret", r == 0, "info %d", r);
    M Y = triM(A.ref(), u, d);
    M R1 = mul(X, Y) - M::eye(n, n);
    F sX = nrm(X) * nrm(Y);
    c.small("trtri.left_or_right", std::min(nrm(R1), nrm(mul(Y, X) - M::eye(n, n))), sX, 4 * (n + 4));
    c.small("trtri.both", std::max(nrm(R1), nrm(mul(Y, X) - M::eye(n, n))), sX * std::max(F(1), nrm(X) * nrm(Y)), 4 * (n + 4));
}
VK_MAIN
