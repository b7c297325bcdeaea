#include "ops.hpp"
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trsm.hpp>
using namespace vk;

static const Op OPS[3] = {Op::NoTrans, Op::Trans, Op::ConjTrans};
static const Uplo UP3[3] = {Uplo::Upper, Uplo::Lower, Uplo::General};
static const Side SD[2] = {Side::Left, Side::Right};
static const Diag DG[2] = {Diag::NonUnit, Diag::Unit};
static double thr(int k) { return 4.0 * (k + 8); }

FAMILY(gemm, 400, 6000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 18);
    Op ta = OPS[o % 3], tb = OPS[o / 3 % 3];
    bool nobeta = o >= 9 && g.coin();
    bool ints = kExactInts && g.coin(), ralpha = g.coin(0.3);
    int m = dim(g), n = dim(g), k = dim(g);
    T alpha = coef<T>(g, ints), beta = coef<T>(g, ints);
    if (ralpha) alpha = T(re(alpha)), beta = T(re(beta));
    c.desc("gemm ta=%c tb=%c m=%d n=%d k=%d ints=%d nobeta=%d ralpha=%d al=%g be=%g", ch(ta), ch(tb), m, n, k, ints,
           nobeta, ralpha, (double)re(alpha), (double)re(beta));
    if (m && n && k) c.nt();
    Mat<T> A(c, "A", ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m);
    Mat<T, LayB> B(c, "B", tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
    Mat<T, LayC> C(c, "C", m, n);
    A.set(randM<T>(g, A.m, A.n, ints));
    B.set(randM<T>(g, B.m, B.n, ints));
    C.set(randM<T>(g, m, n, ints));
    if (nobeta) C.junk(c);
    M C0 = C.ref();
    if (nobeta) C0 = M(m, n);
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (nobeta) {
        if (ralpha) tlapack::gemm(ta, tb, re(alpha), a, b, cc);
        else tlapack::gemm(ta, tb, alpha, a, b, cc);
        beta = T(0);
    }
    else if (ralpha)
        tlapack::gemm(ta, tb, re(alpha), a, b, re(beta), cc);
    else
        tlapack::gemm(ta, tb, alpha, a, b, beta, cc);
    M X = opM(A.ref(), ta), Y = opM(B.ref(), tb);
    M W = scale(toZ(alpha), mul(X, Y)) + scale(toZ(beta), C0);
    M G = scale(abs(toZ(alpha)), mul(absM(X), absM(Y))) + scale(abs(toZ(beta)), absM(C0));
    if (ints) same(c, "gemm.exact", C.ref(), W);
    else cmp(c, "gemm", C.ref(), W, G, thr(k));
}

template <bool herm>
static void do_xmm(Case& c)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 12);
    Side side = SD[o % 2];
    Uplo uplo = UP3[o / 2 % 3];
    bool nobeta = o >= 6 && g.coin(), ints = kExactInts && g.coin();
    int m = dim(g), n = dim(g), k = side == Side::Left ? m : n;
    T alpha = coef<T>(g, ints), beta = coef<T>(g, ints);
    c.desc("%s side=%c uplo=%c m=%d n=%d ints=%d nobeta=%d", herm ? "hemm" : "symm", ch(side), ch(uplo), m, n, ints, nobeta);
    if (m && n) c.nt();
    Mat<T> A(c, "A", k, k); Mat<T, LayB> B(c, "B", m, n); Mat<T, LayC> C(c, "C", m, n);
    A.set(fullM(randM<T>(g, k, k, ints), Uplo::Upper, herm));
    B.set(randM<T>(g, m, n, ints));
    C.set(randM<T>(g, m, n, ints));
    M Af = fullM(A.ref(), uplo, herm);
    if (herm) junkDiagImag(c, A);
    if (nobeta) C.junk(c);
    M C0 = nobeta ? M(m, n) : C.ref();
    maskTri(A, uplo);
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (nobeta) {
        if (herm) tlapack::hemm(side, uplo, alpha, a, b, cc);
        else tlapack::symm(side, uplo, alpha, a, b, cc);
        beta = T(0);
    }
    else {
        if (herm) tlapack::hemm(side, uplo, alpha, a, b, beta, cc);
        else tlapack::symm(side, uplo, alpha, a, b, beta, cc);
    }
    M Br = B.ref();
    bool L = side == Side::Left;
    M W = scale(toZ(alpha), L ? mul(Af, Br) : mul(Br, Af)) + scale(toZ(beta), C0);
    M G = scale(abs(toZ(alpha)), L ? mul(absM(Af), absM(Br)) : mul(absM(Br), absM(Af))) +
          scale(abs(toZ(beta)), absM(C0));
    if (ints) same(c, herm ? "hemm.exact" : "symm.exact", C.ref(), W);
    else cmp(c, herm ? "hemm" : "symm", C.ref(), W, G, thr(k));
}
FAMILY(hemm, 240, 4000) { do_xmm<true>(c); }
FAMILY(symm, 240, 4000) { do_xmm<false>(c); }

template <bool herm>
static void do_rk(Case& c)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 12);
    Uplo uplo = UP3[o % 3];
    Op t = o / 3 % 2 ? (herm ? Op::ConjTrans : Op::Trans) : Op::NoTrans;
    bool nobeta = o >= 6 && g.coin(), ints = kExactInts && g.coin();
    int n = dim(g), k = dim(g);
    using ST = std::conditional_t<herm, R, T>;
    ST alpha = coef<ST>(g, ints), beta = coef<ST>(g, ints);
    c.desc("%s uplo=%c t=%c n=%d k=%d ints=%d nobeta=%d", herm ? "herk" : "syrk", ch(uplo), ch(t), n, k, ints, nobeta);
    if (n && k) c.nt();
    Mat<T> A(c, "A", t == Op::NoTrans ? n : k, t == Op::NoTrans ? k : n); Mat<T, LayC> C(c, "C", n, n);
    A.set(randM<T>(g, A.m, A.n, ints));
    C.set(fullM(randM<T>(g, n, n, ints), Uplo::Upper, herm));
    if (herm) junkDiagImag(c, C);
    if (nobeta) C.junk(c);
    maskTri(C, uplo);
    M C0 = nobeta ? M(n, n) : fullM(C.ref(), uplo, herm);
    A.freeze();
    auto a = A.view();
    auto cc = C.view();
    if (nobeta) {
        if constexpr (herm) tlapack::herk(uplo, t, alpha, a, cc);
        else tlapack::syrk(uplo, t, alpha, a, cc);
        beta = decltype(beta)(0);
    }
    else {
        if constexpr (herm) tlapack::herk(uplo, t, alpha, a, beta, cc);
        else tlapack::syrk(uplo, t, alpha, a, beta, cc);
    }
    M X = t == Op::NoTrans ? A.ref() : (herm ? ctr(A.ref()) : tr(A.ref()));
    M Y = herm ? ctr(X) : tr(X);
    M W = scale(toZ(alpha), mul(X, Y)) + scale(toZ(beta), C0);
    M G = scale(abs(toZ(alpha)), mul(absM(X), absM(Y))) + scale(abs(toZ(beta)), absM(C0));
    auto pr = [&](int i, int j) { return inTri(uplo, i, j); };
    if (ints) cmp(c, herm ? "herk.exact" : "syrk.exact", C.ref(), W, M(n, n), 0, pr);
    else cmp(c, herm ? "herk" : "syrk", C.ref(), W, G, thr(k), pr);
    if (herm)
        for (int i = 0; i < n; ++i)
            c.ok("herk.realdiag", toZ(C(i, i)).im == 0, "diagonal %d has imaginary part", i);
}
FAMILY(herk, 240, 4000) { do_rk<true>(c); }
FAMILY(syrk, 240, 4000) { do_rk<false>(c); }

template <bool herm>
static void do_r2k(Case& c)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 12);
    Uplo uplo = UP3[o % 3];
    Op t = o / 3 % 2 ? (herm ? Op::ConjTrans : Op::Trans) : Op::NoTrans;
    bool nobeta = o >= 6 && g.coin(), ints = kExactInts && g.coin();
    int n = dim(g), k = dim(g);
    using ST = std::conditional_t<herm, R, T>;
    T alpha = coef<T>(g, ints);
    ST beta = coef<ST>(g, ints);
    c.desc("%s uplo=%c t=%c n=%d k=%d ints=%d nobeta=%d", herm ? "her2k" : "syr2k", ch(uplo), ch(t), n, k, ints, nobeta);
    if (n && k) c.nt();
    int am = t == Op::NoTrans ? n : k, an = t == Op::NoTrans ? k : n;
    Mat<T> A(c, "A", am, an); Mat<T, LayB> B(c, "B", am, an); Mat<T, LayC> C(c, "C", n, n);
    A.set(randM<T>(g, am, an, ints));
    B.set(randM<T>(g, am, an, ints));
    C.set(fullM(randM<T>(g, n, n, ints), Uplo::Upper, herm));
    if (herm) junkDiagImag(c, C);
    if (nobeta) C.junk(c);
    maskTri(C, uplo);
    M C0 = nobeta ? M(n, n) : fullM(C.ref(), uplo, herm);
    A.freeze();
    B.freeze();
    auto a = A.view();
    auto b = B.view();
    auto cc = C.view();
    if (nobeta) {
        if constexpr (herm) tlapack::her2k(uplo, t, alpha, a, b, cc);
        else tlapack::syr2k(uplo, t, alpha, a, b, cc);
        beta = decltype(beta)(0);
    }
    else {
        if constexpr (herm) tlapack::her2k(uplo, t, alpha, a, b, beta, cc);
        else tlapack::syr2k(uplo, t, alpha, a, b, beta, cc);
    }
    M X = A.ref(), Y = B.ref(), W, G;
    if (t != Op::NoTrans) { X = herm ? ctr(X) : tr(X); Y = herm ? ctr(Y) : tr(Y); }
    M Xh = herm ? ctr(X) : tr(X), Yh = herm ? ctr(Y) : tr(Y);
    Z al = toZ(alpha), al2 = herm ? conj(al) : al;
    W = scale(al, mul(X, Yh)) + scale(al2, mul(Y, Xh)) + scale(toZ(beta), C0);
    G = scale(abs(al), mul(absM(X), absM(Yh)) + mul(absM(Y), absM(Xh))) + scale(abs(toZ(beta)), absM(C0));
    auto pr = [&](int i, int j) { return inTri(uplo, i, j); };
    if (ints) cmp(c, herm ? "her2k.exact" : "syr2k.exact", C.ref(), W, M(n, n), 0, pr);
    else cmp(c, herm ? "her2k" : "syr2k", C.ref(), W, G, thr(k), pr);
    if (herm)
        for (int i = 0; i < n; ++i)
            c.ok("her2k.realdiag", toZ(C(i, i)).im == 0, "diagonal %d has imaginary part", i);
}
FAMILY(her2k, 240, 4000) { do_r2k<true>(c); }
FAMILY(syr2k, 240, 4000) { do_r2k<false>(c); }

template <bool solve>
static void do_tr(Case& c)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 24);
    Side side = SD[o % 2];
    Uplo uplo = UP3[o / 2 % 2];
    Op t = OPS[o / 4 % 3];
    Diag d = DG[o / 12];
    bool ints = kExactInts && g.coin(), ralpha = g.coin(0.3);
    int m = dim(g), n = dim(g), k = side == Side::Left ? m : n;
    T alpha = coef<T>(g, ints);
    if (ralpha) alpha = T(re(alpha));
    c.desc("%s side=%c uplo=%c t=%c diag=%c m=%d n=%d ints=%d ra=%d", solve ? "trsm" : "trmm", ch(side), ch(uplo), ch(t), ch(d), m, n, ints, ralpha);
    if (m && n) c.nt();
    Mat<T> A(c, "A", k, k); Mat<T, LayB> B(c, "B", m, n);
    A.set(solve ? wellTri<T>(g, k, false) : randM<T>(g, k, k, ints));
    B.set(randM<T>(g, m, n, ints));
    M Af = opM(triM(A.ref(), uplo, d), t), B0 = B.ref();
    maskTri(A, uplo, d);
    A.freeze();
    auto a = A.view();
    auto b = B.view();
    if (solve) {
        if (ralpha) tlapack::trsm(side, uplo, t, d, re(alpha), a, b);
        else tlapack::trsm(side, uplo, t, d, alpha, a, b);
    }
    else {
        if (ralpha) tlapack::trmm(side, uplo, t, d, re(alpha), a, b);
        else tlapack::trmm(side, uplo, t, d, alpha, a, b);
    }
    bool L = side == Side::Left;
    M X = B.ref();
    if (solve) {
        M W = L ? mul(Af, X) : mul(X, Af);
        M aB = scale(toZ(alpha), B0);
        M G = (L ? mul(absM(Af), absM(X)) : mul(absM(X), absM(Af))) + absM(aB);
        cmp(c, "trsm", W, aB, G, thr(k));
    }
    else {
        M W = scale(toZ(alpha), L ? mul(Af, B0) : mul(B0, Af));
        M G = scale(abs(toZ(alpha)), L ? mul(absM(Af), absM(B0)) : mul(absM(B0), absM(Af)));
        if (ints) same(c, "trmm.exact", X, W);
        else cmp(c, "trmm", X, W, G, thr(k));
    }
}
FAMILY(trmm, 360, 5000) { do_tr<false>(c); }
FAMILY(trsm, 360, 5000) { do_tr<true>(c); }

VK_MAIN
