// C21: Tikhonov-regularized least squares
#include "hh.hpp"
#include <tlapack/lapack/tik_bidiag_elden.hpp>
#include <tlapack/lapack/tik_qr.hpp>
#include <tlapack/lapack/tik_svd.hpp>
#include <tlapack/lapack/tkhnv.hpp>
using namespace vk;
namespace tl = tlapack;

FAMILY(tikh, 1600, 40000)
{
    auto& g = c.rng;
    int n = g.coin(0.1) ? g.range(20, 40) : dim(g, 14), m = n + (g.coin(0.3) ? 0 : dim(g, 14)), k = dim(g, 5);
    int var = (int)(c.idx % 6), kind = (int)(c.idx / 6 % dData_N);
    static const char* W[] = {"tkhnv QR", "tkhnv Elden", "tkhnv SVD", "tik_qr", "tik_bidiag_elden", "tik_svd"};
    M X = gen<T>(g, m, n, kind);
    if (g.coin(0.2) && n > 0) {   // structured
        int p = g.range(0, 3);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) {
                if (p == 0 && i > j) X(i, j) = Z(0);
                if (p == 1 && i >= n) X(i, j) = Z(0);
                if (p == 2 && j == n / 2) X(i, j) = Z(0);
                if (p == 3 && i != j) X(i, j) = Z(0);
            }
    }
    roundT(X);
    M B = gen<T>(g, m, k, g.coin(0.7) ? dRandom : g.coin() ? dInt : dSparse);
    roundT(B);
    F nA = nrm(X);
    F lam = g.coin(0.2) ? F(g.range(1, 2)) : F(std::pow(10.0, g.sym() * (g.coin() ? 1 : 6))) * (nA > 0 && ffinite(nA * nA) && nA * nA > rmin() ? nA / vsqrt(F(n + 1)) : F(1));
    if (nA > 0 && g.coin(0.1)) lam = nA;
    R L = (R)lam;
    // stay where squares neither overflow nor underflow
    F big = vsqrt(rmax()) / 4096, small = vsqrt(rmin()) / eps() * 16;
    if (nA > big || (nA > 0 && nA < small) || !(F(L) < big) || F(L) < small) {
        X = M(m, n);
        for (auto& z : X.a) z = toZ(rnd<T>(g));
        nA = nrm(X);
        L = R(0.25 + g.u01());
    }
    lam = F(L);
    c.desc("%s m=%d n=%d k=%d lambda=%.9Lg |A|=%.3Lg data=%s", W[var], m, n, k, ld(lam), ld(nA), dname(kind));
    if (n > 1 && k > 0) c.nt();
    Mat<T> A(c, "A", m, n); Mat<T, LayB> b(c, "b", m, k);
    A.set(X), b.set(B);
    auto a = A.view();
    auto bv = b.view();
    TikOpts o;
    o.variant = var % 3 == 0 ? TikVariant::QR : var % 3 == 1 ? TikVariant::Elden : TikVariant::SVD;
    if (var < 3) tkhnv(a, bv, L, o);
    else if (var == 3) tik_qr(a, bv, L);
    else if (var == 4) tik_bidiag_elden(a, bv, L);
    else tik_svd(a, bv, L);
    if (n == 0 || k == 0) return;
    M x = sub(b.ref(), 0, n, 0, k);
    F nx = nrm(x);
    if (!c.ok("tikh.finite", ffinite(nx), "solution is not finite")) return;
    M r = cmul(ctr(X), B - cmul(X, x)) - scale(Z(lam * lam), x);
    F nb = nrm(B), aug = nA + lam;
    double thr = (var % 3 == 2 ? 20.0 : 6.0) * (m + n + 6);   // the QR SVD iteration stops at up to 100 ulp
    // column by column
    for (int j = 0; j < k; ++j) {
        F xj = nrm(sub(x, 0, n, j, j + 1)), bj = nrm(sub(B, 0, m, j, j + 1));
        F s = nA * (bj + nA * xj) + lam * lam * xj;
        if (var % 3 == 0) s = aug * (bj + aug * xj);   // the QR variant treats [A; lambda I] as a whole
        c.small("tikh.res", nrm(sub(r, 0, n, j, j + 1)), s, thr);
    }
    (void)nb;
}
VK_MAIN
