// C13: Schur factorization of Hessenberg matrices
#include "eigref.hpp"
#include <tlapack/lapack/multishift_qr.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/aggressive_early_deflation.hpp>
#include <tlapack/lapack/multishift_qr_sweep.hpp>
#include <tlapack/lapack/move_bulge.hpp>
#include <tlapack/lapack/lahqr_eig22.hpp>
#include <tlapack/lapack/lahqr_shiftcolumn.hpp>
using namespace vk;
namespace tl = tlapack;
using cplx = tlapack::complex_type<T>;

// check the standard (quasi-)triangular form of T(lo:hi) and its eigenvalues
static bool judgeForm(Case& c, const char* nm, const M& S, int lo, int hi, const std::vector<Z>& w, bool haveW, F nA)
{
    std::string s(nm);
    for (int j = lo; j < hi; ++j)
        for (int i = j + 2; i < hi; ++i) (void)0;
    int i = lo;
    while (i < hi) {
        Z sub = i + 1 < hi ? S(i + 1, i) : Z(0);
        bool two = sub.re != 0 || sub.im != 0;
        if (two && IsC) return c.ok((s + ".form").c_str(), false, "nonzero subdiagonal %Lg at %d", ld(abs(sub)), i);
        if (!two) {
            if (haveW) c.small((s + ".w").c_str(), abs(w[i] - S(i, i)), abs(S(i, i)), 4);
            ++i;
            continue;
        }
        if (i + 2 < hi && S(i + 2, i + 1).re != 0) return c.ok((s + ".form").c_str(), false, "two consecutive nonzero subdiagonals at %d", i);
        F a = S(i, i).re, b = S(i, i + 1).re, cc = S(i + 1, i).re, d = S(i + 1, i + 1).re;
        c.ok((s + ".std").c_str(), a == d, "2x2 block at %d has diagonal %.17Lg %.17Lg", i, ld(a), ld(d));
        c.ok((s + ".std").c_str(), (b > 0 && cc < 0) || (b < 0 && cc > 0), "2x2 block at %d has off-diagonals %Lg %Lg", i, ld(b), ld(cc));
        if (haveW) {
            F im = vsqrt(fabs_(b)) * vsqrt(fabs_(cc)), sc = fabs_(a) + fabs_(b) + fabs_(cc) + rmin();
            Z e1(a, im);
            bool pos = w[i].im > 0;
            Z x = pos ? w[i] : w[i + 1], y = pos ? w[i + 1] : w[i];
            // sqrt of the product of scaled entries loses relative accuracy in the small entry only
            c.small((s + ".w").c_str(), abs(x - e1), sc, 8);
            c.small((s + ".w").c_str(), abs(y - conj(e1)), sc, 8);
        }
        i += 2;
    }
    return true;
}
static void judgeEig(Case& c, const char* nm, const M& A, const std::vector<Z>& w, int lo, int hi, F nA, double slow = 1)
{
    std::string s(nm);
    int n = A.m;
    double thr = 20.0 * (n + 4) * slow;
    M B = sub(A, lo, hi, lo, hi);
    // each eigenvalue is an exact eigenvalue of a nearby matrix
    int cnt = hi - lo, step = std::max(1, cnt / 12);
    for (int i = lo; i < hi; i += step) {
        if (!ffinite(w[i].re) || !ffinite(w[i].im)) { c.ok((s + ".eig").c_str(), false, "eigenvalue %d is not finite", i); return; }
        if (!c.small((s + ".eig").c_str(), sminShift(B, w[i]), nA + rmin() / eps(), thr)) return;
    }
    // power sums fix the multiplicities
    F sc = nA;
    if (sc == 0) return;
    M C = scale(Z(1 / sc), B);
    for (int k = 1; k <= 4; ++k) {
        Z t = trPow(C, k), u;
        for (int i = lo; i < hi; ++i) {
            Z x = w[i] / Z(sc), p = x;
            for (int q = 1; q < k; ++q) p = p * x;
            u += p;
        }
        if (!c.small((s + ".moments").c_str(), abs(t - u), F(k) * vsqrt(F(cnt)), thr)) return;
    }
}

FAMILY(schur, 900, 18000)
{
    auto& g = c.rng;
    int variant = (int)(c.idx % 3), kind = (int)(c.idx / 3 % hN);   // 0 lahqr 1 multishift 2 qr_iteration
    bool wt = g.coin(0.75), wz = g.coin(0.75);
    int n = variant == 0 ? (g.coin(0.2) ? g.range(14, 40) : g.range(0, 12)) : g.range(12, g_thorough ? 90 : 56);
    if (variant == 1 && g.coin(0.06)) n = g.range(75, 100);
    if (g_poison && variant) n = g.range(12, g_thorough ? 24 : 18);  // non-convergence costs 30 n full sweeps
    int nmin = g.pick({15, 15, 18, 30, 75});
    int nsmax = std::max(2, (n - 3) / 6), nwmax = std::max(2, (n - 1) / 3);
    int ns = g.range(2, std::min(nsmax, 12)), nw = g.range(2, std::min(nwmax, 14));
    if (g.coin(0.7)) nw = std::max(nw, ns);
    bool defrec = g.coin(0.25);
    int nib = g.pick({14, 0, 50, 100});
    int lo = 0, hi = n;
    if (n > 0 && g.coin(0.45)) {
        lo = g.range(0, n - 1);
        hi = g.range(lo, n);
        if (g.coin(0.5)) hi = n;
        else if (g.coin(0.5)) lo = 0;
    }
    tl::QRIterationOpts o;
    o.variant = variant == 2 && g.coin(0.3) ? tl::QRIterationVariant::DoubleShift : tl::QRIterationVariant::MultiShift;
    if (!defrec) {
        o.nshift_recommender = [ns](size_t, size_t) -> size_t { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) -> size_t { return nw; };
    }
    o.nmin = nmin;
    o.nibble = nib;
    bool wk = g.coin();
    c.desc("%s n=%d ilo=%d ihi=%d want_t=%d want_z=%d ns=%d nw=%d nmin=%d nibble=%d defrec=%d work=%d variant=%c data=%s",
           variant == 0 ? "lahqr" : variant == 1 ? "multishift_qr" : "qr_iteration", n, lo, hi, wt, wz, ns, nw, nmin, nib, defrec, wk, (char)o.variant, hname(kind));
    if (hi - lo > 1) c.nt();
    Mat<T> A(c, "A", n, n), Zm(c, "Z", n, n);
    Vec<cplx> w(c, "w", n);
    M X = genHess(g, n, kind);
    // leading and trailing parts are (quasi-)triangular
    if (lo > 0 || hi < n) {
        for (int i = 0; i + 1 < n; ++i)
            if (i < lo || i + 1 >= hi) X(i + 1, i) = Z(0);
    }
    A.set(X);
    bool id = g.coin();
    Zm.set(id ? M::eye(n, n) : randUnitary(g, n));
    M A0 = A.ref(), Z0 = Zm.ref();
    if (!wz) Zm.freeze();
    w.junk();
    auto a = A.view(), z = Zm.view();
    auto wv = w.view();
    int info;
    if (variant == 0) info = tl::lahqr(wt, wz, lo, hi, a, wv, z);
    else if (!wk) info = variant == 1 ? tl::multishift_qr(wt, wz, lo, hi, a, wv, z, o) : tl::qr_iteration(wt, wz, lo, hi, a, wv, z, o);
    else {
        auto wi = variant == 1 ? tl::multishift_qr_worksize<T>(wt, wz, lo, hi, a, wv, z, o) : tl::qr_iteration_worksize<T>(wt, wz, lo, hi, a, wv, z, o);
        Work<T> wo(c, wi);
        auto wov = wo.view();
        info = variant == 1 ? tl::multishift_qr_work(wt, wz, lo, hi, a, wv, z, wov, o) : tl::qr_iteration_work(wt, wz, lo, hi, a, wv, z, wov, o);
    }
    M A1 = A.ref(), Z1 = Zm.ref();
    std::vector<Z> ww(n);
    for (int i = lo; i < hi; ++i) ww[i] = toZ(w[i]);
    F nA = nrm(A0);
    if (!c.ok("schur.info", info >= 0 && info <= hi, "info %d", info)) return;
    if (info > 0) {
        c.count("no_convergence");
        // well-behaved data always converges
        c.ok("schur.converge", !kExactInts || kind == hCyclic || kind == hJordan || kind == hSkew || kind == hCompanion, "no convergence (info=%d) on %s", info, hname(kind));
        return;
    }
    c.count("converged");
    // trash below the subdiagonal (documented workspace of the multishift code) is ignored
    M S = A1;
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) S(i, j) = Z(0);
    if (variant == 0) {
        F tr = 0;
        for (int j = 0; j < n; ++j)
            for (int i = j + 2; i < n; ++i) tr = std::max(tr, absm(A1(i, j)));
        c.ok("schur.trash", tr == 0, "lahqr leaves %Lg below the subdiagonal", ld(tr));
    }
    // rounding errors grow with the number of similarity transformations
    double slow = variant == 0 ? 1 : std::max(1.0, (double)o.n_shifts_total / (4.0 * n));
    if (slow > 4) c.count("slow_convergence");
    double thr = 12.0 * (n + 4) * slow;
    if (g_replay) fprintf(stderr, "slow %g sweeps %d aed %d\n", slow, (int)o.n_sweep, (int)o.n_aed);
    if (wt) {
        judgeForm(c, "schur", S, lo, hi, ww, true, nA);
        c.small("schur.norm", fabs_(nrm(S) - nA), nA, thr);
    }
    judgeEig(c, "schur", A0, ww, lo, hi, nA, slow);
    if (wz) c.small("schur.orth", orth(Z1), 1, thr + 10 * n);
    if (wt && wz)
        c.small("schur.res", nrm(mul(mul(Z1, S), ctr(Z1)) - mul(mul(Z0, A0), ctr(Z0))), nA, thr + 10 * n);
    // outside the active block
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= std::min(j + 1, n - 1); ++i) {
            bool out = (i < lo && j < lo) || (i >= hi && j >= hi) || (i < lo && j >= hi) || (!wt && (i < lo || j >= hi));
            if (out) un = std::max(un, absm(A1(i, j) - A0(i, j)));
        }
    c.ok("schur.outside", un == 0, "an entry outside the active block changed by %Lg", ld(un));
}
FAMILY(aed, 400, 8000)
{
    auto& g = c.rng;
    int n = g.range(9, 48), kind = (int)(c.idx % hN), lo = 0, hi = n;
    if (g.coin(0.5)) {
        lo = g.range(0, n - 2);
        hi = g.range(lo + 1, n);
    }
    int nw = g.range(1, std::min(hi - lo, (n - 3) / 3)), nmin = g.pick({15, 75});
    bool wt = g.coin(0.7), wz = g.coin(0.8), wk = g.coin();
    c.desc("aggressive_early_deflation n=%d ilo=%d ihi=%d nw=%d nmin=%d want_t=%d want_z=%d work=%d data=%s", n, lo, hi, nw, nmin, wt, wz, wk, hname(kind));
    c.nt();
    Mat<T> A(c, "A", n, n), Zm(c, "Z", n, n);
    Vec<cplx> s(c, "s", n);
    M X = genHess(g, n, kind);
    // converged bottom rows make deflation likely
    int kw = hi - nw;
    if (kw > lo && g.coin(0.6))
        X(kw, kw - 1) = X(kw, kw - 1) * Z(F(std::pow(10.0, -g.range(0, 20))));
    for (int i = 0; i + 1 < n; ++i)
        if (i + 1 == lo || i + 1 == hi || ((i < lo || i + 1 >= hi) && g.coin())) X(i + 1, i) = Z(0);
    A.set(X);
    Zm.set(g.coin() ? M::eye(n, n) : randUnitary(g, n));
    M A0 = A.ref(), Z0 = Zm.ref();
    s.junk();
    if (!wz) Zm.freeze();
    auto a = A.view(), z = Zm.view();
    auto sv = s.view();
    midx_t ls = 12345, ldd = 12345, nwv = nw;
    tl::FrancisOpts o;
    o.nmin = nmin;
    if (wk) {
        auto wi = tl::aggressive_early_deflation_worksize<T>(wt, wz, lo, hi, nwv, a, sv, z, ls, ldd, o);
        Work<T> wo(c, wi);
        auto wov = wo.view();
        tl::aggressive_early_deflation_work(wt, wz, lo, hi, nwv, a, sv, z, ls, ldd, wov, o);
    }
    else tl::aggressive_early_deflation(wt, wz, lo, hi, nwv, a, sv, z, ls, ldd, o);
    if (!c.ok("aed.count", ls <= (idx_t)nw && ldd <= (idx_t)nw && ls + ldd <= (idx_t)nw, "ns=%zu nd=%zu window %d", ls, ldd, nw)) return;
    c.count("aed_deflated", ldd);
    M A1 = A.ref(), Z1 = Zm.ref(), H = A1;
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) H(i, j) = Z(0);
    F nA = nrm(A0);
    double thr = 20.0 * (n + 4);
    if (wz) c.small("aed.orth", orth(Z1), 1, thr);
    if (wt) c.small("aed.norm", fabs_(nrm(H) - nA), nA, thr);
    if (wt && wz) c.small("aed.res", nrm(mul(mul(Z1, H), ctr(Z1)) - mul(mul(Z0, A0), ctr(Z0))), nA, thr);
    // the deflated part has converged
    int d0 = hi - (int)ldd;
    if (ldd > 0 && d0 > lo) c.ok("aed.deflate", H(d0, d0 - 1).re == 0 && H(d0, d0 - 1).im == 0, "deflation point %d not decoupled: %Lg", d0, ld(abs(H(d0, d0 - 1))));
    std::vector<Z> ww(n);
    for (int i = hi - nw; i < hi; ++i) ww[i] = toZ(s[i]);
    if (ldd > 0) judgeForm(c, "aed", H, d0, hi, ww, true, nA);
    // eigenvalues of the remaining active block plus deflated ones match the original block: trace test
    if (!wt || !wz) {
        M B0 = sub(A0, lo, hi, lo, hi), B1 = sub(H, lo, hi, lo, hi);
        if (nA > 0) {
            B0 = scale(Z(1 / nA), B0);
            B1 = scale(Z(1 / nA), B1);
            for (int k = 1; k <= 4; ++k) c.small("aed.moments", abs(trPow(B0, k) - trPow(B1, k)), F(k) * vsqrt(F(n)), thr);
        }
    }
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= std::min(j + 1, n - 1); ++i) {
            bool out = (i < lo && j < lo) || (i >= hi && j >= hi) || (i < lo && j >= hi) || (!wt && (i < lo || j >= hi)) || (i < hi - nw && j < hi - nw);
            if (out) un = std::max(un, absm(A1(i, j) - A0(i, j)));
        }
    c.ok("aed.outside", un == 0, "an entry outside the window's rows and columns changed by %Lg", ld(un));
}
FAMILY(sweep, 400, 8000)
{
    auto& g = c.rng;
    int n = g.range(12, 60), kind = (int)(c.idx % hN), lo = 0, hi = n;
    if (g.coin(0.5)) {
        lo = g.range(0, n - 3);
        hi = g.range(lo + 3, n);
    }
    int ns = 2 * g.range(1, std::max(1, std::min(8, (n - 3) / 6)));
    bool wt = g.coin(0.7), wz = g.coin(0.8), wk = g.coin();
    c.desc("multishift_QR_sweep n=%d ilo=%d ihi=%d ns=%d want_t=%d want_z=%d work=%d data=%s", n, lo, hi, ns, wt, wz, wk, hname(kind));
    c.nt();
    Mat<T> A(c, "A", n, n), Zm(c, "Z", n, n);
    Vec<cplx> s(c, "s", ns);
    M X = genHess(g, n, kind);
    for (int i = 0; i + 1 < n; ++i)
        if (i + 1 == lo || i + 1 == hi || ((i < lo || i + 1 >= hi) && g.coin())) X(i + 1, i) = Z(0);
    A.set(X);
    Zm.set(g.coin() ? M::eye(n, n) : randUnitary(g, n));
    M A0 = A.ref(), Z0 = Zm.ref();
    F nA = nrm(A0);
    for (int i = 0; i < ns; i += 2) {
        F sc = nA > 0 ? nA / F(n) : F(1);
        R re_ = (R)(sc * F(g.sym())), im_ = g.coin() ? (R)(sc * F(g.u01())) : R(0);
        if (g.coin(0.1)) re_ = im_ = R(0);
        s[i] = cplx(re_, im_);
        s[i + 1] = im_ == R(0) && g.coin() ? cplx((R)(sc * F(g.sym())), R(0)) : cplx(re_, -im_);
    }
    s.freeze();
    if (!wz) Zm.freeze();
    auto a = A.view(), z = Zm.view();
    const auto sv = s.view();
    if (wk) {
        auto wi = tl::multishift_QR_sweep_worksize<T>(wt, wz, lo, hi, a, sv, z);
        Work<T> wo(c, wi);
        auto wov = wo.view();
        tl::multishift_QR_sweep_work(wt, wz, lo, hi, a, sv, z, wov);
    }
    else tl::multishift_QR_sweep(wt, wz, lo, hi, a, sv, z);
    M A1 = A.ref(), Z1 = Zm.ref(), H = A1;
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) H(i, j) = Z(0);
    double thr = 20.0 * (n + 4);
    if (wz) c.small("sweep.orth", orth(Z1), 1, thr);
    if (wt) c.small("sweep.norm", fabs_(nrm(H) - nA), nA, thr);
    if (wt && wz) c.small("sweep.res", nrm(mul(mul(Z1, H), ctr(Z1)) - mul(mul(Z0, A0), ctr(Z0))), nA, thr);
    if (nA > 0) {
        M B0 = scale(Z(1 / nA), sub(A0, lo, hi, lo, hi)), B1 = scale(Z(1 / nA), sub(H, lo, hi, lo, hi));
        for (int k = 1; k <= 4; ++k) c.small("sweep.moments", abs(trPow(B0, k) - trPow(B1, k)), F(k) * vsqrt(F(n)), thr);
    }
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= std::min(j + 1, n - 1); ++i) {
            bool out = (i < lo && j < lo) || (i >= hi && j >= hi) || (i < lo && j >= hi) || (!wt && (i < lo || j >= hi));
            if (out) un = std::max(un, absm(A1(i, j) - A0(i, j)));
        }
    c.ok("sweep.outside", un == 0, "an entry outside the active block changed by %Lg", ld(un));
}
static F p2x(int k)
{
    F r = 1;
    for (; k > 0; --k) r = r * 2;
    for (; k < 0; ++k) r = r / 2;
    return r;
}
// small kernels of the QR algorithm: eigenvalues of a 2x2, first column of the shifted product, one bulge-chasing step
FAMILY(kern, 3000, 60000)
{
    auto& g = c.rng;
    int what = (int)(c.idx % 3);
    auto sv = [&](int d) -> Z {
        int md = g.range(0, 3);
        F q = md == 0 ? F(g.range(-3, 3)) : md == 1 ? F(g.sym()) : md == 2 ? F(0) : F(g.sym()) * p2x(g.range(-d, d));
        F r = md == 0 ? F(g.range(-3, 3)) : md == 1 ? F(g.sym()) : md == 2 ? F(0) : F(g.sym()) * p2x(g.range(-d, d));
        return toZ(Mat<T>::fromZ(Z(q, IsC ? r : F(0))));
    };
    int dg = -std::ilogb((double)eps());
    c.nt();
    if (what == 0) {
        int pw = g.coin(0.3) ? g.range(-5 * dg / 4, 5 * dg / 4) : 0;
        M A(2, 2);
        for (auto& z : A.a) z = toZ(Mat<T>::fromZ(sv(dg) * Z(p2x(pw))));
        if (g.coin(0.2)) A(1, 1) = A(0, 0);
        if (g.coin(0.2)) A(1, 0) = Z(0) - A(0, 1);
        c.desc("lahqr_eig22 [%Lg,%Lg;%Lg,%Lg] scale 2^%d", ld(A(0, 0).re), ld(A(0, 1).re), ld(A(1, 0).re), ld(A(1, 1).re), pw);
        cplx s1, s2;
        tl::lahqr_eig22(Mat<T>::fromZ(A(0, 0)), Mat<T>::fromZ(A(0, 1)), Mat<T>::fromZ(A(1, 0)), Mat<T>::fromZ(A(1, 1)), s1, s2);
        F nA = nrm(A);
        Z w1 = toZ(s1), w2 = toZ(s2);
        c.small("eig22.eig", sminShift(A, w1), nA, 30);
        c.small("eig22.eig", sminShift(A, w2), nA, 30);
        c.small("eig22.trace", abs(w1 + w2 - A(0, 0) - A(1, 1)), nA, 30);
        if (!IsC) c.ok("eig22.conj", (w1.im == 0 && w2.im == 0) || (w1.im == -w2.im && w1.re == w2.re), "complex eigenvalues of a real matrix are not conjugates");
        return;
    }
    auto shifts = [&](cplx& s1, cplx& s2) {
        Z a = sv(3), b = sv(3);
        if (!IsC) {
            if (g.coin()) {
                a = Z(sv(3).re, sv(3).re);
                b = conj(a);
            }
        }
        s1 = cplx((R)a.re, (R)a.im);
        s2 = cplx((R)b.re, (R)b.im);
    };
    if (what == 1) {
        int n = g.range(2, 3);
        c.desc("lahqr_shiftcolumn n=%d", n);
        M H(n, n), v(n, 1);
        for (auto& z : H.a) z = sv(4);
        cplx s1, s2;
        shifts(s1, s2);
        Mat<T> h(c, "H", n, n);
        Vec<T> vv(c, "v", n);
        h.set(H);
        vv.junk();
        h.freeze();
        const auto hv = h.view();
        auto vw = vv.view();
        tl::lahqr_shiftcolumn(hv, vw, s1, s2);
        M A = H, B = H;
        for (int i = 0; i < n; ++i) A(i, i) -= toZ(s1), B(i, i) -= toZ(s2);
        M p = sub(cmul(A, B), 0, n, 0, 1), q = sub(mul(absM(A), absM(B)), 0, n, 0, 1);
        F bound = nmax(q);
        int k = 0;
        for (int i = 0; i < n; ++i)
            if (abs(p(i, 0)) > abs(p(k, 0))) k = i;
        M vr = vv.ref();
        if (abs(p(k, 0)) > F(1e-3) * bound && bound > 0) {
            Z t = vr(k, 0) / p(k, 0);
            c.ok("shiftcol.nonzero", abs(t) > 0, "zero column for a nonzero product");
            for (int i = 0; i < n; ++i) c.small("shiftcol.dir", abs(vr(i, 0) - t * p(i, 0)), abs(t) * bound, 4000);
        }
        else
            for (int i = 0; i < n; ++i) c.ok("shiftcol.finite", ffinite(vr(i, 0).re) && ffinite(vr(i, 0).im), "not finite");
        return;
    }
    // move_bulge
    bool collapsed = g.coin(0.7);
    int md = g.range(0, 3);
    M H(4, 4);
    for (int j = 1; j < 4; ++j)
        for (int i = 0; i < 3; ++i) H(i, j) = sv(3);
    H(0, 0) = sv(3);
    H(3, 3) = sv(3);
    F sc1 = md == 1 ? eps() : md == 2 ? vsqrt(eps()) : md == 3 ? eps() * F(g.range(1, 100)) : F(1);
    H(1, 0) = toZ(Mat<T>::fromZ(sv(3) * Z(sc1)));
    H(2, 0) = toZ(Mat<T>::fromZ(sv(3) * Z(g.coin() ? sc1 : F(1))));
    H(3, 2) = collapsed ? Z(0) : sv(3);
    cplx s1, s2;
    shifts(s1, s2);
    if (collapsed && g.coin(0.6)) {
        // the product of shifts makes the first entry of the shifted column vanish: reflector with |v1| = 1
        H(1, 1) = Z(0);
        H(2, 2) = Z(0);
        Z q = Z(F(g.range(1, 3)));
        if (IsC && g.coin()) {
            // tiny integers: symmetric shifted columns with a complex tau
            auto ti = [&]() { return Z(F(g.range(-1, 1)), F(g.range(-1, 1))); };
            for (int j = 1; j < 4; ++j)
                for (int i = 0; i < 3; ++i) H(i, j) = ti();
            H(3, 2) = Z(0);
            H(1, 0) = g.coin() ? Z(0) : ti(), H(2, 0) = ti();
            s1 = cplx((R)g.range(-1, 1), (R)g.range(-1, 1));
            s2 = cplx((R)g.range(-1, 1), (R)g.range(-1, 1));
        }
        else {
        H(1, 2) = q;
        H(2, 1) = g.coin() ? q : Z(0) - q;
        s1 = H(2, 1).re > 0 ? cplx((R)q.re, R(0)) : cplx(R(0), (R)q.re);
        s2 = g.coin(0.8) ? -s1 : s1;
        if (!IsC && s1.imag() != 0) s2 = std::conj(s1);
        if (IsC ? true : s1.imag() == 0) {
            if (g.coin()) s1 = s1 * (R)(g.range(1, 2)), s2 = s2 * (R)(g.range(1, 2));
        }
        if (g.coin(0.4)) H(1, 0) = Z(0);
        }
    }
    c.desc("move_bulge collapsed=%d scale=%d shifts (%g,%g) (%g,%g)", collapsed, md, (double)s1.real(), (double)s1.imag(), (double)s2.real(), (double)s2.imag());
    // previous reflector
    M x(3, 1);
    for (auto& z : x.a) z = sv(3);
    Mat<T> h(c, "H", 4, 4);
    Vec<T> v(c, "v", 3);
    v.set(x);
    {
        auto vv = v.view();
        T tau;
        tl::larfg(tl::FORWARD, tl::COLUMNWISE_STORAGE, vv, tau);
        vv[0] = tau;
    }
    h.set(H);
    M v0 = v.ref();
    Z tau0 = v0(0, 0), refs = tau0 * v0(2, 0) * H(3, 2);
    auto hv = h.view();
    auto vv = v.view();
    tl::move_bulge(hv, vv, s1, s2);
    M H1 = h.ref(), v1 = v.ref();
    F nH = nrm(H);
    Z e30 = Z(0) - refs, e31 = Z(0) - refs * conj(v0(1, 0)), e32 = H(3, 2) - refs * conj(v0(2, 0));
    c.small("bulge.row", abs(H1(3, 1) - e31), abs(refs * v0(1, 0)), 30);
    c.small("bulge.row", abs(H1(3, 2) - e32), abs(H(3, 2)) + abs(refs * v0(2, 0)), 30);
    // the new reflector is unitary and annihilates the column
    Z tau = v1(0, 0);
    M p(3, 1), col(3, 1);
    p(0, 0) = Z(1), p(1, 0) = v1(1, 0), p(2, 0) = v1(2, 0);
    col(0, 0) = H(1, 0), col(1, 0) = H(2, 0), col(2, 0) = e30;
    F np = nrm(p);
    c.small("bulge.unit", fabs_(tau.re * 2 - (tau.re * tau.re + tau.im * tau.im) * np * np), 1, 60);
    Z d = mul(ctr(p), col)(0, 0) * conj(tau);
    for (int i = 0; i < 3; ++i) col(i, 0) -= d * p(i, 0);
    F sc = nrm(H) ;
    c.small("bulge.col", abs(col(0, 0) - H1(1, 0)), sc, 60);
    c.small("bulge.col", abs(col(1, 0)), sc, 60);
    c.small("bulge.col", abs(col(2, 0)), sc, 60);
    c.ok("bulge.zero", abs(H1(2, 0)) == 0 && abs(H1(3, 0)) == 0, "column not zeroed");
    F un = 0;
    for (int j = 0; j < 4; ++j)
        for (int i = 0; i < 3; ++i)
            if (j > 0 || i == 0) un = std::max(un, absm(H1(i, j) - H(i, j)));
    un = std::max(un, absm(H1(3, 3) - H(3, 3)));
    c.ok("bulge.other", un == 0, "an entry outside the bulge changed by %Lg", ld(un));
    (void)nH;
}
VK_MAIN
