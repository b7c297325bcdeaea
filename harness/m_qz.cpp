// C15: generalized Schur factorization (QZ) of Hessenberg-triangular pencils
#include "geig.hpp"
#include <tlapack/lapack/lahqr_eig22.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/lahqz_schur22.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/multishift_qz_sweep.hpp>
#include <tlapack/lapack/aggressive_early_deflation_generalized.hpp>
using namespace vk;
namespace tl = tlapack;
using cplx = tlapack::complex_type<T>;

// eigenvalues of a real 2x2 block with diagonal P: complex conjugate pair?
static F disc22(const M& S, const M& P, int i)
{
    // quadratic det(S - l P): p l^2 - q l + r
    F p = P(i, i).re * P(i + 1, i + 1).re;
    F q = S(i, i).re * P(i + 1, i + 1).re + S(i + 1, i + 1).re * P(i, i).re - S(i + 1, i).re * P(i, i + 1).re;
    F r = S(i, i).re * S(i + 1, i + 1).re - S(i, i + 1).re * S(i + 1, i).re;
    return q * q - 4 * p * r;
}
// quasi-triangular form; returns false when the structure is broken
static bool judgeForm(Case& c, const char* nm, const M& S, const M& P, int lo, int hi, const std::vector<Z>& al, const std::vector<Z>& be, F nA, F nB)
{
    std::string s(nm);
    int i = lo;
    while (i < hi) {
        bool two = i + 1 < hi && abs(S(i + 1, i)) != 0;
        if (two && IsC) return c.ok((s + ".form").c_str(), false, "nonzero subdiagonal %Lg at %d", ld(abs(S(i + 1, i))), i);
        if (!two) {
            // the pair is defined up to a common factor
            Z d = al[i] * P(i, i) - be[i] * S(i, i);
            if (!c.small((s + ".ab").c_str(), abs(d), abs(al[i]) * abs(P(i, i)) + abs(be[i]) * abs(S(i, i)), 8)) return false;
            ++i;
            continue;
        }
        if (i + 2 < hi && abs(S(i + 2, i + 1)) != 0) return c.ok((s + ".form").c_str(), false, "two consecutive nonzero subdiagonals at %d", i);
        c.ok((s + ".std").c_str(), P(i, i + 1).re == 0 && P(i, i).re >= 0, "B block at %d is not diagonal with nonnegative first entry: %Lg %Lg", i, ld(P(i, i).re), ld(P(i, i + 1).re));
        i += 2;
    }
    return true;
}
static void judgeEig(Case& c, const char* nm, const M& A, const M& B, const std::vector<Z>& al, const std::vector<Z>& be, int lo, int hi, F nA, F nB, double thr)
{
    std::string s(nm);
    M A2 = sub(A, lo, hi, lo, hi), B2 = sub(B, lo, hi, lo, hi);
    int cnt = hi - lo, step = std::max(1, cnt / 12);
    F tinyA = rmin() / eps() / eps();
    std::vector<Z> a2, b2;
    for (int i = lo; i < hi; ++i) {
        if (!ffinite(al[i].re) || !ffinite(al[i].im) || !ffinite(be[i].re) || !ffinite(be[i].im)) {
            c.ok((s + ".eig").c_str(), false, "eigenvalue %d is not finite", i);
            return;
        }
        a2.push_back(al[i]);
        b2.push_back(be[i]);
        if ((i - lo) % step) continue;
        // scale the pair, the pencil (A/nA, B/nB)
        F sa = nA > 0 ? 1 / nA : F(1), sb = nB > 0 ? 1 / nB : F(1);
        Z x = al[i] * Z(sa), y = be[i] * Z(sb);
        F m = std::max(abs(x), abs(y));
        if (!(m > 0)) continue;   // 0/0: singular pencil
        x = x / Z(m), y = y / Z(m);
        M An = scale(Z(sa), A2), Bn = scale(Z(sb), B2);
        if (!c.small((s + ".eig").c_str(), sminShift(An, x, &Bn, y), 1, thr)) return;
    }
    (void)tinyA;
    sameSpectrum(c, (s + ".spectrum").c_str(), A2, B2, a2, b2, nA, nB, thr);
}
struct Pencil {
    Mat<T> A, B, Q, Zm;
    M A0, B0, Q0, Z0;
    F nA, nB;
    Pencil(Case& c, int n) : A(c, "A", n, n), B(c, "B", n, n), Q(c, "Q", n, n), Zm(c, "Z", n, n) {}
    void init(Case& c, const M& X, const M& Y, bool wq, bool wz)
    {
        int n = X.m;
        A.set(X);
        B.set(Y);
        Q.set(c.rng.coin() ? M::eye(n, n) : randUnitary(c.rng, n));
        Zm.set(c.rng.coin() ? M::eye(n, n) : randUnitary(c.rng, n));
        A0 = A.ref(), B0 = B.ref(), Q0 = Q.ref(), Z0 = Zm.ref();
        nA = nrm(A0), nB = nrm(B0);
        if (!wq) Q.freeze();
        if (!wz) Zm.freeze();
    }
    // residuals of the equivalence
    void judge(Case& c, const char* nm, const M& S, const M& P, bool ws, bool wq, bool wz, double thr)
    {
        std::string s(nm);
        M Q1 = Q.ref(), Z1 = Zm.ref();
        if (wq) c.small((s + ".orth").c_str(), orth(Q1), 1, thr);
        if (wz) c.small((s + ".orth").c_str(), orth(Z1), 1, thr);
        if (ws) {
            c.small((s + ".norm").c_str(), fabs_(nrm(S) - nA), nA, thr);
            c.small((s + ".norm").c_str(), fabs_(nrm(P) - nB), nB, thr);
        }
        if (ws && wq && wz) {
            c.small((s + ".resA").c_str(), nrm(mul(mul(Q1, S), ctr(Z1)) - mul(mul(Q0, A0), ctr(Z0))), nA, thr);
            c.small((s + ".resB").c_str(), nrm(mul(mul(Q1, P), ctr(Z1)) - mul(mul(Q0, B0), ctr(Z0))), nB, thr);
        }
        // with one factor missing the other one still carries the row (column) space products
        else if (ws && wq) {
            c.small((s + ".rowsA").c_str(), nrm(mul(mul(Q1, mul(S, ctr(S))), ctr(Q1)) - mul(mul(Q0, mul(A0, ctr(A0))), ctr(Q0))), nA * nA, 2 * thr);
            c.small((s + ".rowsB").c_str(), nrm(mul(mul(Q1, mul(P, ctr(P))), ctr(Q1)) - mul(mul(Q0, mul(B0, ctr(B0))), ctr(Q0))), nB * nB, 2 * thr);
            c.small((s + ".rowsAB").c_str(), nrm(mul(mul(Q1, mul(S, ctr(P))), ctr(Q1)) - mul(mul(Q0, mul(A0, ctr(B0))), ctr(Q0))), nA * nB, 2 * thr);
        }
        else if (ws && wz) {
            c.small((s + ".colsA").c_str(), nrm(mul(mul(Z1, mul(ctr(S), S)), ctr(Z1)) - mul(mul(Z0, mul(ctr(A0), A0)), ctr(Z0))), nA * nA, 2 * thr);
            c.small((s + ".colsB").c_str(), nrm(mul(mul(Z1, mul(ctr(P), P)), ctr(Z1)) - mul(mul(Z0, mul(ctr(B0), B0)), ctr(Z0))), nB * nB, 2 * thr);
            c.small((s + ".colsAB").c_str(), nrm(mul(mul(Z1, mul(ctr(S), P)), ctr(Z1)) - mul(mul(Z0, mul(ctr(A0), B0)), ctr(Z0))), nA * nB, 2 * thr);
        }
    }
    void outside(Case& c, const char* nm, const M& S, const M& P, int lo, int hi, bool ws)
    {
        int n = A0.m;
        F un = 0;
        for (int j = 0; j < n; ++j)
            for (int i = 0; i <= std::min(j + 1, n - 1); ++i) {
                bool out = (i < lo && j < lo) || (i >= hi && j >= hi) || (i < lo && j >= hi) || (!ws && (i < lo || j >= hi));
                if (!out) continue;
                un = std::max(un, absm(S(i, j) - A0(i, j)));
                if (i <= j) un = std::max(un, absm(P(i, j) - B0(i, j)));
            }
        c.ok(nm, un == 0, "an entry outside the active block changed by %Lg", ld(un));
    }
};
static void decouple(Rng& g, M& X, int lo, int hi, bool all)
{
    for (int i = 0; i + 1 < X.m; ++i)
        if (i + 1 == lo || i + 1 == hi || ((i < lo || i + 1 >= hi) && (all || g.coin()))) X(i + 1, i) = Z(0);
}

FAMILY(qz, 900, 18000)
{
    auto& g = c.rng;
    int variant = (int)(c.idx % 2), kind = (int)(c.idx / 2 % hN), bk = (int)(c.idx / 2 / hN % bN);
    if (g.coin(0.3)) bk = bRandom;
    bool ws = g.coin(0.75), wq = g.coin(0.8), wz = g.coin(0.8);
    int n = variant == 0 ? (g.coin(0.2) ? g.range(14, 34) : g.range(0, 12)) : g.range(12, g_thorough ? 80 : 50);
    if (variant == 1 && g.coin(0.06)) n = g.range(75, 96);
    if (g_poison && variant) n = g.range(12, g_thorough ? 24 : 18);  // non-convergence costs 30 n full sweeps
    int nmin = g.pick({15, 15, 18, 30, 75});
    int nsmax = std::max(2, (n - 3) / 6), nwmax = std::max(2, (n - 3) / 3);
    int ns = g.range(2, std::min(nsmax, 12)), nw = g.range(2, std::min(nwmax, 30));
    if (g.coin(0.7)) nw = std::max(nw, ns);
    bool defrec = g.coin(0.25);
    int nib = g.pick({14, 0, 50, 100});
    int lo = 0, hi = n;
    if (n > 0 && g.coin(0.4)) {
        lo = g.range(0, n - 1);
        hi = g.range(lo, n);
        if (g.coin(0.5)) hi = n;
        else if (g.coin(0.5)) lo = 0;
    }
    tl::FrancisOpts o;
    if (!defrec) {
        o.nshift_recommender = [ns](size_t, size_t) -> size_t { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) -> size_t { return nw; };
    }
    o.nmin = nmin;
    o.nibble = nib;
    c.desc("%s n=%d ilo=%d ihi=%d want_s=%d want_q=%d want_z=%d ns=%d nw=%d nmin=%d nibble=%d defrec=%d A=%s B=%s",
           variant == 0 ? "lahqz" : "multishift_qz", n, lo, hi, ws, wq, wz, ns, nw, nmin, nib, defrec, hname(kind), bname(bk));
    if (hi - lo > 1) c.nt();
    Pencil p(c, n);
    M X = genHess(g, n, kind), Y = genB(g, n, bk);
    decouple(g, X, lo, hi, true);
    p.init(c, X, Y, wq, wz);
    Vec<cplx> al(c, "alpha", n);
    Vec<T> be(c, "beta", n);
    al.junk();
    be.junk();
    auto a = p.A.view(), b = p.B.view(), q = p.Q.view(), z = p.Zm.view();
    auto av = al.view();
    auto bv = be.view();
    int info;
    if (variant == 0) {
        try {
            info = tl::lahqz(ws, wq, wz, lo, hi, a, b, av, bv, q, z);
        } catch (const std::runtime_error&) { info = hi; }
    }
    else {
        try {
            info = tl::multishift_qz(ws, wq, wz, lo, hi, a, b, av, bv, q, z, o);
        } catch (const std::runtime_error&) { info = hi; }
    }
    if (!c.ok("qz.info", info >= 0 && info <= hi, "info %d", info)) return;
    if (info > 0) {
        c.count("no_convergence");
        c.ok("qz.converge", (kind != dRandom && kind != hRot && kind != hTri) || (bk != bRandom && bk != bIdent && bk != bDiagNeg), "no convergence (info=%d) on %s", info, hname(kind));
        return;
    }
    c.count("converged");
    M A1 = p.A.ref(), B1 = p.B.ref(), S = upperPart(A1, 1), P = upperPart(B1, 0);
    if (variant == 0) {
        F tr = std::max(nmax(A1 - S), nmax(B1 - P));
        c.ok("qz.trash", tr == 0, "lahqz leaves %Lg below the diagonals", ld(tr));
    }
    std::vector<Z> av2(n), bv2(n);
    for (int i = lo; i < hi; ++i) av2[i] = toZ(al[i]), bv2[i] = toZ(be[i]);
    double slow = variant == 0 ? 1 : std::max(1.0, (double)o.n_shifts_total / (4.0 * n));
    if (slow > 4) c.count("slow_convergence");
    double thr = 20.0 * (n + 4) * slow;
    for (int i = lo; i < hi; ++i) c.count(bv2[i].re == 0 && bv2[i].im == 0 ? "infinite" : "finite");
    if (ws) judgeForm(c, "qz", S, P, lo, hi, av2, bv2, p.nA, p.nB);
    p.judge(c, "qz", S, P, ws, wq, wz, thr);
    judgeEig(c, "qz", p.A0, p.B0, av2, bv2, lo, hi, p.nA, p.nB, thr);
    p.outside(c, "qz.outside", A1, B1, lo, hi, ws);
}
FAMILY(gaed, 400, 8000)
{
    auto& g = c.rng;
    int n = g.range(9, 46), kind = (int)(c.idx % hN), bk = g.coin(0.4) ? bRandom : (int)(c.idx / hN % bN), lo = 0, hi = n;
    if (g.coin(0.08)) n = hi = g.range(60, 80);
    if (g.coin(0.4)) {
        lo = g.range(0, n - 2);
        hi = g.range(lo + 1, n);
    }
    int nw = g.range(1, std::min(hi - lo, (n - 3) / 3)), nmin = g.pick({15, 15, 75});
    if (g.coin(0.3)) nw = std::min(hi - lo, (n - 3) / 3);
    bool ws = g.coin(0.7), wq = g.coin(0.8), wz = g.coin(0.8);
    c.desc("aggressive_early_deflation_generalized n=%d ilo=%d ihi=%d nw=%d nmin=%d want_s=%d want_q=%d want_z=%d A=%s B=%s", n, lo, hi, nw, nmin, ws, wq, wz, hname(kind), bname(bk));
    c.nt();
    Pencil p(c, n);
    M X = genHess(g, n, kind), Y = genB(g, n, bk);
    int kw = hi - nw;
    if (kw > lo && g.coin(0.6)) X(kw, kw - 1) = X(kw, kw - 1) * Z(F(std::pow(10.0, -g.range(0, 20))));
    decouple(g, X, lo, hi, false);
    p.init(c, X, Y, wq, wz);
    Vec<cplx> al(c, "alpha", n);
    Vec<T> be(c, "beta", n);
    al.junk();
    be.junk();
    auto a = p.A.view(), b = p.B.view(), q = p.Q.view(), z = p.Zm.view();
    auto av = al.view();
    auto bv = be.view();
    midx_t ls = 12345, ldd = 12345, nwv = nw;
    tl::FrancisOpts o;
    o.nmin = nmin;
    o.nshift_recommender = [](size_t, size_t) -> size_t { return 2; };
    o.deflation_window_recommender = [](size_t, size_t) -> size_t { return 4; };
    tl::aggressive_early_deflation_generalized(ws, wq, wz, lo, hi, nwv, a, b, av, bv, q, z, ls, ldd, o);
    if (!c.ok("gaed.count", ls <= (idx_t)nw && ldd <= (idx_t)nw && ls + ldd <= (idx_t)nw, "ns=%zu nd=%zu window %d", ls, ldd, nw)) return;
    c.count("aed_deflated", ldd);
    M A1 = p.A.ref(), B1 = p.B.ref(), S = upperPart(A1, 1), P = upperPart(B1, 0);
    double thr = 20.0 * (n + 4);
    p.judge(c, "gaed", S, P, ws, wq, wz, thr);
    int d0 = hi - (int)ldd;
    if (ldd > 0 && d0 > lo) c.ok("gaed.deflate", abs(S(d0, d0 - 1)) == 0, "deflation point %d not decoupled: %Lg", d0, ld(abs(S(d0, d0 - 1))));
    std::vector<Z> a2(n), b2(n);
    for (int i = hi - nw; i < hi; ++i) a2[i] = toZ(al[i]), b2[i] = toZ(be[i]);
    if (ldd > 0) judgeForm(c, "gaed", S, P, d0, hi, a2, b2, p.nA, p.nB);
    p.outside(c, "gaed.outside", A1, B1, lo, hi, ws);
}
FAMILY(gsweep, 400, 8000)
{
    auto& g = c.rng;
    int n = g.range(12, 56), kind = (int)(c.idx % hN), bk = g.coin(0.5) ? bRandom : (int)(c.idx / hN % bN), lo = 0, hi = n;
    if (g.coin(0.5)) {
        lo = g.range(0, n - 3);
        hi = g.range(lo + 3, n);
    }
    int ns = 2 * g.range(1, std::max(1, std::min(8, (n - 3) / 6)));
    bool ws = g.coin(0.7), wq = g.coin(0.8), wz = g.coin(0.8);
    c.desc("multishift_QZ_sweep n=%d ilo=%d ihi=%d ns=%d want_s=%d want_q=%d want_z=%d A=%s B=%s", n, lo, hi, ns, ws, wq, wz, hname(kind), bname(bk));
    c.nt();
    Pencil p(c, n);
    M X = genHess(g, n, kind), Y = genB(g, n, bk);
    decouple(g, X, lo, hi, false);
    // infinite eigenvalues are deflated before a sweep: B is numerically nonsingular
    F nY = nrm(Y);
    if (nY == 0) nY = 1;
    for (int i = lo; i < hi; ++i)
        if (abs(Y(i, i)) <= 4 * eps() * nY) Y(i, i) = Z(F(g.coin() ? nY : nY * F(1e-3)));
    roundT(Y);
    p.init(c, X, Y, wq, wz);
    Vec<cplx> al(c, "alpha", ns);
    Vec<T> be(c, "beta", ns);
    for (int i = 0; i < ns; i += 2) {
        F sc = p.nA > 0 && p.nB > 0 ? p.nA / p.nB : F(1);
        F b1 = F(0.1 + g.u01());
        R re_ = (R)(sc * F(g.sym())), im_ = g.coin() ? (R)(sc * F(g.u01())) : R(0);
        if (g.coin(0.1)) re_ = im_ = R(0);
        al[i] = cplx(re_, im_);
        al[i + 1] = im_ == R(0) && g.coin() ? cplx((R)(sc * F(g.sym())), R(0)) : cplx(re_, -im_);
        be[i] = be[i + 1] = (T)(R)b1;
    }
    al.freeze();
    be.freeze();
    auto a = p.A.view(), b = p.B.view(), q = p.Q.view(), z = p.Zm.view();
    const auto av = al.view();
    const auto bv = be.view();
    tl::multishift_QZ_sweep(ws, wq, wz, lo, hi, a, b, av, bv, q, z);
    M A1 = p.A.ref(), B1 = p.B.ref(), S = upperPart(A1, 1), P = upperPart(B1, 0);
    double thr = 20.0 * (n + 4);
    p.judge(c, "gsweep", S, P, ws, wq, wz, thr);
    p.outside(c, "gsweep.outside", A1, B1, lo, hi, ws);
    if (!ws || !wq || !wz) {
        // spectrum of the active block unchanged
        M S2 = sub(S, lo, hi, lo, hi), P2 = sub(P, lo, hi, lo, hi), S0 = sub(p.A0, lo, hi, lo, hi), P0 = sub(p.B0, lo, hi, lo, hi);
        F sa = p.nA > 0 ? 1 / p.nA : F(1), sb = p.nB > 0 ? 1 / p.nB : F(1);
        for (int k = 0; k < 2; ++k) {
            F m0, m1;
            Z x(sa * F(0.6)), y(sb * F(0.3), sb * F(k ? 0.7 : -0.2));
            F l0 = logdet(S0, P0, x, y, m0), l1 = logdet(S2, P2, x, y, m1);
            if (!(m0 > F(1e-3) / F(n))) continue;
            double tol = thr * n * (double)ld(eps()) * 2 / (double)ld(m0) + 1e-9;
            c.ok("gsweep.spectrum", m1 > 0 && std::fabs((double)ld(l0 - l1)) <= tol, "|det| changed by exp(%g), tolerance %g", (double)ld(l1 - l0), tol);
        }
    }
}
static F p2x(int k)
{
    F r = 1;
    for (; k > 0; --k) r = r * 2;
    for (; k < 0; ++k) r = r / 2;
    return r;
}
FAMILY(gkern, 4000, 80000)
{
    auto& g = c.rng;
    int what = (int)(c.idx % 4);
    int dg = -std::ilogb((double)eps());
    auto sv = [&](int d) -> Z {
        int md = g.range(0, 3);
        F q = md == 0 ? F(g.range(-3, 3)) : md == 1 ? F(g.sym()) : md == 2 ? F(0) : F(g.sym()) * p2x(g.range(-d, d));
        F r = md == 0 ? F(g.range(-3, 3)) : md == 1 ? F(g.sym()) : md == 2 ? F(0) : F(g.sym()) * p2x(g.range(-d, d));
        return toZ(Mat<T>::fromZ(Z(q, IsC ? r : F(0))));
    };
    c.nt();
    if (what <= 1) {
        int pa = g.coin(0.2) ? g.range(-dg, dg) : 0, pb = g.coin(0.2) ? g.range(-dg, dg) : 0, d = g.coin() ? 3 : dg;
        M A(2, 2), B(2, 2);
        for (auto& z : A.a) z = toZ(Mat<T>::fromZ(sv(d) * Z(p2x(pa))));
        for (auto& z : B.a) z = toZ(Mat<T>::fromZ(sv(d) * Z(p2x(pb))));
        B(1, 0) = Z(0);
        if (g.coin(0.1)) B = M::eye(2, 2);
        if (g.coin(0.15)) A(1, 1) = A(0, 0);
        if (g.coin(0.15)) A(1, 0) = Z(0) - A(0, 1);
        F nA = nrm(A), nB = nrm(B), sa = nA > 0 ? 1 / nA : F(1), sb = nB > 0 ? 1 / nB : F(1);
        M An = scale(Z(sa), A), Bn = scale(Z(sb), B);
        auto pair = [&](const char* key, Z x, Z y, double thr) {
            if (!c.ok(key, ffinite(x.re) && ffinite(x.im) && ffinite(y.re) && ffinite(y.im), "eigenvalue pair not finite")) return;
            x = x * Z(sa), y = y * Z(sb);
            F m = std::max(abs(x), abs(y));
            if (!(m > 0)) return;
            c.small(key, sminShift(An, x / Z(m), &Bn, y / Z(m)), 1, thr);
        };
        cplx a1, a2;
        Mat<T> Am(c, "A", 2, 2), Bm(c, "B", 2, 2);
        Am.set(A);
        Bm.set(B);
        c.desc("%s A=[%Lg,%Lg;%Lg,%Lg] B=[%Lg,%Lg;0,%Lg]", what == 0 ? "lahqz_eig22" : "lahqz_schur22", ld(A(0, 0).re), ld(A(0, 1).re), ld(A(1, 0).re), ld(A(1, 1).re), ld(B(0, 0).re), ld(B(0, 1).re), ld(B(1, 1).re));
        if (what == 0) {
            Am.freeze();
            Bm.freeze();
            const auto av = Am.view(), bv = Bm.view();
            T b1, b2;
            tl::lahqz_eig22(av, bv, a1, a2, b1, b2);
            // the kernel treats a relatively tiny diagonal of B as zero: relative threshold sqrt(safmin)
            pair("geig22.eig", toZ(a1), toZ(b1), 60);
            pair("geig22.eig", toZ(a2), toZ(b2), 60);
            std::vector<Z> al = {toZ(a1), toZ(a2)}, be = {toZ(b1), toZ(b2)};
            bool zero = (abs(al[0]) == 0 && abs(be[0]) == 0) || (abs(al[1]) == 0 && abs(be[1]) == 0);
            if (!zero) sameSpectrum(c, "geig22.spectrum", A, B, al, be, nA, nB, 200);
            return;
        }
        auto av = Am.view(), bv = Bm.view();
        R b1, b2, cl, cr;
        T sl, sr, s0, s1;
        tl::lahqz_schur22(av, bv, a1, a2, b1, b2, cl, sl, cr, sr, s0, s1);
        M S = Am.ref(), P = Bm.ref();
        M Q(2, 2), Zr(2, 2), D(2, 2);
        Z clz{F(cl)}, crz{F(cr)}, slz = toZ(sl), srz = toZ(sr);
        Q(0, 0) = clz, Q(0, 1) = Z(0) - slz, Q(1, 0) = conj(slz), Q(1, 1) = clz;
        Zr(0, 0) = crz, Zr(0, 1) = Z(0) - conj(srz), Zr(1, 0) = srz, Zr(1, 1) = crz;
        D(0, 0) = toZ(s0), D(1, 1) = toZ(s1);
        Zr = mul(Zr, D);
        c.small("schur22.orth", orth(Q), 1, 40);
        c.small("schur22.orth", orth(Zr), 1, 40);
        c.small("schur22.resA", nrm(mul(mul(Q, S), ctr(Zr)) - A), nA + rmin(), 60);
        c.small("schur22.resB", nrm(mul(mul(Q, P), ctr(Zr)) - B), nB + rmin(), 60);
        c.ok("schur22.B", abs(P(1, 0)) == 0 && P(0, 0).re >= 0 && P(1, 1).re >= 0 && P(0, 0).im == 0 && P(1, 1).im == 0, "diag(T) = (%Lg,%Lg),(%Lg,%Lg) T21=%Lg", ld(P(0, 0).re), ld(P(0, 0).im), ld(P(1, 1).re), ld(P(1, 1).im), ld(abs(P(1, 0))));
        if (abs(S(1, 0)) != 0) {
            c.ok("schur22.form", !IsC && P(0, 1).re == 0, "full S but T12=%Lg", ld(abs(P(0, 1))));
            if (!IsC) {
                F d = disc22(S, P, 0);
                F qq = nrm(S) * nrm(P);
                c.ok("schur22.pair", d <= 200 * eps() * qq * qq, "full block with well separated real eigenvalues (discriminant %Lg, scale %Lg)", ld(d), ld(qq * qq));
            }
        }
        else {
            c.small("schur22.ab", abs(toZ(a1) - S(0, 0)) + fabs_(F(b1) - P(0, 0).re), nA + nB, 2);
            c.small("schur22.ab", abs(toZ(a2) - S(1, 1)) + fabs_(F(b2) - P(1, 1).re), nA + nB, 2);
        }
        pair("schur22.eig", toZ(a1), Z(F(b1)), 60);
        pair("schur22.eig", toZ(a2), Z(F(b2)), 60);
        return;
    }
    if (what == 2) {
        int n = g.range(2, 3);
        c.desc("lahqz_shiftcolumn n=%d", n);
        M A(n, n), B(n, n);
        for (auto& z : A.a) z = sv(4);
        for (auto& z : B.a) z = sv(4);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i) {
                if (i > j + 1) A(i, j) = Z(0);
                if (i > j) B(i, j) = Z(0);
                if (i == j && abs(B(i, j)) < F(1e-3)) B(i, j) = Z(1);
            }
        Z x = sv(3), y = sv(3), b1, b2;
        if (!IsC && n == 3 && g.coin()) x = Z(sv(3).re, sv(3).re), y = conj(x);
        b1 = Z(F(g.range(1, 4)) / 2), b2 = (!IsC && x.im != 0) || g.coin() ? b1 : Z(F(g.range(1, 4)) / 2);
        if (g.coin(0.25)) x = A(0, 0) * b1 / B(0, 0), x = toZ(Mat<T>::fromZ(x));
        if (g.coin(0.15)) A(1, 0) = Z(0);
        cplx s1((R)x.re, (R)x.im), s2((R)y.re, (R)y.im);
        x = toZ(s1);
        if (!IsC && x.im != 0) s2 = std::conj(s1), b2 = b1;
        else if (!IsC) s2 = cplx(s2.real(), R(0));
        y = toZ(s2);
        Mat<T> am(c, "A", n, n), bm(c, "B", n, n);
        Vec<T> v(c, "v", n);
        am.set(A);
        bm.set(B);
        am.freeze();
        bm.freeze();
        v.junk();
        const auto av = am.view(), bv = bm.view();
        auto vv = v.view();
        tl::lahqz_shiftcolumn(av, bv, vv, s1, s2, Mat<T>::fromZ(b1), Mat<T>::fromZ(b2));
        // (b2 A - s2 B) B^-1 (b1 A - s1 B) [B^-1] e1, B^-1 e1 a multiple of e1
        M w(n, 1), r(n, 1);
        F sc;
        for (int i = 0; i < std::min(n, 2); ++i) w(i, 0) = b1 * A(i, 0) - x * B(i, 0);
        F wsc = abs(b1) * nrm(A) + abs(x) * nrm(B);
        if (n == 2) r = w, sc = wsc;
        else {
            M u(2, 1);
            u(1, 0) = w(1, 0) / B(1, 1);
            u(0, 0) = (w(0, 0) - B(0, 1) * u(1, 0)) / B(0, 0);
            F usc = wsc * (1 / abs(B(0, 0)) + (1 + abs(B(0, 1)) / abs(B(0, 0))) / abs(B(1, 1)));
            for (int i = 0; i < 3; ++i)
                for (int k = 0; k < 2; ++k) r(i, 0) += (b2 * A(i, k) - y * B(i, k)) * u(k, 0);
            sc = usc * (abs(b2) * nrm(A) + abs(y) * nrm(B));
        }
        M vr = v.ref();
        int k = 0;
        for (int i = 0; i < n; ++i) {
            c.ok("gshiftcol.finite", ffinite(vr(i, 0).re) && ffinite(vr(i, 0).im), "entry %d not finite", i);
            if (abs(r(i, 0)) > abs(r(k, 0))) k = i;
        }
        if (abs(r(k, 0)) > F(1e-4) * sc) {
            Z t = vr(k, 0) / r(k, 0);
            c.ok("gshiftcol.nonzero", abs(t) > 0, "zero column for a nonzero product");
            for (int i = 0; i < n; ++i) c.small("gshiftcol.dir", abs(vr(i, 0) - t * r(i, 0)), abs(t) * sc, 4000);
        }
        return;
    }
    // inv_house3: the reflector zeroes the first column of a 2x3 matrix from the right
    M A(2, 3);
    int d = g.coin() ? 3 : dg;
    for (auto& z : A.a) z = sv(d);
    if (g.coin(0.2)) A(1, 0) = A(0, 0), A(1, 1) = A(0, 1), A(1, 2) = A(0, 2);
    if (g.coin(0.1)) A(1, 0) = Z(0), A(0, 0) = Z(0);
    c.desc("inv_house3 [%Lg,%Lg,%Lg;%Lg,%Lg,%Lg]", ld(A(0, 0).re), ld(A(0, 1).re), ld(A(0, 2).re), ld(A(1, 0).re), ld(A(1, 1).re), ld(A(1, 2).re));
    Mat<T> am(c, "A", 2, 3);
    Vec<T> v(c, "v", 3);
    am.set(A);
    am.freeze();
    v.junk();
    const auto av = am.view();
    auto vv = v.view();
    T tau;
    tl::inv_house3(av, vv, tau);
    M x = v.ref();
    x(0, 0) = Z(1);
    Z t = toZ(tau);
    F np = nrm(x);
    c.small("invh.unit", fabs_(t.re * 2 - (t.re * t.re + t.im * t.im) * np * np), 1, 60);
    // A H, H = I - tau v v^H (as applied by the QZ code with conj(conj(tau)))
    for (int i = 0; i < 2; ++i) {
        Z s;
        F rn = 0;
        for (int k = 0; k < 3; ++k) s += A(i, k) * x(k, 0), rn = std::max(rn, abs(A(i, k)));
        // rounding errors are relative to the norm of the matrix (full pivoting)
        c.small("invh.zero", abs(A(i, 0) - s * t), nmax(A) + rmin() / eps(), 60);
    }
}
VK_MAIN
