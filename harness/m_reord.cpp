// C14: reordering of a Schur form and its kernels
#include "eigref.hpp"
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/lahqr_schur22.hpp>
#include <tlapack/lapack/lasy2.hpp>
using namespace vk;
namespace tl = tlapack;
using cplx = tlapack::complex_type<T>;

static std::vector<int> blocks(const M& S)   // starts, with n at the end
{
    std::vector<int> b;
    int i = 0;
    while (i < S.m) {
        b.push_back(i);
        i += (i + 1 < S.m && (S(i + 1, i).re != 0 || S(i + 1, i).im != 0)) ? 2 : 1;
    }
    b.push_back(S.m);
    return b;
}
// eigenvalues of a diagonal block in reference precision
static std::vector<Z> beig(const M& S, int i, int k)
{
    if (k == 1) return {S(i, i)};
    F a = S(i, i).re, b = S(i, i + 1).re, c = S(i + 1, i).re, d = S(i + 1, i + 1).re;
    F h = (a - d) / 2, z = h * h + b * c, m = (a + d) / 2;
    if (z >= 0) {
        F r = vsqrt(z);
        return {Z(m + r), Z(m - r)};
    }
    F r = vsqrt(-z);
    return {Z(m, r), Z(m, -r)};
}
static bool standard(Case& c, const char* nm, const M& S)
{
    std::string s(nm);
    for (int j = 0; j < S.m; ++j)
        for (int i = j + 2; i < S.m; ++i)
            if (abs(S(i, j)) != 0) return c.ok((s + ".form").c_str(), false, "entry (%d,%d)=%Lg below the subdiagonal", i, j, ld(abs(S(i, j))));
    for (int i = 0; i + 1 < S.m; ++i) {
        if (abs(S(i + 1, i)) == 0) continue;
        if (IsC) return c.ok((s + ".form").c_str(), false, "nonzero subdiagonal at %d", i);
        if (i + 2 < S.m && abs(S(i + 2, i + 1)) != 0) return c.ok((s + ".form").c_str(), false, "two consecutive nonzero subdiagonals at %d", i);
        F b = S(i, i + 1).re, cc = S(i + 1, i).re;
        if (!c.ok((s + ".std").c_str(), S(i, i).re == S(i + 1, i + 1).re && ((b > 0 && cc < 0) || (b < 0 && cc > 0)), "2x2 block at %d is not standard: %.17Lg %Lg %Lg %.17Lg", i, ld(S(i, i).re), ld(b), ld(cc), ld(S(i + 1, i + 1).re))) return false;
    }
    return true;
}
// smallest separation of the eigenvalues of two sets
static F gap(const std::vector<Z>& a, const std::vector<Z>& b)
{
    F r = -1;
    for (auto& x : a)
        for (auto& y : b) {
            F d = abs(x - y);
            if (r < 0 || d < r) r = d;
        }
    return r;
}
static F matchDist(const std::vector<Z>& a, const std::vector<Z>& b)
{
    if (a.size() != b.size()) return 1e30;
    if (a.size() == 1) return abs(a[0] - b[0]);
    return std::min(std::max(abs(a[0] - b[0]), abs(a[1] - b[1])), std::max(abs(a[0] - b[1]), abs(a[1] - b[0])));
}
static M genS(Case& c, int n, int kind)
{
    auto& g = c.rng;
    M S = randSchur(g, n, kind);
    if (g.coin(0.15) && n > 1) {   // repeated / nearly repeated eigenvalues
        for (int i = 0; i < n; ++i) {
            bool two = (i + 1 < n && abs(S(i + 1, i)) != 0) || (i > 0 && abs(S(i, i - 1)) != 0);
            if (!two && g.coin(0.6)) S(i, i) = S(0, 0) + Z(eps() * F(g.range(0, 4)));
        }
    }
    if (!IsC && g.coin(0.12)) {   // identical 2x2 blocks
        M B(2, 2);
        B(0, 0) = B(1, 1) = Z(F(g.range(-1, 1)));
        B(0, 1) = Z(1);
        B(1, 0) = Z(-F(g.range(1, 4)) / 4);
        for (int i = 0; i + 1 < n; ++i)
            if (abs(S(i + 1, i)) != 0) {
                for (int p = 0; p < 2; ++p)
                    for (int q = 0; q < 2; ++q) S(i + p, i + q) = B(p, q);
                if (g.coin()) S(i + 1, i) = S(i + 1, i) * Z(1 + eps() * F(g.range(0, 8)));
                ++i;
            }
    }
    roundT(S);
    return S;
}

FAMILY(rswap, 1500, 30000)
{
    auto& g = c.rng;
    int n = g.range(2, g.coin(0.1) ? 24 : 9), kind = (int)(c.idx % dData_N);
    M S = genS(c, n, kind);
    auto b = blocks(S);
    int nb = (int)b.size() - 1;
    if (nb < 2) {
        S = M::eye(n, n);
        for (int i = 0; i < n; ++i) S(i, i) = Z(F(i + 1));
        b = blocks(S);
        nb = (int)b.size() - 1;
    }
    int k = g.range(0, nb - 2), j0 = b[k], n1 = b[k + 1] - j0, n2 = b[k + 2] - b[k + 1];
    // documented extension: a pair of 1x1 blocks may be named as one block of size 2
    bool split = false;
    if (!IsC && g.coin(0.15)) {
        if (n1 == 1 && k + 3 <= nb && n2 == 1 && b[k + 3] - b[k + 2] <= 2 && j0 + 2 < n) {
            n1 = 2;
            n2 = b[k + 3] - b[k + 2];
            split = true;
        }
    }
    bool wq = g.coin(0.8);
    c.desc("schur_swap n=%d j0=%d n1=%d n2=%d want_q=%d split=%d data=%s", n, j0, n1, n2, wq, split, dname(kind));
    c.nt();
    Mat<T> A(c, "A", n, n), Q(c, "Q", n, n);
    A.set(S);
    Q.set(g.coin() ? M::eye(n, n) : randUnitary(g, n));
    M Q0 = Q.ref();
    if (!wq) Q.freeze();
    auto a = A.view(), q = Q.view();
    idx_t J = j0, N1 = n1, N2 = n2;
    int rc = tl::schur_swap(wq, a, q, J, N1, N2);
    M S1 = A.ref(), Q1 = Q.ref();
    F nA = nrm(S), nB = nrm(sub(S, j0, j0 + n1 + n2, j0, j0 + n1 + n2));
    std::vector<Z> e1 = beig(S, j0, n1), e2 = beig(S, j0 + n1, n2);
    F gp = gap(e1, e2);
    if (rc) {
        c.count("rejected");
        c.ok("swap.reject", rc == 1 && n1 == 2 && n2 == 2 && gp < nB * sepF(0.05), "well separated blocks rejected (rc %d, gap %Lg of %Lg)", rc, ld(gp), ld(nB));
        c.ok("swap.rejected", nrm(S1 - S) == 0 && nrm(Q1 - Q0) == 0, "a rejected swap modified the data");
        return;
    }
    double thr = 20.0 * (n + 4);
    if (!standard(c, "swap", S1)) return;
    c.small("swap.norm", fabs_(nrm(S1) - nA), nA, thr);
    if (wq) {
        c.small("swap.orth", orth(Q1), 1, thr);
        c.small("swap.res", nrm(mul(mul(Q1, S1), ctr(Q1)) - mul(mul(Q0, S), ctr(Q0))), nA, thr + 40);
    }
    // untouched parts
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
            bool rowIn = i >= j0 && i < j0 + n1 + n2, colIn = j >= j0 && j < j0 + n1 + n2;
            if (!rowIn && !colIn) un = std::max(un, absm(S1(i, j) - S(i, j)));
        }
    c.ok("swap.outside", un == 0, "an entry outside the rows and columns of the blocks changed by %Lg", ld(un));
    // the blocks changed places
    std::vector<Z> f1 = beig(S1, j0, n2), f2 = beig(S1, j0 + n2, n1);
    if (n1 == 1 && n2 == 1) c.ok("swap.exact", nrm(M(1, 1)) == 0 && absm(f1[0] - e2[0]) == 0 && absm(f2[0] - e1[0]) == 0, "1x1 blocks are not exchanged exactly");
    else if (split) {}
    else if (nB > 0 && gp > nB * sepF(0.02)) {
        c.count("well_separated");
        F d = std::max(matchDist(f1, e2), matchDist(f2, e1));
        c.ok("swap.place", d < gp / 4, "eigenvalues of the swapped blocks are off by %Lg (gap %Lg)", ld(d), ld(gp));
    }
    // spectrum of the pair: power sums
    M P0 = sub(S, j0, j0 + n1 + n2, j0, j0 + n1 + n2), P1 = sub(S1, j0, j0 + n1 + n2, j0, j0 + n1 + n2);
    if (nB > 0) {
        P0 = scale(Z(1 / nB), P0), P1 = scale(Z(1 / nB), P1);
        for (int k = 1; k <= 4; ++k) c.small("swap.moments", abs(trPow(P0, k) - trPow(P1, k)), F(1), 400);
    }
}
FAMILY(rmove, 1200, 24000)
{
    auto& g = c.rng;
    int n = g.coin(0.1) ? g.range(0, 2) : g.range(2, g.coin(0.1) ? 30 : 10), kind = (int)(c.idx % dData_N);
    M S = genS(c, n, kind);
    bool sep = kExactInts && g.coin(0.5);
    if (sep)   // well separated spectrum so that the final order can be judged
        for (int i = 0; i < n; ++i) {
            bool st = i + 1 < n && abs(S(i + 1, i)) != 0;
            F v = F(((i * 7 + 3) % (n + 3)) + 1);
            for (int j = i + 1; j < n; ++j) S(i, j) = S(i, j) * Z(nmax(S) > 0 ? 1 / nmax(S) : F(1));
            if (st) {
                S(i, i) = S(i + 1, i + 1) = Z(v);
                S(i, i + 1) = Z(F(0.5));
                S(i + 1, i) = Z(-F(0.5));
                for (int j = i + 2; j < n; ++j) S(i + 1, j) = S(i + 1, j) * Z(nmax(S) > 0 ? 1 / nmax(S) : F(1));
                ++i;
            }
            else S(i, i) = Z(v);
        }
    roundT(S);
    auto b = blocks(S);
    int nb = (int)b.size() - 1;
    int ifst0 = n ? g.range(0, n - 1) : 0, ilst0 = n ? g.range(0, n - 1) : 0;
    bool wq = g.coin(0.8);
    c.desc("schur_move n=%d ifst=%d ilst=%d want_q=%d sep=%d data=%s", n, ifst0, ilst0, wq, sep, dname(kind));
    if (ifst0 != ilst0) c.nt();
    Mat<T> A(c, "A", n, n), Q(c, "Q", n, n);
    A.set(S);
    Q.set(g.coin() ? M::eye(n, n) : randUnitary(g, n));
    M Q0 = Q.ref();
    if (!wq) Q.freeze();
    auto a = A.view(), q = Q.view();
    midx_t ifst = ifst0, ilst = ilst0;
    int rc = tl::schur_move(wq, a, q, ifst, ilst);
    M S1 = A.ref(), Q1 = Q.ref();
    if (!c.ok("move.rc", rc == 0 || rc == 1, "return code %d", rc)) return;
    F nA = nrm(S);
    double thr = 25.0 * (n + 4);
    if (!standard(c, "move", S1)) return;
    c.small("move.norm", fabs_(nrm(S1) - nA), nA, thr * 2);
    if (wq) {
        c.small("move.orth", orth(Q1), 1, thr * 2);
        c.small("move.res", nrm(mul(mul(Q1, S1), ctr(Q1)) - mul(mul(Q0, S), ctr(Q0))), nA, thr * 3);
    }
    if (nA > 0) {
        M P0 = scale(Z(1 / nA), S), P1 = scale(Z(1 / nA), S1);
        for (int k = 1; k <= 4; ++k) c.small("move.moments", abs(trPow(P0, k) - trPow(P1, k)), vsqrt(F(n)), thr * 4);
    }
    if (n == 0) return;
    int bf = 0, bl = 0;
    for (int k = 0; k < nb; ++k) {
        if (b[k] <= ifst0) bf = k;
        if (b[k] <= ilst0) bl = k;
    }
    c.ok("move.ifst", (int)ifst == b[bf], "ifst %d returned as %zu, its block starts at %d", ifst0, ifst, b[bf]);
    if (rc) {
        c.count("rejected");
        if (sep) c.ok("move.reject", false, "well separated blocks rejected");
        c.ok("move.stop", (int)ilst <= std::max(ifst0, ilst0) && (int)ilst + 1 >= std::min(ifst0, ilst0), "ilst=%zu is not between source and destination", ilst);
        return;
    }
    c.ok("move.ilst", std::llabs((long long)ilst - ilst0) <= 1, "ilst %d returned as %zu", ilst0, ilst);
    // expected order of the blocks
    std::vector<int> ord;
    for (int k = 0; k < nb; ++k)
        if (k != bf) ord.push_back(k);
    ord.insert(ord.begin() + bl, bf);
    bool all1 = nb == n;
    if (!all1 && !sep) return;
    int pos = 0;
    for (int k : ord) {
        int sz = b[k + 1] - b[k];
        if (k == bf) c.ok("move.at", (int)ilst == pos, "the block was moved to %zu instead of %d", ilst, pos);
        auto e = beig(S, b[k], sz);
        if (pos + sz > n) break;
        auto f = beig(S1, pos, sz);
        if (all1) c.ok("move.exact", absm(e[0] - f[0]) == 0, "diagonal entry %d: %.17Lg, expected %.17Lg", pos, ld(f[0].re), ld(e[0].re));
        else if (n <= 10) {
            c.count("order_judged");
            F d = matchDist(e, f);
            c.ok("move.order", d < F(0.3), "block at %d has eigenvalues off by %Lg", pos, ld(d));
        }
        pos += sz;
    }
}
static F rv(Rng& g, int d)
{
    int md = g.range(0, 5);
    F v = md == 0 ? F(g.range(-2, 2)) : md == 1 ? F(0) : md <= 3 ? F(g.sym()) : F(g.sym()) * F(std::ldexp(1.0, g.range(-d, d)));
    return F((R)v);
}
// kernels (real types): Sylvester equation and standardized 2x2 Schur factorization
FAMILY(schur22, 2000, 60000)
{
    auto& g = c.rng;
    int dg = std::numeric_limits<R>::digits;
    F A[4];
    for (auto& x : A) x = rv(g, dg);
    int sp = g.range(0, 9);
    if (sp == 0) A[3] = A[0];
    if (sp == 1) A[3] = A[0], A[2] = -A[1];
    if (sp == 2) A[3] = A[0] + A[0] * eps() * F(g.range(1, 4));
    if (sp == 3) A[2] = -(A[0] - A[3]) * (A[0] - A[3]) / (A[1] == 0 ? F(1) : 4 * A[1]);   // double eigenvalue
    if (sp == 4) A[2] = A[2] * eps();
    if (sp == 5) A[1] = A[1] * eps();
    int pw = 0;
    if (g.coin(0.35)) pw = g.range((EMIN + 2 * dg) , (EMAX - dg - 8));
    F s = 1;
    if (g.coin(0.35)) {
        pw = g.coin() ? g.range(EMIN + 3 * dg, EMAX - dg - 8) : g.range(-dg, dg);
        for (int i = 0; i < pw; ++i) s *= 2;
        for (int i = 0; i > pw; --i) s /= 2;
    }
    else pw = 0;
    for (auto& x : A)
        if (!(fabs_(x * s) < rmax() / 64)) x = F(1) / s;
    R a = (R)(A[0] * s), b = (R)(A[1] * s), cc = (R)(A[2] * s), d = (R)(A[3] * s), cs, sn;
    M X(2, 2);
    X(0, 0) = Z(F(a)), X(0, 1) = Z(F(b)), X(1, 0) = Z(F(cc)), X(1, 1) = Z(F(d));
    c.desc("lahqr_schur22 [%.17Lg,%.17Lg;%.17Lg,%.17Lg] mode %d scale 2^%d", ld(F(a)), ld(F(b)), ld(F(cc)), ld(F(d)), sp, pw);
    c.nt();
    tl::complex_type<R> s1, s2;
    tl::lahqr_schur22(a, b, cc, d, s1, s2, cs, sn);
    M U(2, 2), Y(2, 2);
    U(0, 0) = Z(F(cs)), U(0, 1) = Z(-F(sn)), U(1, 0) = Z(F(sn)), U(1, 1) = Z(F(cs));
    Y(0, 0) = Z(F(a)), Y(0, 1) = Z(F(b)), Y(1, 0) = Z(F(cc)), Y(1, 1) = Z(F(d));
    F nX = nrm(X), tiny = rmin() * 4;
    c.small("schur22.orth", fabs_(F(cs) * F(cs) + F(sn) * F(sn) - 1), 1, 20);
    c.small("schur22.res", nrm(mul(mul(U, Y), ctr(U)) - X), nX + tiny / eps(), 30);
    c.ok("schur22.form", cc == R(0) || (a == d && ((b > 0 && cc < 0) || (b < 0 && cc > 0))), "not a standard block: %.17Lg %.17Lg; %.17Lg %.17Lg", ld(F(a)), ld(F(b)), ld(F(cc)), ld(F(d)));
    if (cc == R(0)) c.ok("schur22.eig", s1 == tl::complex_type<R>(a) && s2 == tl::complex_type<R>(d), "eigenvalues differ from the diagonal");
    else {
        F im = vsqrt(fabs_(F(b))) * vsqrt(fabs_(F(cc)));
        c.ok("schur22.eig", std::real(s1) == a && std::real(s2) == a && std::imag(s1) == -std::imag(s2) && std::imag(s1) > 0, "wrong conjugate pair");
        c.small("schur22.eigim", fabs_(F(std::imag(s1)) - im), im, 8);
    }
}
FAMILY(sylv, 2000, 60000)
{
    auto& g = c.rng;
    int n1, n2;
    switch (g.range(0, 5)) {
        case 0: n1 = n2 = 1; break;
        case 1: n1 = g.range(0, 1), n2 = 0; break;
        default: n1 = n2 = 2;
    }
    bool tL = g.coin(), tR = g.coin();
    int sg = g.coin() ? 1 : -1, md = g.range(0, 5);
    auto fill = [&](int r, int k) {
        M X(r, k);
        for (auto& z : X.a) z = Z(rv(g, 12));
        return X;
    };
    M L = fill(n1, n1), Rm = fill(n2, n2), Bm = fill(n1, n2);
    if (md == 0 && n1 == n2) {   // (nearly) singular equation
        Rm = scale(Z(F(-sg)), L);
        if (n1 && g.coin()) Rm(0, 0) = Rm(0, 0) + Z(eps() * F(g.range(1, 8)) * (fabs_(Rm(0, 0).re) + 1));
    }
    if (md == 1 && n1 == 2 && n2 == 2) {
        L(1, 1) = L(0, 0);
        Rm(1, 1) = Rm(0, 0);
    }
    if (md == 2) {
        F z = F(std::ldexp(1.0L, g.range(-20, 20)));
        L = scale(Z(z), L);
        Rm = scale(Z(z), Rm);
    }
    for (M* x : {&L, &Rm, &Bm})
        for (auto& z : x->a) z = Z(F((R)z.re));
    c.desc("lasy2 n1=%d n2=%d trans=%d%d sgn=%d mode=%d", n1, n2, tL, tR, sg, md);
    if (n1 && n2) c.nt();
    // the factor workspace type is taken from X
    Mat<R> l(c, "TL", n1, n1), r(c, "TR", n2, n2), bb(c, "B", n1, n2), x(c, "X", n1, n2);
    l.set(L), r.set(Rm), bb.set(Bm);
    x.junk(c);
    l.freeze(), r.freeze(), bb.freeze();
    const auto lv = l.view(), rw = r.view(), bv = bb.view();
    auto xv = x.view();
    R sc = R(-7), xn = R(-7);
    int info = tl::lasy2(tL ? tl::Op::Trans : tl::Op::NoTrans, tR ? tl::Op::Trans : tl::Op::NoTrans, sg, lv, rw, bv, sc, xv, xn);
    if (n1 == 0 || n2 == 0) {
        c.ok("lasy2.quick", sc == R(1) && xn == R(0) && info == 0, "quick return scale %Lg xnorm %Lg", ld(F(sc)), ld(F(xn)));
        return;
    }
    M X1 = x.ref();
    for (auto& z : X1.a)
        if (!c.ok("lasy2.finite", ffinite(z.re), "solution is not finite")) return;
    c.ok("lasy2.scale", sc > R(0) && sc <= R(1), "scale %Lg", ld(F(sc)));
    F xinf = 0;
    for (int i = 0; i < n1; ++i) {
        F s = 0;
        for (int j = 0; j < n2; ++j) s += fabs_(X1(i, j).re);
        xinf = std::max(xinf, s);
    }
    c.small("lasy2.xnorm", fabs_(F(xn) - xinf), xinf, 8);
    M res = mul(tL ? tr(L) : L, X1) + scale(Z(F(sg)), mul(X1, tR ? tr(Rm) : Rm)) - scale(Z(F(sc)), Bm);
    F sz = (nmax(L) + nmax(Rm)) * nmax(X1), smin = std::max(eps() * std::max(nmax(L), nmax(Rm)), rmin() / eps());
    if (info == 0) c.small("lasy2.res", nmax(res), sz + F(sc) * nmax(Bm), 60);
    else {
        c.count("perturbed");
        c.bound("lasy2.resp", nmax(res), (sz + F(sc) * nmax(Bm)) * eps() * 60 + smin * nmax(X1) * 4);
        // only a (nearly) singular equation is perturbed
        int N = n1 * n2;
        M K(N, N);
        for (int j = 0; j < n2; ++j)
            for (int i = 0; i < n1; ++i) {
                for (int k = 0; k < n1; ++k) K(i + j * n1, k + j * n1) += tL ? L(k, i) : L(i, k);
                for (int k = 0; k < n2; ++k) K(i + j * n1, i + k * n1) += Z(F(sg)) * (tR ? Rm(j, k) : Rm(k, j));
            }
        c.bound("lasy2.perturb", sminShift(K, Z(0)), 300 * smin);
    }
}
VK_MAIN
