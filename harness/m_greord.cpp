// C16: reordering of a generalized Schur form
#include "geig.hpp"
#include <tlapack/lapack/generalized_schur_swap.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
using namespace vk;
namespace tl = tlapack;

static std::vector<int> blocks(const M& S)   // starts, with n at the end
{
    std::vector<int> b;
    int i = 0;
    while (i < S.m) {
        b.push_back(i);
        i += (i + 1 < S.m && (S(i + 1, i).re != 0 || S(i + 1, i).im != 0)) ? 2 : 1;
    }
    b.push_back(S.m);
    return b;
}
struct AB { Z a, b; };   // homogeneous eigenvalue
// eigenvalues of a diagonal block (1x1, or 2x2 with upper triangular P) of the pencil scaled by sa, sb
static std::vector<AB> beig(const M& S, const M& P, int i, int k, F sa, F sb)
{
    if (k == 1) return {{S(i, i) * Z(sa), P(i, i) * Z(sb)}};
    F a = S(i, i).re * sa, b = S(i, i + 1).re * sa, c = S(i + 1, i).re * sa, d = S(i + 1, i + 1).re * sa;
    F p1 = P(i, i).re * sb, p2 = P(i + 1, i + 1).re * sb, p3 = P(i, i + 1).re * sb;
    F p = p1 * p2, q = a * p2 + d * p1 - c * p3, r = a * d - b * c;
    F D = q * q - 4 * p * r;
    if (D < 0) {
        F im = vsqrt(-D);
        return {{Z(q, im), Z(2 * p)}, {Z(q, -im), Z(2 * p)}};
    }
    F s = vsqrt(D), t = q >= 0 ? q + s : q - s;
    return {{Z(t), Z(2 * p)}, {Z(2 * r), Z(t)}};
}
static F chord(const AB& x, const AB& y)
{
    F n1 = vsqrt(abs2(x.a) + abs2(x.b)), n2 = vsqrt(abs2(y.a) + abs2(y.b));
    if (!(n1 > 0) || !(n2 > 0)) return 0;
    return abs(x.a * y.b - x.b * y.a) / n1 / n2;
}
static F gap(const std::vector<AB>& a, const std::vector<AB>& b)
{
    F r = 2;
    for (auto& x : a)
        for (auto& y : b) r = std::min(r, chord(x, y));
    return r;
}
static F matchDist(const std::vector<AB>& a, const std::vector<AB>& b)
{
    if (a.size() != b.size()) return 2;
    if (a.size() == 1) return chord(a[0], b[0]);
    return std::min(std::max(chord(a[0], b[0]), chord(a[1], b[1])), std::max(chord(a[0], b[1]), chord(a[1], b[0])));
}
static F leastPair(const std::vector<AB>& a)
{
    F r = 2;
    for (auto& x : a) r = std::min(r, std::max(abs(x.a), abs(x.b)));
    return r;
}
static bool formOK(Case& c, const char* nm, const M& S, const M& P, int lo, int hi)
{
    std::string s(nm);
    int n = S.m;
    for (int j = 0; j < n; ++j) {
        for (int i = j + 2; i < n; ++i)
            if (abs(S(i, j)) != 0) return c.ok((s + ".form").c_str(), false, "S(%d,%d)=%Lg below the subdiagonal", i, j, ld(abs(S(i, j))));
        for (int i = j + 1; i < n; ++i)
            if (abs(P(i, j)) != 0) return c.ok((s + ".form").c_str(), false, "P(%d,%d)=%Lg below the diagonal", i, j, ld(abs(P(i, j))));
    }
    for (int i = 0; i + 1 < n; ++i) {
        if (abs(S(i + 1, i)) == 0) continue;
        if (IsC) return c.ok((s + ".form").c_str(), false, "nonzero subdiagonal at %d", i);
        if (i + 2 < n && abs(S(i + 2, i + 1)) != 0) return c.ok((s + ".form").c_str(), false, "two consecutive nonzero subdiagonals at %d", i);
        if (i >= lo && i < hi)
            if (!c.ok((s + ".std").c_str(), P(i, i + 1).re == 0 && P(i, i).re >= 0 && P(i + 1, i + 1).re >= 0, "the 2x2 block of P at %d is not a nonnegative diagonal: %Lg %Lg %Lg", i, ld(P(i, i).re), ld(P(i, i + 1).re), ld(P(i + 1, i + 1).re))) return false;
    }
    return true;
}
static void genSP(Case& c, int n, int kind, int bk, M& S, M& P)
{
    auto& g = c.rng;
    S = randSchur(g, n, kind);
    P = genB(g, n, bk);
    F sp = nmax(P) > 0 ? nmax(P) : F(1);
    for (int i = 0; i + 1 < n; ++i)
        if (abs(S(i + 1, i)) != 0) {
            P(i, i + 1) = Z(0);
            for (int q = 0; q < 2; ++q) {
                F v = fabs_(P(i + q, i + q).re);
                if (v < sp * F(0.01)) v = sp * F(0.05 + g.u01());
                P(i + q, i + q) = Z(F(R(v)));
            }
            // same real part for both halves
            S(i + 1, i + 1) = Z(S(i, i).re * P(i + 1, i + 1).re / P(i, i).re);
        }
    if (g.coin(0.15) && n > 1)   // repeated / nearly repeated eigenvalues
        for (int i = 0; i < n; ++i) {
            bool two = (i + 1 < n && abs(S(i + 1, i)) != 0) || (i > 0 && abs(S(i, i - 1)) != 0);
            bool two0 = abs(S(1, 0)) != 0;
            if (!two && !two0 && g.coin(0.6)) S(i, i) = S(0, 0) + Z(eps() * F(g.range(0, 4))), P(i, i) = P(0, 0);
        }
    roundT(S);
    roundT(P);
}
struct Pencil {
    Mat<T> A, B, Q, Zm;
    M Q0, Z0;
    F nA, nB;
    Pencil(Case& c, int n) : A(c, "A", n, n), B(c, "B", n, n), Q(c, "Q", n, n), Zm(c, "Z", n, n) {}
    void init(Case& c, const M& S, const M& P, bool wq, bool wz)
    {
        int n = S.m;
        A.set(S);
        B.set(P);
        Q.set(c.rng.coin() ? M::eye(n, n) : randUnitary(c.rng, n));
        Zm.set(c.rng.coin() ? M::eye(n, n) : randUnitary(c.rng, n));
        Q0 = Q.ref(), Z0 = Zm.ref();
        nA = nrm(S), nB = nrm(P);
        if (!wq) Q.freeze();
        if (!wz) Zm.freeze();
    }
    void judge(Case& c, const char* nm, const M& S, const M& P, const M& S1, const M& P1, bool wq, bool wz, double thr)
    {
        std::string s(nm);
        M Q1 = Q.ref(), Z1 = Zm.ref();
        c.small((s + ".norm").c_str(), fabs_(nrm(S1) - nA), nA, thr);
        c.small((s + ".norm").c_str(), fabs_(nrm(P1) - nB), nB, thr);
        if (wq) c.small((s + ".orth").c_str(), orth(Q1), 1, thr);
        if (wz) c.small((s + ".orth").c_str(), orth(Z1), 1, thr);
        if (wq && wz) {
            c.small((s + ".resA").c_str(), nrm(mul(mul(Q1, S1), ctr(Z1)) - mul(mul(Q0, S), ctr(Z0))), nA, thr);
            c.small((s + ".resB").c_str(), nrm(mul(mul(Q1, P1), ctr(Z1)) - mul(mul(Q0, P), ctr(Z0))), nB, thr);
        }
        // with one factor missing the other one still carries the row (column) space products
        else if (wq) {
            c.small((s + ".rowsA").c_str(), nrm(mul(mul(Q1, mul(S1, ctr(S1))), ctr(Q1)) - mul(mul(Q0, mul(S, ctr(S))), ctr(Q0))), nA * nA, 2 * thr);
            c.small((s + ".rowsB").c_str(), nrm(mul(mul(Q1, mul(P1, ctr(P1))), ctr(Q1)) - mul(mul(Q0, mul(P, ctr(P))), ctr(Q0))), nB * nB, 2 * thr);
            c.small((s + ".rowsAB").c_str(), nrm(mul(mul(Q1, mul(S1, ctr(P1))), ctr(Q1)) - mul(mul(Q0, mul(S, ctr(P))), ctr(Q0))), nA * nB, 2 * thr);
        }
        else if (wz) {
            c.small((s + ".colsA").c_str(), nrm(mul(mul(Z1, mul(ctr(S1), S1)), ctr(Z1)) - mul(mul(Z0, mul(ctr(S), S)), ctr(Z0))), nA * nA, 2 * thr);
            c.small((s + ".colsB").c_str(), nrm(mul(mul(Z1, mul(ctr(P1), P1)), ctr(Z1)) - mul(mul(Z0, mul(ctr(P), P)), ctr(Z0))), nB * nB, 2 * thr);
            c.small((s + ".colsAB").c_str(), nrm(mul(mul(Z1, mul(ctr(S1), P1)), ctr(Z1)) - mul(mul(Z0, mul(ctr(S), P)), ctr(Z0))), nA * nB, 2 * thr);
        }
    }
};
static bool spectrum(Case& c, const char* key, const M& S, const M& P, const M& S1, const M& P1, double thr)
{
    auto b = blocks(S1);
    std::vector<Z> al, be;
    for (size_t k = 0; k + 1 < b.size(); ++k)
        for (auto& e : beig(S1, P1, b[k], b[k + 1] - b[k], 1, 1)) {
            al.push_back(e.a);
            be.push_back(e.b);
        }
    // homogeneous pairs of 2x2 blocks: rescale so that the product of the forms is the determinant
    size_t p = 0;
    for (size_t k = 0; k + 1 < b.size(); ++k) {
        if (b[k + 1] - b[k] == 2) {
            // (a S + b P) determinant = product of forms / (4 p) for the complex case
            F den = abs(be[p]) > 0 ? abs(be[p]) : F(1);
            Z bb = be[p];
            (void)den;
            if (al[p].im != 0) {
                F s = vsqrt(2 * fabs_(bb.re));
                for (int q = 0; q < 2; ++q) al[p + q] = al[p + q] / Z(s), be[p + q] = be[p + q] / Z(s);
            }
            else return true;
        }
        p += b[k + 1] - b[k];
    }
    return sameSpectrum(c, key, S, P, al, be, nrm(S), nrm(P), thr);
}

FAMILY(gswap, 2000, 40000)
{
    auto& g = c.rng;
    int n = g.range(2, g.coin(0.1) ? 20 : 8), kind = (int)(c.idx % dData_N), bk = g.coin(0.4) ? bRandom : (int)(c.idx / dData_N % bN);
    M S, P;
    genSP(c, n, kind, bk, S, P);
    auto b = blocks(S);
    int nb = (int)b.size() - 1;
    if (nb < 2) {
        S = M::eye(n, n);
        P = M::eye(n, n);
        for (int i = 0; i < n; ++i) S(i, i) = Z(F(i + 1));
        b = blocks(S);
        nb = (int)b.size() - 1;
    }
    int k = g.range(0, nb - 2), j0 = b[k], n1 = b[k + 1] - j0, n2 = b[k + 2] - b[k + 1];
    bool split = false;   // a pair of 1x1 blocks named as one block of size 2
    if (!IsC && g.coin(0.15) && n1 == 1 && k + 3 <= nb && n2 == 1 && j0 + 2 < n) {
        n1 = 2;
        n2 = b[k + 3] - b[k + 2];
        split = true;
    }
    bool wq = g.coin(0.75), wz = g.coin(0.75);
    c.desc("generalized_schur_swap n=%d j0=%d n1=%d n2=%d want_q=%d want_z=%d split=%d S=%s P=%s", n, j0, n1, n2, wq, wz, split, dname(kind), bname(bk));
    c.nt();
    Pencil p(c, n);
    p.init(c, S, P, wq, wz);
    auto a = p.A.view(), bb = p.B.view(), q = p.Q.view(), z = p.Zm.view();
    idx_t J = j0, N1 = n1, N2 = n2;
    int rc = tl::generalized_schur_swap(wq, wz, a, bb, q, z, J, N1, N2);
    int m = n1 + n2;
    M S1 = p.A.ref(), P1 = p.B.ref(), Q1 = p.Q.ref(), Z1 = p.Zm.ref();
    M Sb = sub(S, j0, j0 + m, j0, j0 + m), Pb = sub(P, j0, j0 + m, j0, j0 + m);
    F lA = nrm(Sb), lB = nrm(Pb), sa = lA > 0 ? 1 / lA : F(1), sb = lB > 0 ? 1 / lB : F(1);
    auto e1 = beig(S, P, j0, n1, sa, sb), e2 = beig(S, P, j0 + n1, n2, sa, sb);
    F gp = gap(e1, e2), lp = std::min(leastPair(e1), leastPair(e2));
    if (n1 == 2 || n2 == 2) {
        // pairs of 2x2 blocks come with an extra factor
        lp = 1;
        for (int i = j0; i < j0 + m; ++i) lp = std::min(lp, std::max(abs(S(i, i)) * sa, abs(P(i, i)) * sb));
    }
    if (rc) {
        c.count("rejected");
        c.ok("gswap.reject", rc == 1 && n1 + n2 > 2 && (gp < sepF(0.05) || lp < sepF(0.01)), "well separated blocks rejected (rc %d, chordal gap %Lg)", rc, ld(gp));
        if (!split) c.ok("gswap.rejected", nrm(S1 - S) == 0 && nrm(P1 - P) == 0 && nrm(Q1 - p.Q0) == 0 && nrm(Z1 - p.Z0) == 0, "a rejected swap modified the data");
        return;
    }
    c.count(n1 == 1 && n2 == 1 ? "swap11" : n1 == 2 && n2 == 2 ? "swap22" : n1 == 1 ? "swap12" : "swap21");
    double thr = 20.0 * (n + 4);
    if (!formOK(c, "gswap", S1, P1, 0, n)) return;
    p.judge(c, "gswap", S, P, S1, P1, wq, wz, thr + 40);
    F un = 0;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
            bool rowIn = i >= j0 && i < j0 + m, colIn = j >= j0 && j < j0 + m;
            if (!rowIn && !colIn) un = std::max(un, std::max(absm(S1(i, j) - S(i, j)), absm(P1(i, j) - P(i, j))));
        }
    c.ok("gswap.outside", un == 0, "an entry outside the rows and columns of the blocks changed by %Lg", ld(un));
    M Sc = sub(S1, j0, j0 + m, j0, j0 + m), Pc = sub(P1, j0, j0 + m, j0, j0 + m);
    spectrum(c, "gswap.spectrum", Sb, Pb, Sc, Pc, 400);
    if (!split && gp > sepF(0.02) && lp > sepF(0.02)) {
        c.count("well_separated");
        auto f1 = beig(S1, P1, j0, n2, sa, sb), f2 = beig(S1, P1, j0 + n2, n1, sa, sb);
        F d = std::max(matchDist(f1, e2), matchDist(f2, e1));
        c.ok("gswap.place", d < gp / 4, "eigenvalues of the swapped blocks are off by %Lg (gap %Lg)", ld(d), ld(gp));
    }
}
FAMILY(gmove, 1500, 30000)
{
    auto& g = c.rng;
    int n = g.coin(0.1) ? g.range(0, 2) : g.range(2, g.coin(0.1) ? 24 : 10), kind = (int)(c.idx % dData_N), bk = g.coin(0.4) ? bRandom : (int)(c.idx / dData_N % bN);
    M S, P;
    genSP(c, n, kind, bk, S, P);
    bool sep = kExactInts && g.coin(0.5);
    if (sep) {   // well separated spectrum so that the final order can be judged
        F ms = nmax(S) > 0 ? nmax(S) : F(1), mp = nmax(P) > 0 ? nmax(P) : F(1);
        int inf = g.coin(0.3) ? g.range(0, n) : -1;
        for (auto& z : S.a) z = z / Z(ms);
        for (auto& z : P.a) z = z / Z(mp * 2);
        for (int i = 0; i < n; ++i) {
            bool st = i + 1 < n && abs(S(i + 1, i)) != 0;
            double th = 3.0 * (((i * 7 + 3) % (n + 3)) + 0.5) / (n + 3) - 1.5;   // angle of the eigenvalue
            if (st) {
                double t = std::tan(th);
                if (t > 2 || t < -2) t = t > 0 ? 2 : -2;
                for (int q = 0; q < 2; ++q) P(i + q, i + q) = Z(1), S(i + q, i + q) = Z(F(t));
                P(i, i + 1) = Z(0);
                F w = F(0.3 + 0.07 * i);
                S(i, i + 1) = Z(w);
                S(i + 1, i) = Z(-w);
                ++i;
            }
            else if (i == inf) P(i, i) = Z(0), S(i, i) = Z(F(g.coin() ? 2 : -1));
            else S(i, i) = Z(F(2 * std::sin(th))), P(i, i) = Z(F(2 * std::cos(th)));
        }
        roundT(S);
        roundT(P);
    }
    auto b = blocks(S);
    int nb = (int)b.size() - 1;
    int ifst0 = n ? g.range(0, n - 1) : 0, ilst0 = n ? g.range(0, n - 1) : 0;
    bool wq = g.coin(0.75), wz = g.coin(0.75);
    c.desc("generalized_schur_move n=%d ifst=%d ilst=%d want_q=%d want_z=%d sep=%d S=%s P=%s", n, ifst0, ilst0, wq, wz, sep, dname(kind), bname(bk));
    if (ifst0 != ilst0) c.nt();
    Pencil p(c, n);
    p.init(c, S, P, wq, wz);
    auto a = p.A.view(), bb = p.B.view(), q = p.Q.view(), z = p.Zm.view();
    midx_t ifst = ifst0, ilst = ilst0;
    int rc = tl::generalized_schur_move(wq, wz, a, bb, q, z, ifst, ilst);
    M S1 = p.A.ref(), P1 = p.B.ref();
    if (!c.ok("gmove.rc", rc == 0 || rc == 1, "return code %d", rc)) return;
    double thr = 50.0 * (n + 4);
    if (!formOK(c, "gmove", S1, P1, 0, n)) return;
    p.judge(c, "gmove", S, P, S1, P1, wq, wz, thr);
    spectrum(c, "gmove.spectrum", S, P, S1, P1, thr * 4);
    if (n == 0) return;
    int bf = 0, bl = 0;
    for (int k = 0; k < nb; ++k) {
        if (b[k] <= ifst0) bf = k;
        if (b[k] <= ilst0) bl = k;
    }
    c.ok("gmove.ifst", (int)ifst == b[bf], "ifst %d returned as %zu, its block starts at %d", ifst0, ifst, b[bf]);
    auto pairsOf = [&](const M& X, const M& Y, int i, int s) { return beig(X, Y, i, s, 1, 1); };
    F gp = 2;
    for (int i = 0; i < nb; ++i)
        for (int j = 0; j < i; ++j) gp = std::min(gp, gap(pairsOf(S, P, b[i], b[i + 1] - b[i]), pairsOf(S, P, b[j], b[j + 1] - b[j])));
    if (rc) {
        c.count("rejected");
        if (sep) c.ok("gmove.reject", gp < sepF(0.05), "well separated blocks rejected (gap %Lg)", ld(gp));
        c.ok("gmove.stop", (int)ilst <= std::max(ifst0, ilst0) && (int)ilst + 1 >= std::min(ifst0, ilst0), "ilst=%zu is not between source and destination", ilst);
        return;
    }
    c.ok("gmove.ilst", std::llabs((long long)ilst - ilst0) <= 1, "ilst %d returned as %zu", ilst0, ilst);
    if (!sep || n > 8 || gp < F(0.02)) return;
    std::vector<int> ord;
    for (int k = 0; k < nb; ++k)
        if (k != bf) ord.push_back(k);
    ord.insert(ord.begin() + bl, bf);
    int pos = 0;
    c.count("order_judged");
    for (int k : ord) {
        int sz = b[k + 1] - b[k];
        if (k == bf) c.ok("gmove.at", (int)ilst == pos, "the block was moved to %zu instead of %d", ilst, pos);
        F d = matchDist(pairsOf(S, P, b[k], sz), pairsOf(S1, P1, pos, sz));
        c.ok("gmove.order", d < gp / 4, "block at %d has eigenvalues off by %Lg (gap %Lg)", pos, ld(d), ld(gp));
        pos += sz;
    }
}
VK_MAIN
