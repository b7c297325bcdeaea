// reference helpers for generalized eigenproblems
#pragma once
#include "eigref.hpp"
namespace vk {
// log|det(a*A + b*B)| and an estimate of the smallest singular value, by QR
inline F logdet(const M& A, const M& B, Z a, Z b, F& rmn)
{
    int n = A.m;
    M S(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) S(i, j) = a * A(i, j) + b * B(i, j);
    M S0 = S;
    rmn = -1;
    F s = 0;
    for (int j = 0; j < n; ++j)
        for (int i = n - 1; i > j; --i) {
            Z y = S(i, j);
            if (y.re == 0 && y.im == 0) continue;
            Z x = S(i - 1, j);
            F ax = abs(x), ay = abs(y), m = std::max(ax, ay);
            F r = m * vsqrt((ax / m) * (ax / m) + (ay / m) * (ay / m));
            Z c1 = conj(x) / Z(r), s1 = conj(y) / Z(r), c2 = y / Z(r), s2 = x / Z(r);
            for (int k = j; k < n; ++k) {
                Z p = S(i - 1, k), q = S(i, k);
                S(i - 1, k) = c1 * p + s1 * q;
                S(i, k) = s2 * q - c2 * p;
            }
            S(i, j) = Z(0);
        }
    for (int i = 0; i < n; ++i) {
        F d = abs(S(i, i));
        if (!(d > 0)) { rmn = 0; return 0; }
        s += F(std::log(ld(d)));
    }
    rmn = sminShift(S0, Z(0));
    return s;
}
inline M upperPart(const M& A, int sub)
{
    M H = A;
    for (int j = 0; j < H.n; ++j)
        for (int i = j + 1 + sub; i < H.m; ++i) H(i, j) = Z(0);
    return H;
}
// two homogeneous spectra agree: compare the characteristic form at two points where the pencil is well conditioned
// (sums are taken in double: tolerance is never below 1e-9)
inline bool sameSpectrum(Case& c, const char* key, const M& A, const M& B, const std::vector<Z>& al, const std::vector<Z>& be, F nA, F nB, double thr)
{
    int n = A.m, k = (int)al.size();
    if (k != n || n == 0 || !ffinite(nA * nA) || !ffinite(nB * nB)) return true;
    F sa = nA > 0 ? 1 / nA : F(1), sb = nB > 0 ? 1 / nB : F(1);
    F lg[2], mn[2];
    double d[2];
    for (int q = 0; q < 2; ++q) {
        double th = q == 0 ? 0.7 : 2.3, ph = q == 0 ? 0.4 : 4.1;
        Z a = Z(F(std::cos(th)) * sa, 0), b = Z(F(std::sin(th) * std::cos(ph)) * sb, F(std::sin(th) * std::sin(ph)) * sb);
        lg[q] = logdet(A, B, a, b, mn[q]);
        if (!(mn[q] > F(1e-3) / F(n))) return true;
        double s = 0;
        for (int i = 0; i < k; ++i) s += (double)std::log(ld(abs(a * al[i] + b * be[i])));
        d[q] = (double)ld(lg[q]) - s;
    }
    double tol = thr * n * (double)ld(eps()) * (1 / (double)ld(mn[0]) + 1 / (double)ld(mn[1])) + 1e-9;
    if (std::numeric_limits<R>::max_exponent > 2000 && !(d[0] - d[1] == d[0] - d[1])) return true;  // out of the reference range
    c.count("spectra_compared");
    return c.ok(key, std::fabs(d[0] - d[1]) <= tol, "characteristic form differs by a factor exp(%g), tolerance %g", d[0] - d[1], tol);
}
// upper triangular second matrix of a pencil
enum { bRandom, bIdent, bInt, bSing, bSing2, bIll, bTinyDiag, bDiagNeg, bOnes, bZero, bNil, bBig, bTiny, bN };
inline const char* bname(int k)
{
    static const char* x[] = {"random", "identity", "int", "singular", "singular2", "illcond", "tinydiag", "diagneg", "ones", "zero", "nilpotent", "big", "tiny"};
    return x[k];
}
inline M genB(Rng& g, int n, int kind)
{
    M B = gen<T>(g, n, n, kind == bInt ? dInt : kind == bBig ? dBig : kind == bTiny ? dTiny : dRandom);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
            if (i > j) B(i, j) = Z(0);
            else if (kind == bIdent) B(i, j) = Z(i == j ? 1 : 0);
            else if (kind == bOnes) B(i, j) = Z(1);
            else if (kind == bZero || (kind == bNil && i == j)) B(i, j) = Z(0);
            else if (kind == bDiagNeg) B(i, j) = i == j ? Z(F(g.coin() ? -1 : 1) * F(g.range(1, 3))) : Z(0);
            else if (kind == bIll && i == j) B(i, j) = B(i, j) * Z(F(std::pow(10.0, -g.range(0, 6))));
            else if (kind == bTinyDiag && i == j && g.coin(0.3)) B(i, j) = B(i, j) * Z(eps() * F(g.range(0, 8)));
            else if (i == j && (kind == bRandom || kind == bBig || kind == bTiny)) {
                F s = kind == bBig ? F(bigS()) : kind == bTiny ? F(tinyS()) : F(1);
                if (g.coin(0.7)) B(i, j) = B(i, j) + (B(i, j).re < 0 ? Z(-s) : Z(s));
            }
        }
    if (kind == bSing && n > 0) B(g.range(0, n - 1), 0) = Z(0);
    if (kind == bSing && n > 0) { int i = g.range(0, n - 1); B(i, i) = Z(0); }
    if (kind == bSing2)
        for (int i = 0; i < n; ++i)
            if (g.coin(0.3)) B(i, i) = Z(0);
    roundT(B);
    return B;
}
}  // namespace vk
