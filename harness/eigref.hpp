// reference helpers for eigenvalue modules
#pragma once
#include "hh.hpp"
namespace vk {
// distance-to-singularity estimate of (H - w I): smallest singular value upper bound, H Hessenberg or dense
inline F sminShift(const M& A, Z w, const M* B = nullptr, Z beta = Z(1))
{
    // QR of beta*A - w*B by Givens/Householder (dense), then inverse iteration
    int n = A.m;
    M S(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
            Z b = B ? (*B)(i, j) : (i == j ? Z(1) : Z(0));
            S(i, j) = beta * A(i, j) - w * b;
        }
    if (n == 0) return 0;
    // Givens elimination, skipping zeros
    for (int j = 0; j < n; ++j)
        for (int i = n - 1; i > j; --i) {
            Z y = S(i, j);
            if (y.re == 0 && y.im == 0) continue;
            Z x = S(i - 1, j);
            F ax = abs(x), ay = abs(y), m = std::max(ax, ay);
            F r = m * vsqrt((ax / m) * (ax / m) + (ay / m) * (ay / m));
            Z c1 = conj(x) / Z(r), s1 = conj(y) / Z(r);
            Z c2 = y / Z(r), s2 = x / Z(r);
            for (int k = j; k < n; ++k) {
                Z p = S(i - 1, k), q = S(i, k);
                S(i - 1, k) = c1 * p + s1 * q;
                S(i, k) = s2 * q - c2 * p;
            }
            S(i, j) = Z(0);
        }
    F sc = nmax(S);
    if (sc == 0) return 0;
    for (int i = 0; i < n; ++i)
        if (abs(S(i, i)) <= sc * std::numeric_limits<F>::min()) return 0;
    M x(n, 1);
    for (int i = 0; i < n; ++i) x(i, 0) = Z(1 + F(i % 3) / 7, F(i % 2) / 5);
    F best = sc;
    for (int it = 0; it < 5; ++it) {
        for (int i = 0; i < n; ++i) {
            Z s = x(i, 0);
            for (int k = 0; k < i; ++k) s -= conj(S(k, i)) * x(k, 0);
            x(i, 0) = s / conj(S(i, i));
        }
        F nn = nrm(x);
        if (!ffinite(nn)) return 0;
        if (nn > 0) for (auto& z : x.a) z = z / Z(nn);
        for (int i = n - 1; i >= 0; --i) {
            Z s = x(i, 0);
            for (int k = i + 1; k < n; ++k) s -= S(i, k) * x(k, 0);
            x(i, 0) = s / S(i, i);
        }
        nn = nrm(x);
        if (!ffinite(nn) || !(nn > 0)) return 0;
        for (auto& z : x.a) z = z / Z(nn);
        F r = nrm(cmul(S, x));
        if (r < best) best = r;
    }
    return best;
}
// power sums: tr(A^k)
inline Z trPow(const M& A, int k)
{
    M P = A;
    for (int q = 1; q < k; ++q) P = mul(P, A);
    Z s;
    for (int i = 0; i < A.m; ++i) s += P(i, i);
    return s;
}
// random unitary matrix (a few reflectors)
inline M randUnitary(Rng& g, int n, int refl = 3)
{
    M Q = M::eye(n, n);
    for (int q = 0; q < std::min(n, refl); ++q) {
        M v(n, 1);
        F s = 0;
        for (auto& z : v.a) { z = toZ(rnd<T>(g)); s += abs2(z); }
        if (s > F(1e-3)) hmulR(Q, v, Z(F(2) / s));
    }
    return Q;
}
// a standard-form (quasi-)triangular matrix. Returns block starts.
inline M randSchur(Rng& g, int n, int kind, bool real2x2 = true)
{
    M S = gen<T>(g, n, n, kind % dData_N);
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) S(i, j) = Z(0);
    if (kind == dOnes || g.coin(0.15))   // repeated eigenvalues
        for (int i = 0; i < n; ++i)
            if (g.coin(0.6)) S(i, i) = S(0, 0);
    roundT(S);
    if (!IsC && real2x2)
        for (int i = 0; i + 1 < n; ++i)
            if (g.coin(0.4)) {
                S(i + 1, i + 1) = S(i, i);
                F b = S(i, i + 1).re;
                F sc = g.coin(0.8) ? F(0.1 + g.u01()) : F(std::pow(10.0, -g.range(1, 5)));
                if (b == 0) b = nmax(S) == 0 ? F(1) : nmax(S) * F(0.5);
                S(i, i + 1) = Z(b);
                S(i + 1, i) = Z(-b * sc);
                ++i;
            }
    roundT(S);
    return S;
}
inline const char* hname(int k);
enum { hCyclic = dData_N, hCompanion, hJordan, hSplit, hRot, hTri, hTinySub, hFrank, hSkew, hCluster, hN };
inline const char* hname(int k)
{
    static const char* x[] = {"cyclic", "companion", "jordan", "split", "rot", "triangular", "tinysub", "frank", "skew", "cluster"};
    return k < dData_N ? dname(k) : x[k - dData_N];
}
// Hessenberg test matrices
inline M genHess(Rng& g, int n, int kind)
{
    M A = gen<T>(g, n, n, kind < dData_N ? kind : dRandom);
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) A(i, j) = Z(0);
    if (kind == hCyclic) {
        for (auto& z : A.a) z = Z(0);
        for (int i = 0; i + 1 < n; ++i) A(i + 1, i) = Z(1);
        if (n) A(0, n - 1) = Z(1);
    }
    else if (kind == hCompanion) {
        for (int j = 0; j < n; ++j)
            for (int i = 1; i < n; ++i) A(i, j) = i == j + 1 ? Z(1) : Z(0);
    }
    else if (kind == hJordan) {
        for (auto& z : A.a) z = Z(0);
        for (int i = 0; i < n; ++i) {
            A(i, i) = Z(1);
            if (i + 1 < n) A(i, i + 1) = Z(1), A(i + 1, i) = Z(g.coin(0.3) ? F(0) : eps() * F(g.range(0, 3)));
        }
    }
    else if (kind == hSplit) {
        for (int i = 0; i + 1 < n; ++i)
            if (g.coin(0.4)) A(i + 1, i) = Z(0);
    }
    else if (kind == hRot) {
        for (int i = 0; i + 1 < n; i += 2) {
            A(i, i) = A(i + 1, i + 1);
            A(i + 1, i) = -A(i, i + 1);
            if (i > 0) A(i, i - 1) = Z(F(0.01)) * A(i, i - 1);
        }
    }
    else if (kind == hTri) {
        for (int i = 0; i + 1 < n; ++i) A(i + 1, i) = Z(0);
    }
    else if (kind == hTinySub) {
        for (int i = 0; i + 1 < n; ++i) A(i + 1, i) = A(i + 1, i) * Z(F(std::pow(10.0, -2.0 * g.range(0, 12))));
    }
    else if (kind == hFrank) {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i) A(i, j) = i <= j + 1 ? Z(F(n - std::max(i, j)) / n) : Z(0);
    }
    else if (kind == hSkew) {
        for (auto& z : A.a) z = Z(0);
        for (int i = 0; i + 1 < n; ++i) A(i, i + 1) = Z(1 + F(i % 3)), A(i + 1, i) = Z(-1 - F(i % 3));
    }
    else if (kind == hCluster) {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i)
                if (i <= j + 1) A(i, j) = (i == j ? Z(1) : Z(0)) + A(i, j) * Z(F(1e-4));
    }
    roundT(A);
    return A;
}
}  // namespace vk
