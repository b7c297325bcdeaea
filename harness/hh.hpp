// reference products of Householder reflectors
#pragma once
#include "ops.hpp"
namespace vk {
// full column-wise V (n x k) from storage, with the implicit ones and zeros
inline M expandV(const M& V, Direction d, StoreV s, int n, int k)
{
    M W(n, k);
    for (int j = 0; j < k; ++j)
        for (int i = 0; i < n; ++i) {
            int one = d == Direction::Forward ? j : n - k + j;
            Z x = s == StoreV::Columnwise ? V(i, j) : conj(V(j, i));
            bool ref = d == Direction::Forward ? i > one : i < one;
            W(i, j) = i == one ? Z(1) : ref ? x : Z(0);
        }
    return W;
}
// is element (a,b) of the stored V (n x k or k x n) referenced?
inline bool refV(Direction d, StoreV s, int n, int k, int a, int b)
{
    int i = s == StoreV::Columnwise ? a : b, j = s == StoreV::Columnwise ? b : a;
    int one = d == Direction::Forward ? j : n - k + j;
    return d == Direction::Forward ? i > one : i < one;
}
template <class MT>
inline void maskV(MT& V, Direction d, StoreV s, int n, int k)
{
    V.maskif([&](int a, int b) { return !refV(d, s, n, k, a, b); });
}
// H <- H (I - t v v^H)
inline void hmulR(M& H, const M& v, Z t)
{
    if (t.re == 0 && t.im == 0) return;
    M w = mul(H, v);
    for (int j = 0; j < H.n; ++j) {
        Z f = t * conj(v(j, 0));
        if (f.re == 0 && f.im == 0) continue;
        for (int i = 0; i < H.m; ++i) H(i, j) -= w(i, 0) * f;
    }
}
// product of the reflectors: Forward H1..Hk, Backward Hk..H1 (columnwise sense)
inline M prodH(const M& VV, const M& tau, Direction d)
{
    int n = VV.m, k = VV.n;
    M H = M::eye(n, n);
    for (int q = 0; q < k; ++q) {
        int j = d == Direction::Forward ? q : k - 1 - q;
        hmulR(H, sub(VV, 0, n, j, j + 1), tau(j, 0));
    }
    return H;
}
// random unitary reflectors; V in storage shape
inline void randReflectors(Case& c, int n, int k, Direction d, StoreV s, M& V, M& tau)
{
    Rng& g = c.rng;
    bool cw = s == StoreV::Columnwise;
    V = randM<T>(g, cw ? n : k, cw ? k : n, false);
    int sp = g.range(0, 3);
    for (auto& z : V.a)
        if (sp == 0 && g.coin(0.6)) z = Z(0);
    roundT(V);
    M W = expandV(V, d, s, n, k);
    tau = M(k, 1);
    for (int j = 0; j < k; ++j) {
        F q = 0;
        for (int i = 0; i < n; ++i) q += abs2(W(i, j));
        Z t(2);
        if (IsC) {
            double a = 6.2831853 * g.u01();
            Z u(F(std::cos(a)), F(std::sin(a)));
            u = u / Z(abs(u));
            t = Z(1 - u.re, -u.im);
        }
        if (g.coin(0.12)) t = Z(0);
        tau(j, 0) = t * Z(F(1) / q);
    }
    roundT(tau);
}
// column-wise (or row-wise) backward error: max_j ||E_j|| / ||A_j||
inline void smallCols(Case& c, const char* key, const M& E, const M& A, double thr, bool rows)
{
    M e = rows ? tr(E) : E, a = rows ? tr(A) : A;
    for (int j = 0; j < e.n; ++j) {
        g_events += e.m;
        if (!c.small(key, nrm(sub(e, 0, e.m, j, j + 1)), nrm(sub(a, 0, a.m, j, j + 1)), thr)) break;
    }
}
inline int blk(Rng& g)
{
    return g.pick({1, 2, 3, 4, 5, 8, 32});
}
}  // namespace vk
