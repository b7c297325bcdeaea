// C31: Bunch-Kaufman factorization
#include "hh.hpp"
#include <tlapack/lapack/hetrf.hpp>
using namespace vk;
namespace tl = tlapack;

// symmetric (herm = false) or Hermitian matrix
static M symGen(Rng& g, int n, int kind, bool herm)
{
    M X(n, n);
    auto sym = [&](M Y) {
        roundT(Y);
        for (int j = 0; j < n; ++j) {
            if (herm) Y(j, j).im = 0;
            for (int i = 0; i < j; ++i) Y(i, j) = herm ? conj(Y(j, i)) : Y(j, i);
        }
        return Y;
    };
    if (kind < dData_N) return sym(gen<T>(g, n, n, kind));
    switch (kind - dData_N) {
    case 0:  // zero diagonal
        X = gen<T>(g, n, n, dRandom);
        for (int i = 0; i < n; ++i) X(i, i) = Z(F(0));
        break;
    case 1:  // small integers, many ties and cancellations
        for (auto& z : X.a) z = Z(F(g.range(-1, 1)), IsC && g.coin(0.3) ? F(g.range(-1, 1)) : F(0));
        break;
    case 2: {  // saddle point
        X = gen<T>(g, n, n, dRandom);
        int k = n ? g.range(0, n) : 0;
        for (int i = k; i < n; ++i)
            for (int j = k; j < n; ++j) X(i, j) = Z(F(0));
        break;
    }
    case 3: {  // integers with rows and columns of zeros
        for (auto& z : X.a) z = Z(F(g.range(-2, 2)));
        int w = g.range(1, 3);
        for (int q = 0; q < w && n; ++q) {
            int i = g.coin(0.3) ? 0 : g.coin(0.3) ? n - 1 : g.range(0, n - 1);
            for (int j = 0; j < n; ++j) X(i, j) = X(j, i) = Z(F(0));
        }
        break;
    }
    case 4: {  // duplicated rows and columns: exactly singular Schur complements
        X = M(n, n);
        int a = n > 1 ? g.range(1, n - 1) : 1;
        std::vector<int> id(n);
        for (int i = 0; i < n; ++i) id[i] = i < a ? i : g.range(0, a - 1);
        M B(a, a);
        for (auto& z : B.a) z = Z(F(g.pick({-2, -1, 0, 1, 2, 4})));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) X(i, j) = B(std::max(id[i], id[j]), std::min(id[i], id[j]));
        break;
    }
    case 5: {  // blocks [0 b; b 0] under a permutation
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.range(0, i)]);
        for (int i = 0; i + 1 < n; i += 2) {
            Z b = Z(F(g.range(1, 3)), IsC ? F(g.range(-2, 2)) : F(0));
            X(p[i], p[i + 1]) = b, X(p[i + 1], p[i]) = b;
        }
        if (n % 2) X(p[n - 1], p[n - 1]) = g.coin() ? Z(0) : Z(2);
        break;
    }
    default:  // tiny diagonal relative to the off-diagonal, mixed pivots
        X = gen<T>(g, n, n, dRandom);
        for (int i = 0; i < n; ++i) X(i, i) = X(i, i) * F(std::ldexp(1.0, -g.range(0, 12)));
    }
    return sym(X);
}
static const int NK = dData_N + 7;
static const char* kname(int k)
{
    static const char* s[] = {"zerodiag", "int1", "saddle", "zerorows", "dupl", "antiblocks", "weakdiag"};
    return k < dData_N ? dname(k) : s[k - dData_N];
}
// rows s and p of an accumulated product
static void swapRows(M& X, int s, int p)
{
    if (s != p)
        for (int j = 0; j < X.n; ++j) std::swap(X(s, j), X(p, j));
}
FAMILY(hetrf, 2600, 60000)
{
    auto& g = c.rng;
    int which = (int)(c.idx % 4);
    bool up = c.idx / 4 % 2, herm = IsC ? c.idx / 8 % 2 : g.coin(0.3);
    int kind = (int)(c.idx / 16 % NK);
    int n = g.coin(0.1) ? g.range(30, 45) : dim(g, 18);
    int nb = g.coin(0.12) ? 32 : g.coin(0.2) ? 2 : g.range(2, 10);
    if (n > 32 && g.coin()) nb = 32;
    if (n > 1) c.nt();
    M X = symGen(g, n, kind, herm);
    int sc = VK_TI != 7 && VK_TI != 9 && kind >= dData_N && g.coin(0.25) ? (int)(EMAX * 0.7 * (g.coin() || kind == dData_N + 4 ? 1 : -1)) : 0;
    if (sc) X = scale(Z(F(xldexp<R>(R(1), sc))), X);
    c.desc("hetrf which=%d %s %s n=%d nb=%d data=%s 2^%d", which, up ? "upper" : "lower", herm ? "ConjTrans" : "Trans", n, nb, kname(kind), sc);
    M Y = X;
    if (herm && IsC && g.coin())
        for (int i = 0; i < n; ++i) Y(i, i).im = F(g.sym());
    roundT(Y);
    Mat<T> A(c, "A", n, n);
    A.set(Y);
    A.maskif([&](int i, int j) { return up ? i > j : i < j; });
    Vec<int> piv(c, "ipiv", n);
    piv.junk();
    auto a = A.view();
    auto p = piv.view();
    tl::HetrfOpts o;
    o.nb = nb;
    o.invariant = herm ? tl::Op::ConjTrans : tl::Op::Trans;
    tl::Uplo u = up ? tl::Uplo::Upper : tl::Uplo::Lower;
    int info;
    if (which == 0) info = tl::hetrf(u, a, p, o);
    else if (which == 1) info = up ? tl::hetrf(tl::UPPER_TRIANGLE, a, p, o) : tl::hetrf(tl::LOWER_TRIANGLE, a, p, o);
    else if (which == 2) info = tl::hetrf_blocked(u, a, p, o);
    else {
        Work<T> w(c, tl::hetrf_blocked_worksize<T>(a, o));
        auto wv = w.view();
        info = g.coin() ? tl::hetrf_blocked_work(u, a, p, wv, o) : tl::hetrf_work(u, a, p, wv, o);
    }
    M A1 = A.ref();
    // structure of D and of the transpositions
    M D(n, n), aD;
    std::vector<int> blk(n, 0);  // 1: 1x1, 2: first of a 2x2 block, 3: second
    for (int i = 0; i < n;) {
        int v = piv[i];
        if (v >= 0) {
            if (!c.ok("hetrf.ipiv", up ? v <= i : v >= i && v < n, "ipiv[%d] = %d, n = %d", i, v, n)) return;
            blk[i] = 1;
            D(i, i) = A1(i, i);
            ++i;
        }
        else {
            if (!c.ok("hetrf.ipiv2", i + 1 < n && piv[i + 1] == v, "ipiv[%d] = %d does not come in a pair", i, v)) return;
            int q = -v - 1;
            if (!c.ok("hetrf.ipiv", up ? q <= i : q >= i + 1 && q < n, "ipiv[%d] = %d, n = %d", i, v, n)) return;
            blk[i] = 2, blk[i + 1] = 3;
            D(i, i) = A1(i, i), D(i + 1, i + 1) = A1(i + 1, i + 1);
            Z e = up ? A1(i, i + 1) : A1(i + 1, i);
            D(i, i + 1) = up ? e : herm ? conj(e) : e;
            D(i + 1, i) = up ? (herm ? conj(e) : e) : e;
            i += 2;
        }
    }
    c.count("2x2 blocks", std::count(blk.begin(), blk.end(), 2));
    F mx = nmax(X), fin = 0;
    for (auto& z : D.a) fin += fabs_(z.re) + fabs_(z.im);
    if (herm)
        for (int i = 0; i < n; ++i) c.ok("hetrf.real", D(i, i).im == 0, "D(%d,%d) of a Hermitian factorization is not real", i, i);
    // info
    if (info == 0) {
        for (int i = 0; i < n; ++i)
            c.ok("hetrf.info0", blk[i] != 1 || D(i, i).re != 0 || D(i, i).im != 0, "info = 0 but D(%d,%d) is exactly zero", i, i);
    }
    else {
        c.count("singular D");
        if (!c.ok("hetrf.info", info >= 1 && info <= n && blk[std::clamp(info, 1, n) - 1] == 1 && D(info - 1, info - 1).re == 0 && D(info - 1, info - 1).im == 0,
                  "info = %d but D(info-1,info-1) is not a zero 1-by-1 block", info)) return;
    }
    // A = U D U^op, U = P_{n-1} U_{n-1} ... P_0 U_0 (upper), L = P_0 L_0 P_1 L_1 ... (lower)
    M U = M::eye(n, n), G = M::eye(n, n);
    auto applyBlock = [&](int i, int w) {
        // G := strip(i..i+w-1) * G, then the transposition
        int s = up ? i : i + w - 1, q = w == 1 ? piv[i] : -piv[i] - 1;
        for (int j = 0; j < n; ++j)
            for (int k = i; k < i + w; ++k) {
                Z t = U(k, j);
                if (t.re == 0 && t.im == 0) continue;
                if (up)
                    for (int r = 0; r < i; ++r) U(r, j) += A1(r, k) * t;
                else
                    for (int r = i + w; r < n; ++r) U(r, j) += A1(r, k) * t;
            }
        for (int j = 0; j < n; ++j)
            for (int k = i; k < i + w; ++k) {
                F t = G(k, j).re;
                if (t == 0) continue;
                if (up)
                    for (int r = 0; r < i; ++r) G(r, j).re += abs(A1(r, k)) * t;
                else
                    for (int r = i + w; r < n; ++r) G(r, j).re += abs(A1(r, k)) * t;
            }
        swapRows(U, s, q);
        swapRows(G, s, q);
    };
    if (up)
        for (int i = 0; i < n;) {
            int w = blk[i] == 1 ? 1 : 2;
            applyBlock(i, w);
            i += w;
        }
    else
        for (int i = n; i > 0;) {
            int w = blk[i - 1] == 1 ? 1 : 2;
            applyBlock(i - w, w);
            i -= w;
        }
    M R1 = mul(mul(U, D), herm ? ctr(U) : tr(U));
    M S = mul(mul(G, absM(D)), tr(G));
    F growth = nmax(S);
    F e = nmax(R1 - X);
    // |U||D||U^T| is bounded through the growth factor of the pivoting strategy
    F lim = 2;
    for (int i = 0; i < n && lim < F(2000); ++i) lim *= F(2.6);
    c.bound("hetrf.growth", growth, (36 * F(n) * std::min(lim, F(2000))) * mx + F(rmin()));
    c.bound("hetrf.dgrowth", nmax(D), 2 * std::min(lim, F(2000)) * mx + F(rmin()));
    c.bound("hetrf.res", e, 4 * F(n + 4) * F(eps()) * (mx + growth) + F(n) * F(rmin()) / F(eps()));
}
VK_MAIN
