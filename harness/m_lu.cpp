// C10: LU factorization with partial pivoting, inversion from the factors
#include "hh.hpp"
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <stdexcept>
using namespace vk;
namespace tl = tlapack;

static int shape(Rng& g) { return g.coin(0.15) ? g.range(24, 70) : dim(g, 30); }

// least singular value estimate (upper bound) of a tall matrix by inverse iteration on R of a QR
static F sigmaMin(const M& A)
{
    int m = A.m, n = A.n;
    M Q = A, Rr(n, n);
    for (int j = 0; j < n; ++j)
        for (int rep = 0; rep < 2; ++rep) {
            for (int i = 0; i < j; ++i) {
                Z d;
                for (int k = 0; k < m; ++k) d += conj(Q(k, i)) * Q(k, j);
                for (int k = 0; k < m; ++k) Q(k, j) -= d * Q(k, i);
                Rr(i, j) += d;
            }
            if (rep == 0) continue;
            F s = nrm(sub(Q, 0, m, j, j + 1));
            Rr(j, j) = Z(s);
            if (s == 0) return 0;
            for (int k = 0; k < m; ++k) Q(k, j) = Q(k, j) / Z(s);
        }
    M x(n, 1);
    for (int i = 0; i < n; ++i) x(i, 0) = Z(1 + F(i % 3) / 7);
    F best = -1;
    for (int it = 0; it < 6; ++it) {
        // R^H y = x ; R x = y
        for (int i = 0; i < n; ++i) {
            Z s = x(i, 0);
            for (int k = 0; k < i; ++k) s -= conj(Rr(k, i)) * x(k, 0);
            x(i, 0) = s / conj(Rr(i, i));
        }
        for (int i = n - 1; i >= 0; --i) {
            Z s = x(i, 0);
            for (int k = i + 1; k < n; ++k) s -= Rr(i, k) * x(k, 0);
            x(i, 0) = s / Rr(i, i);
        }
        F nn = nrm(x);
        if (!(nn > 0) || !ffinite(nn)) return 0;
        for (auto& z : x.a) z = z / Z(nn);
        F r = nrm(mul(Rr, x));
        if (best < 0 || r < best) best = r;
    }
    return best;
}

// data with a prescribed first zero pivot; returns the expected info (0: none expected, -1: unknown)
static int lukind(Rng& g, int m, int n, int kind, M& A)
{
    int k = std::min(m, n);
    A = gen<T>(g, m, n, kind < dData_N ? kind : dRandom);
    if (kind < dData_N) return -1;
    if (kind == dData_N) {  // zero column
        int j = g.range(0, std::max(0, n - 1));
        if (n == 0) return 0;
        for (int i = 0; i < m; ++i) A(i, j) = Z(0);
        return j < k ? j + 1 : 0;
    }
    if (kind == dData_N + 1) {  // zero rows
        int r = m ? g.range(1, std::min(m, 3)) : 0;
        for (int q = 0; q < r; ++q) {
            int i = g.range(0, m - 1);
            for (int j = 0; j < n; ++j) A(i, j) = Z(0);
        }
        int nz = 0;
        for (int i = 0; i < m; ++i) {
            bool z = true;
            for (int j = 0; j < n; ++j) z = z && A(i, j).re == 0 && A(i, j).im == 0;
            nz += z;
        }
        return (m - nz) < k ? m - nz + 1 : 0;
    }
    if (kind == dData_N + 2) {  // ties in magnitude
        for (auto& z : A.a) z = Z(g.coin() ? 1 : -1);
        return -1;
    }
    if (kind == dData_N + 3) {  // upper triangular with one zero on the diagonal
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (i > j) A(i, j) = Z(0);
        if (!k) return 0;
        int p = g.range(0, k - 1);
        A(p, p) = Z(0);
        return p + 1;
    }
    // permutation-like matrix: one unit per row, forces interchanges
    for (auto& z : A.a) z = Z(0);
    std::vector<int> p(m);
    for (int i = 0; i < m; ++i) p[i] = i;
    for (int i = m - 1; i > 0; --i) std::swap(p[i], p[g.range(0, i)]);
    for (int i = 0; i < m; ++i) {
        if (p[i] < n) A(i, p[i]) = toZ(rndfull<T>(g)) + Z(2);
        if (g.coin(0.3) && n) A(i, g.range(0, n - 1)) = toZ(rndfull<T>(g)) * Z(F(0.1));
    }
    return -1;
}
static const char* lname(int k)
{
    static const char* x[] = {"zerocol", "zerorows", "ties", "triuzero", "perm"};
    return k < dData_N ? dname(k) : x[k - dData_N];
}
FAMILY(getrf, 1100, 24000)
{
    auto& g = c.rng;
    int m = shape(g), n = shape(g), kind = (int)(c.idx / 4 % (dData_N + 5));
    if (g.coin(0.3)) n = m;
    int k = std::min(m, n), which = (int)(c.idx % 4);
    bool lev0 = which & 1;
    M A0(m, n);
    int want = lukind(g, m, n, kind, A0);
    roundT(A0);
    c.desc("getrf %s %s m=%d n=%d data=%s", lev0 ? "level0" : "recursive", which & 2 ? "direct" : "variant", m, n, lname(kind));
    if (k) c.nt();
    Mat<T> A(c, "A", m, n);
    Vec<idx_t> piv(c, "piv", k);
    A.set(A0);
    piv.junk();
    auto a = A.view();
    auto p = piv.view();
    int info;
    if (which < 2) {
        tl::GetrfOpts o;
        o.variant = lev0 ? tl::GetrfVariant::Level0 : tl::GetrfVariant::Recursive;
        info = tl::getrf(a, p, o);
    }
    else info = lev0 ? tl::getrf_level0(a, p) : tl::getrf_recursive(a, p);
    if (info == 0) c.count("lu_success");
    else c.count("lu_singular");
    if (!c.ok("lu.info", info >= 0 && info <= k, "info %d out of range", info)) return;
    if (want >= 0) c.ok("lu.info", info == want, "info %d, first exactly zero pivot is %d", info, want);
    if (info > 0) {
        // the leading columns must be numerically dependent
        F s = sigmaMin(sub(A0, 0, m, 0, info));
        if (m >= info) c.small("lu.singular", s, nrm(A0), 40.0 * (k + 4) * std::sqrt((double)(k + 4)));
        return;
    }
    M A1 = A.ref(), P = A0;
    for (int i = 0; i < k; ++i) {
        idx_t q = piv[i];
        if (!c.ok("lu.piv", q >= (idx_t)i && q < (idx_t)m, "piv[%d] = %zu", i, q)) return;
        if (q != (idx_t)i)
            for (int j = 0; j < n; ++j) std::swap(P(i, j), P((int)q, j));
    }
    M Lm(m, k), U(k, n);
    F maxl = 0;
    for (int j = 0; j < k; ++j)
        for (int i = 0; i < m; ++i)
            if (i == j) Lm(i, j) = Z(1);
            else if (i > j) {
                Lm(i, j) = A1(i, j);
                maxl = std::max(maxl, abs(A1(i, j)));
            }
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= std::min(j, k - 1); ++i) U(i, j) = A1(i, j);
    for (int i = 0; i < k; ++i) c.ok("lu.diag", U(i, i).re != 0 || U(i, i).im != 0, "success reported with U(%d,%d) = 0", i, i);
    c.bound("lu.mult", maxl, (lev0 && IsC ? F(1.4142136) : F(1)) * (1 + 8 * eps()));
    M mag = mul(absM(Lm), absM(U)) + absM(P);
    cmp(c, "lu.res", mul(Lm, U), P, mag, 3.0 * (k + 3));
}
FAMILY(getri, 700, 16000)
{
    auto& g = c.rng;
    int n = shape(g), which = (int)(c.idx % 4), kind = (int)(c.idx / 4 % (dData_N + 5));
    bool uxli = which & 1, wk = which & 2;
    // factors produced by a reference LU with partial pivoting
    M A0(n, n);
    lukind(g, n, n, kind, A0);
    roundT(A0);
    if (kind != dIdent && kind != dZero && g.coin(0.7))
        for (int i = 0; i < n; ++i) A0(i, i) += Z(nmax(A0) * F(1 + n / 4));
    roundT(A0);
    M LU = A0;
    std::vector<int> pv(n);
    for (int j = 0; j < n; ++j) {
        int p = j;
        for (int i = j + 1; i < n; ++i)
            if (abs(LU(i, j)) > abs(LU(p, j))) p = i;
        if (g.coin(0.15)) {  // any other nonzero pivot is as valid for the inversion
            int q = g.range(j, n - 1);
            if (abs(LU(q, j)) > abs(LU(p, j)) / 2) p = q;
        }
        pv[j] = p;
        for (int q = 0; q < n; ++q) std::swap(LU(j, q), LU(p, q));
        if (abs(LU(j, j)) > 0)
            for (int i = j + 1; i < n; ++i) {
                LU(i, j) = LU(i, j) / LU(j, j);
                for (int q = j + 1; q < n; ++q) LU(i, q) -= LU(i, j) * LU(j, q);
            }
        else
            for (int i = j + 1; i < n; ++i) LU(i, j) = Z(0);
    }
    int zeros = 0;
    if (n && g.coin(0.15))
        for (int q = g.range(1, 2); q > 0; --q) {
            int i = g.range(0, n - 1);
            LU(i, i) = Z(0);
        }
    roundT(LU);
    for (int i = 0; i < n; ++i) zeros += LU(i, i).re == 0 && LU(i, i).im == 0;
    c.desc("getri %s work=%d n=%d zeros=%d data=%s", uxli ? "UXLI" : "UILI", wk, n, zeros, lname(kind));
    if (n) c.nt();
    Mat<T> A(c, "A", n, n);
    Vec<idx_t> piv(c, "piv", n);
    A.set(LU);
    for (int i = 0; i < n; ++i) piv[i] = pv[i];
    piv.freeze();
    auto a = A.view();
    const auto p = piv.view();
    tl::GetriOpts o;
    o.variant = uxli ? tl::GetriVariant::UXLI : tl::GetriVariant::UILI;
    int info;
    try {
        if (wk) {
            auto wi = tl::getri_worksize<T>(a, p, o);
            Work<T> w(c, wi);
            auto wv = w.view();
            info = tl::getri_work(a, p, wv, o);
        }
        else info = tl::getri(a, p, o);
    }
    catch (std::domain_error&) { throw; }
    catch (std::runtime_error& e) {
        // with error checks enabled singularity is reported as an exception raised in the
        // innermost recursive call; its index is relative to that call and is not judged
        c.ok("inv.info", zeros > 0, "singularity reported for nonsingular factors: %s", e.what());
        c.count("inv_singular");
        return;
    }
    if (zeros) {
        c.count("inv_singular");
        bool good = info >= 1 && info <= n;
        if (good) good = LU(info - 1, info - 1).re == 0 && LU(info - 1, info - 1).im == 0;
        c.ok("inv.info", good, "info %d but U(info,info) is not zero", info);
        return;
    }
    if (!c.ok("inv.info", info == 0, "info %d for nonsingular factors", info)) return;
    M X = A.ref();
    // undo the column interchanges: X = inv(LU) P  ->  Xf = inv(LU)
    for (int j = 0; j < n; ++j)
        if (pv[j] != j)
            for (int i = 0; i < n; ++i) std::swap(X(i, j), X(i, pv[j]));
    M Lm = triM(LU, Uplo::Lower, Diag::Unit), U = triM(LU, Uplo::Upper, Diag::NonUnit), Li(n, n), Ui(n, n);
    for (int j = 0; j < n; ++j) {
        for (int i = j; i < n; ++i) {
            Z s = i == j ? Z(1) : Z(0);
            for (int q = j; q < i; ++q) s -= Lm(i, q) * Li(q, j);
            Li(i, j) = s;
        }
        for (int i = j; i >= 0; --i) {
            Z s = i == j ? Z(1) : Z(0);
            for (int q = i + 1; q <= j; ++q) s -= U(i, q) * Ui(q, j);
            Ui(i, j) = s / U(i, i);
        }
    }
    M W = mul(Ui, Li);
    // componentwise first-order bounds of both methods, as a matrix
    M aL = absM(Lm), aU = absM(U), aLi = absM(Li), aUi = absM(Ui);
    M S1 = mul(mul(aUi, mul(aU, aUi)), mul(aLi, mul(aL, aLi)));
    F big = nmax(S1);
    // stay inside the range
    if (!(big * F(n + 1) * F(1e3) < rmax())) { c.count("inv_skip_range"); return; }
    // magnitudes that underflow are not judged relatively
    M mag = S1;
    for (auto& z : mag.a) z = Z(z.re + rmin() / eps());
    F cond = nrm(S1) / (nrm(W) + rmin());
    if (cond * eps() * F(50 * (n + 3)) > F(0.1)) { c.count("inv_illcond"); return; }
    c.count("inv_judged");
    c.small("inv.err", nrm(X - W), nrm(S1) + rmin() / eps(), 10.0 * (n + 3));
}
VK_MAIN
