// C09: orthogonal factorizations, generators and multipliers
#include "hh.hpp"
#include <iostream>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/trge_qr2.hpp>
#include <tlapack/lapack/trge_ung2r.hpp>
using namespace vk;
namespace tl = tlapack;

static const Direction DI[2] = {Direction::Forward, Direction::Backward};
static const StoreV SV[2] = {StoreV::Columnwise, StoreV::Rowwise};
static const Side SD[2] = {Side::Left, Side::Right};
static const Op OP3[3] = {Op::NoTrans, Op::ConjTrans, Op::Trans};
// QR, QL, LQ, RQ
static Direction dirOf(int f) { return DI[f & 1]; }
static StoreV svOf(int f) { return SV[f >> 1]; }
static const char* FN[4] = {"QR", "QL", "LQ", "RQ"};
static int shape(Rng& g) { return g.coin(0.12) ? g.range(30, 72) : dim(g, 30); }

// factor part of the output
static M factor(const M& A, int f)
{
    int m = A.m, n = A.n, k = std::min(m, n);
    M R = f < 2 ? M(m, n) : M(m, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) {
            bool in = false;
            if (f == 0) in = i <= j;                    // R upper trapezoidal
            if (f == 2) in = i >= j;                    // L lower trapezoidal
            if (f == 1) in = (i - (m - k)) >= (j - (n - k));  // L, last k rows aligned to the right
            if (f == 3) in = (i - (m - k)) <= (j - (n - k));
            if (f == 1 || f == 3) in = f == 1 ? (m - 1 - i) <= (n - 1 - j) : (n - 1 - j) <= (m - 1 - i);
            if (in) R(i, j) = A(i, j);
        }
    return R;
}
// the k reflectors stored in A
static M reflectors(const M& A, int f)
{
    int m = A.m, n = A.n, k = std::min(m, n);
    if (f == 0) return sub(A, 0, m, 0, k);
    if (f == 1) return sub(A, 0, m, n - k, n);
    if (f == 2) return sub(A, 0, k, 0, n);
    return sub(A, m - k, m, 0, n);
}
static void judgeFactor(Case& c, const char* nm, int f, const M& A0, const M& A1, const M& tau)
{
    int m = A0.m, n = A0.n, k = std::min(m, n), nQ = f < 2 ? m : n;
    M VV = expandV(reflectors(A1, f), dirOf(f), svOf(f), nQ, k);
    M P = prodH(VV, tau, dirOf(f)), R = factor(A1, f);
    std::string s(nm);
    c.small((s + ".orth").c_str(), orth(P), 1, 10.0 * (k + 4));
    M B = f < 2 ? mul(P, R) : mul(R, ctr(P));
    smallCols(c, (s + ".res").c_str(), B - A0, A0, 8.0 * (nQ + k + 4), f >= 2);
    for (int j = 0; j < k; ++j)
        c.ok((s + ".tau").c_str(), ffinite(tau(j, 0).re) && abs(tau(j, 0)) <= F(2.01), "tau[%d] = %Lg", j, ld(abs(tau(j, 0))));
}

template <class T, class O, class F0, class F1, class F2>
static void fac(Case& c, int f, F0 plain, F1 worksize, F2 workfn)
{
    auto& g = c.rng;
    int m = shape(g), n = shape(g), k = std::min(m, n), kind = (int)(c.idx / 4 % dData_N);
    int nb = blk(g);
    bool wk = g.coin();
    O o;
    o.nb = nb;
    using V_ = decltype(o.variant);
    o.variant = g.coin(0.3) ? V_::Level2 : V_::Blocked;
    c.desc("householder_%s variant=%c work=%d m=%d n=%d nb=%d data=%s", FN[f], (char)o.variant, wk, m, n, nb, dname(kind));
    if (k) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(gen<T>(g, m, n, kind));
    M A0 = A.ref();
    Vec<T> tau(c, "tau", k);
    tau.junk();
    auto a = A.view();
    auto t = tau.view();
    int r;
    if (wk) {
        auto wi = worksize(a, t, o);
        Work<T> w(c, wi);
        auto wv = w.view();
        r = workfn(a, t, wv, o);
    }
    else r = plain(a, t, o);
    c.ok("qr.ret", r == 0, "return value %d", r);
    judgeFactor(c, FN[f], f, A0, A.ref(), tau.ref());
}
FAMILY(fac, 700, 14000)
{
    int f = (int)(c.idx % 4);
    if (f == 0) fac<T, tl::HouseholderQROpts>(c, f, [](auto& a, auto& t, auto& o) { return tl::householder_qr(a, t, o); },
        [](auto& a, auto& t, auto& o) { return tl::householder_qr_worksize<T>(a, t, o); },
        [](auto& a, auto& t, auto& w, auto& o) { return tl::householder_qr_work(a, t, w, o); });
    else if (f == 1) fac<T, tl::HouseholderQLOpts>(c, f, [](auto& a, auto& t, auto& o) { return tl::householder_ql(a, t, o); },
        [](auto& a, auto& t, auto& o) { return tl::householder_ql_worksize<T>(a, t, o); },
        [](auto& a, auto& t, auto& w, auto& o) { return tl::householder_ql_work(a, t, w, o); });
    else if (f == 2) fac<T, tl::HouseholderLQOpts>(c, f, [](auto& a, auto& t, auto& o) { return tl::householder_lq(a, t, o); },
        [](auto& a, auto& t, auto& o) { return tl::householder_lq_worksize<T>(a, t, o); },
        [](auto& a, auto& t, auto& w, auto& o) { return tl::householder_lq_work(a, t, w, o); });
    else fac<T, tl::HouseholderRQOpts>(c, f, [](auto& a, auto& t, auto& o) { return tl::householder_rq(a, t, o); },
        [](auto& a, auto& t, auto& o) { return tl::householder_rq_worksize<T>(a, t, o); },
        [](auto& a, auto& t, auto& w, auto& o) { return tl::householder_rq_work(a, t, w, o); });
}
// the plain-named entry points
FAMILY(facplain, 240, 4000)
{
    auto& g = c.rng;
    int f = (int)(c.idx % 4), lev2 = (int)(c.idx / 4 % 2);
    int m = shape(g), n = shape(g), k = std::min(m, n), kind = (int)(c.idx / 8 % dData_N);
    c.desc("ge%s%s m=%d n=%d data=%s", FN[f], lev2 ? "2" : "f", m, n, dname(kind));
    if (k) c.nt();
    Mat<T> A(c, "A", m, n);
    A.set(gen<T>(g, m, n, kind));
    M A0 = A.ref();
    Vec<T> tau(c, "tau", k);
    tau.junk();
    auto a = A.view();
    auto t = tau.view();
    int r = 0;
    if (f == 0) r = lev2 ? tl::geqr2(a, t) : tl::geqrf(a, t);
    if (f == 1) r = lev2 ? tl::geql2(a, t) : tl::geqlf(a, t);
    if (f == 2) r = lev2 ? tl::gelq2(a, t) : tl::gelqf(a, t);
    if (f == 3) r = lev2 ? tl::gerq2(a, t) : tl::gerqf(a, t);
    c.ok("qr.ret", r == 0);
    judgeFactor(c, FN[f], f, A0, A.ref(), tau.ref());
}
FAMILY(geqrt3, 240, 4000)
{
    auto& g = c.rng;
    int n = std::max(1, shape(g)), m = n + (g.coin(0.3) ? 0 : g.range(0, 20)), kind = (int)(c.idx % dData_N);
    tl::Geqrt3Opts o;
    o.nx = g.pick({1, 2, 3, 5, 8, 40});
    o.isw = g.coin(0.3);
    c.desc("geqrt3 m=%d n=%d nx=%d isw=%d data=%s", m, n, (int)o.nx, o.isw, dname(kind));
    c.nt();
    Mat<T> A(c, "A", m, n); Mat<T, LayB> Tm(c, "T", n, n);
    A.set(gen<T>(g, m, n, kind));
    M A0 = A.ref();
    Tm.junk(c);
    maskTri(Tm, Uplo::Upper);
    auto a = A.view();
    auto t = Tm.view();
    tl::geqrt3(a, t, o);
    M TT = triM(Tm.ref(), Uplo::Upper, Diag::NonUnit), tau(n, 1), A1 = A.ref();
    for (int i = 0; i < n; ++i) tau(i, 0) = TT(i, i);
    judgeFactor(c, "QRT3", 0, A0, A1, tau);
    if (!o.isw) {
        M VV = expandV(sub(A1, 0, m, 0, n), Direction::Forward, StoreV::Columnwise, m, n);
        M P = prodH(VV, tau, Direction::Forward);
        M B = M::eye(m, m) - mul(mul(VV, TT), ctr(VV));
        F vn = nrm(VV);
        c.small("QRT3.T", nrm(P - B), 1 + vn * vn * nrm(TT), 10.0 * (n + 4));
    }
}
FAMILY(gelqt, 240, 4000)
{
    auto& g = c.rng;
    int m = shape(g), n = shape(g), k = std::min(m, n), kind = (int)(c.idx % dData_N);
    int nb = g.pick({1, 2, 3, 4, 5, 8, 12});
    bool wk = g.coin();
    c.desc("gelqt m=%d n=%d nb=%d work=%d data=%s", m, n, nb, wk, dname(kind));
    if (k) c.nt();
    Mat<T> A(c, "A", m, n), TT(c, "TT", m, nb);
    A.set(gen<T>(g, m, n, kind));
    M A0 = A.ref();
    TT.fill(T(7));
    auto a = A.view();
    auto t = TT.view();
    int r;
    if (wk) {
        auto wi = tl::gelqt_worksize<T>(a, t);
        Work<T> w(c, wi);
        auto wv = w.view();
        r = tl::gelqt_work(a, t, wv);
    }
    else r = tl::gelqt(a, t);
    c.ok("qr.ret", r == 0);
    M A1 = A.ref(), T1 = TT.ref(), tau(k, 1);
    for (int j = 0; j < k; ++j) tau(j, 0) = T1(j, j % nb);
    judgeFactor(c, "LQT", 2, A0, A1, tau);
    M VV = expandV(sub(A1, 0, k, 0, n), Direction::Forward, StoreV::Rowwise, n, k);
    for (int j = 0; j < k; j += nb) {
        int ib = std::min(nb, k - j);
        M V = sub(VV, 0, n, j, j + ib), Tj = triM(sub(T1, j, j + ib, 0, ib), Uplo::Upper, Diag::NonUnit);
        M P = prodH(V, sub(tau, j, j + ib, 0, 1), Direction::Forward);
        F vn = nrm(V);
        c.small("LQT.T", nrm(P - (M::eye(n, n) - mul(mul(V, Tj), ctr(V)))), 1 + vn * vn * nrm(Tj), 10.0 * (ib + 4));
    }
}
// generators: which = 0 level2 generic, 1 blocked generic, 2 gen_householder_q, 3 named level 2, 4 named blocked
FAMILY(gen, 900, 18000)
{
    auto& g = c.rng;
    int id = (int)c.idx, f = id % 4, which = id / 4 % 5;
    Direction d = dirOf(f);
    StoreV s = svOf(f);
    bool cw = s == StoreV::Columnwise;
    int kmin = 0;
    int n = shape(g), k = g.coin(0.4) ? n : g.range(kmin, n), m = n + (g.coin(0.3) ? 0 : g.range(0, 20));
    int nb = blk(g);
    bool wk = g.coin();
    // Q is nQ x n (columnwise) or n x nQ (rowwise), nQ = m
    c.desc("gen_q %s which=%d work=%d order=%d cols=%d k=%d nb=%d", FN[f], which, wk, m, n, k, nb);
    if (n && k) c.nt();
    M V0, tau0;
    randReflectors(c, m, k, d, s, V0, tau0);
    Mat<T> A(c, "A", cw ? m : n, cw ? n : m);
    A.junk(c);  // everything outside the reflectors is output only
    int off = d == Direction::Forward ? 0 : n - k;
    for (int a = 0; a < V0.m; ++a)
        for (int b = 0; b < V0.n; ++b)
            if (refV(d, s, m, k, a, b)) A(cw ? a : a + off, cw ? b + off : b) = Mat<T>::fromZ(V0(a, b));
    Vec<T> tau(c, "tau", k);
    tau.set(tau0);
    tau.freeze();
    M P = prodH(expandV(V0, d, s, m, k), tau.ref(), d);
    auto a = A.view();
    auto t = tau.view();
    int r = 0;
    tl::UngqOpts uo{(size_t)nb};
    tl::GenHouseholderQOpts go;
    go.nb = nb;
    go.variant = g.coin() ? tl::GenHouseholderQVariant::Level2 : tl::GenHouseholderQVariant::Blocked;
    if (which == 0) {
        if (wk) {
            auto wi = tl::ungq_level2_worksize<T>(d, s, a, t);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::ungq_level2_work(d, s, a, t, wv);
        }
        else r = tl::ungq_level2(d, s, a, t);
    }
    else if (which == 1) {
        if (wk) {
            auto wi = tl::ungq_worksize<T>(d, s, a, t, uo);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::ungq_work(d, s, a, t, wv, uo);
        }
        else r = tl::ungq(d, s, a, t, uo);
    }
    else if (which == 2) {
        if (wk) {
            auto wi = tl::gen_householder_q_worksize<T>(d, s, a, t, go);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::gen_householder_q_work(d, s, a, t, wv, go);
        }
        else r = tl::gen_householder_q(d, s, a, t, go);
    }
    else if (which == 3) {
        if (f == 0) r = tl::ung2r(a, t);
        if (f == 1) r = tl::ung2l(a, t);
        if (f == 2) r = tl::ungl2(a, t);
        if (f == 3) r = tl::ungr2(a, t);
    }
    else {
        if (f == 0) r = tl::ungqr(a, t, {(size_t)nb});
        if (f == 1) r = tl::ungql(a, t, {(size_t)nb});
        if (f == 2) r = tl::unglq(a, t, {(size_t)nb});
        if (f == 3) r = tl::ungrq(a, t, {(size_t)nb});
    }
    c.ok("genq.ret", r == 0);
    M Q = A.ref();
    if (!cw) P = ctr(P);
    int o = d == Direction::Forward ? 0 : m - n;
    M W = cw ? sub(P, 0, m, o, o + n) : sub(P, o, o + n, 0, m);
    c.small("genq.value", nrm(Q - W), 1 + (F)n / 8, 10.0 * (k + 4));
    c.small("genq.orth", orth(cw ? Q : ctr(Q)), 1 + (F)n / 8, 10.0 * (k + 4));
}
FAMILY(qmul, 1300, 26000)
{
    auto& g = c.rng;
    int id = (int)c.idx, f = id % 4, which = id / 4 % 5;
    Side sd = SD[id / 20 % 2];
    Op op = OP3[id / 40 % (IsC ? 2 : 3)];
    Direction d = dirOf(f);
    StoreV s = svOf(f);
    bool cw = s == StoreV::Columnwise;
    int nQ = shape(g), k = g.coin(0.3) ? nQ : g.range(0, nQ), o = dim(g, 20);
    int nb = blk(g);
    bool wk = g.coin();
    int m = sd == Side::Left ? nQ : o, n = sd == Side::Left ? o : nQ;
    c.desc("q_mul %s which=%d work=%d side=%c op=%c m=%d n=%d k=%d nb=%d", FN[f], which, wk, ch(sd), ch(op), m, n, k, nb);
    if (m && n && k) c.nt();
    M V0, tau0;
    randReflectors(c, nQ, k, d, s, V0, tau0);
    Mat<T> V(c, "V", V0.m, V0.n); Mat<T, LayC> C(c, "C", m, n);
    V.set(V0);
    Vec<T> tau(c, "tau", k);
    tau.set(tau0);
    int kind = g.pick({dRandom, dInt, dGradedR, dGradedC, dBig, dTiny, dZero});
    C.set(gen<T>(g, m, n, kind));
    M C0 = C.ref();
    M P = prodH(expandV(V0, d, s, nQ, k), tau.ref(), d);
    maskV(V, d, s, nQ, k);
    V.freeze();
    tau.freeze();
    auto v = V.view();
    auto t = tau.view();
    auto cc = C.view();
    int r = 0;
    tl::UnmqOpts uo{(size_t)nb};
    tl::HouseholderQMulOpts ho;
    ho.nb = nb;
    ho.variant = g.coin() ? tl::HouseholderQMulVariant::Level2 : tl::HouseholderQMulVariant::Blocked;
    if (which == 0) {
        if (wk) {
            auto wi = tl::unmq_level2_worksize<T>(sd, op, d, s, v, t, cc);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::unmq_level2_work(sd, op, d, s, v, t, cc, wv);
        }
        else r = tl::unmq_level2(sd, op, d, s, v, t, cc);
    }
    else if (which == 1) {
        if (wk) {
            auto wi = tl::unmq_worksize<T>(sd, op, d, s, v, t, cc, uo);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::unmq_work(sd, op, d, s, v, t, cc, wv, uo);
        }
        else r = tl::unmq(sd, op, d, s, v, t, cc, uo);
    }
    else if (which == 2) {
        if (wk) {
            auto wi = tl::householder_q_mul_worksize<T>(sd, op, d, s, v, t, cc, ho);
            Work<T> w(c, wi);
            auto wv = w.view();
            r = tl::householder_q_mul_work(sd, op, d, s, v, t, cc, wv, ho);
        }
        else r = tl::householder_q_mul(sd, op, d, s, v, t, cc, ho);
    }
    else if (which == 3) {
        if (f == 0) r = tl::unm2r(sd, op, v, t, cc);
        if (f == 1) r = tl::unm2l(sd, op, v, t, cc);
        if (f == 2) r = tl::unml2(sd, op, v, t, cc);
        if (f == 3) r = tl::unmr2(sd, op, v, t, cc);
    }
    else {
        if (f == 0) r = tl::unmqr(sd, op, v, t, cc, {(size_t)nb});
        if (f == 1) r = tl::unmql(sd, op, v, t, cc, {(size_t)nb});
        if (f == 2) r = tl::unmlq(sd, op, v, t, cc, {(size_t)nb});
        if (f == 3) r = tl::unmrq(sd, op, v, t, cc, {(size_t)nb});
    }
    c.ok("qmul.ret", r == 0);
    M Q = cw ? P : ctr(P);
    if (op != Op::NoTrans) Q = ctr(Q);
    M W = sd == Side::Left ? mul(Q, C0) : mul(C0, Q);
    smallCols(c, "qmul", C.ref() - W, C0, 10.0 * (k + 4), sd == Side::Right);
}
// triangular on top of a rectangle
FAMILY(trge, 160, 3000)
{
    auto& g = c.rng;
    int n = g.range(1, 14), m = g.coin(0.1) ? 0 : g.range(1, 20), k = n + (g.coin() ? 0 : g.range(0, m));
    int kind = g.range(0, dData_N - 1);
    if (m == 0) m = 1;
    k = std::min(k, m + n);
    c.desc("trge n=%d m=%d k=%d data=%s", n, m, k, dname(kind));
    c.nt();
    Mat<T> A(c, "A", m + n, n), W(c, "W", m + n, k);
    A.set(gen<T>(g, m + n, n, kind));
    M A0 = A.ref();
    A.maskif([&](int i, int j) { return i < n && i > j; });
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) A0(i, j) = Z(0);
    std::vector<T> tau(n);
    auto a = A.view();
    trge_qr2(a, tau);
    M A1 = A.ref(), tz(n, 1), VV(m + n, n), R(m + n, n);
    for (int j = 0; j < n; ++j) {
        tz(j, 0) = toZ(tau[j]);
        VV(j, j) = Z(1);
        for (int i = 0; i < m; ++i) VV(n + i, j) = A1(n + i, j);
        for (int i = 0; i <= j; ++i) R(i, j) = A1(i, j);
    }
    M P = prodH(VV, tz, Direction::Forward);
    c.small("trge.orth", orth(P), 1, 10.0 * (n + 4));
    smallCols(c, "trge.res", mul(P, R) - A0, A0, 8.0 * (m + 2 * n + 4), false);
    // Q
    // (undocumented routine: it leaves the strictly lower part of the top
    // block alone, so that part is zero on entry as in its only caller)
    W.junk(c);
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) W(i, j) = T(0);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) W(n + i, j) = A(n + i, j);
    auto w = W.view();
    trge_ung2r(w, tau);
    c.small("trge.q", nrm(W.ref() - sub(P, 0, m + n, 0, k)), 1, 10.0 * (n + 4));
}
VK_MAIN
