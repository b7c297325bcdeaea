// C29: propagation of NaN / Inf through the kernels, strong zero, termination of scalar kernels
#include "ops.hpp"
#include <functional>
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laev2.hpp>
#include <tlapack/lapack/lasy2.hpp>
#include <tlapack/lapack/lahqr_eig22.hpp>
#include <tlapack/lapack/lahqr_schur22.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
#include <tlapack/lapack/trmm_out.hpp>
using namespace vk;
namespace tl = tlapack;
using tl::Op;
using tl::Uplo;
using tl::Side;
using tl::Diag;
using tl::StrongZero;
static const R NaN = std::numeric_limits<R>::quiet_NaN();
static const R Inf = std::numeric_limits<R>::infinity();
static bool isn(const R& x) { return x != x; }
static bool nonfin(const R& x) { return x != x || x > std::numeric_limits<R>::max() || x < -std::numeric_limits<R>::max(); }
template <class S>
static bool anyNaN(const S& x)
{
    if constexpr (tl::is_complex<S>) return isn(x.real()) || isn(x.imag());
    else return isn(x);
}
template <class S>
static bool anyNonfin(const S& x)
{
    if constexpr (tl::is_complex<S>) return nonfin(x.real()) || nonfin(x.imag());
    else return nonfin(x);
}
// an operand: elements addressed by (i,j), some of which are referenced by the kernel
template <class T>
struct Opnd {
    std::string nm;
    int m, n;
    std::function<T&(int, int)> at;
    std::function<bool(int, int)> refd = [](int, int) { return true; };
    bool realdiag = false;   // imaginary parts of the diagonal are not referenced
    bool noinf = false;      // an infinity may legitimately vanish (divisor)
    std::vector<T> save;
    void keep()
    {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (refd(i, j)) save.push_back(at(i, j));
    }
    void restore()
    {
        size_t k = 0;
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (refd(i, j)) at(i, j) = save[k++];
    }
};
// dep(t,p,q,o,i,j): does output element (i,j) of operand o depend on element (p,q) of operand t?
template <class T>
static void propagate(Case& c, const char* key, std::vector<Opnd<T>>& ops, std::vector<int> outs, std::function<void()> run,
                      std::function<bool(int, int, int, int, int, int)> dep, std::function<bool(int, int, int)> infok = nullptr)
{
    auto& g = c.rng;
    for (auto& o : ops) o.keep();
    run();
    std::vector<std::vector<T>> base;
    for (int o : outs) {
        std::vector<T> v;
        for (int j = 0; j < ops[o].n; ++j)
            for (int i = 0; i < ops[o].m; ++i) v.push_back(ops[o].refd(i, j) ? ops[o].at(i, j) : T(0));
        base.push_back(v);
    }
    for (int trial = 0; trial < 3; ++trial) {
        for (auto& o : ops) o.restore();
        int t = g.range(0, (int)ops.size() - 1);
        auto& P = ops[t];
        if (P.m == 0 || P.n == 0) continue;
        int p = g.range(0, P.m - 1), q = g.range(0, P.n - 1);
        for (int w = 0; w < 30 && !P.refd(p, q); ++w) p = g.range(0, P.m - 1), q = g.range(0, P.n - 1);
        if (!P.refd(p, q)) continue;
        bool inf = g.coin(0.35);
        if (inf && (P.noinf || (infok && !infok(t, p, q)))) inf = false;
        R v = inf ? (g.coin() ? Inf : -Inf) : NaN;
        T old = P.at(p, q), nw;
        if constexpr (IsC) {
            int w = P.realdiag && p == q ? 0 : g.range(0, 2);
            nw = w == 0 ? T(v, old.imag()) : w == 1 ? T(old.real(), v) : T(v, v);
        }
        else nw = v;
        P.at(p, q) = nw;
        run();
        for (size_t k = 0; k < outs.size(); ++k) {
            auto& O = ops[outs[k]];
            for (int j = 0; j < O.n; ++j)
                for (int i = 0; i < O.m; ++i) {
                    if (!O.refd(i, j)) continue;
                    T x = O.at(i, j);
                    bool d = dep(t, p, q, outs[k], i, j);
                    if (d) {
                        bool good = inf ? anyNonfin(x) : anyNaN(x);
                        if (!c.ok((std::string(key) + ".lost").c_str(), good, "%s in %s(%d,%d) does not reach %s(%d,%d)", inf ? "Inf" : "NaN", P.nm.c_str(), p, q, O.nm.c_str(), i, j)) return;
                        c.count("propagated");
                    }
                    else if (!c.ok((std::string(key) + ".spread").c_str(), same_bits(&x, &base[k][i + (size_t)j * O.m]), "%s in %s(%d,%d) changes %s(%d,%d), which does not depend on it", inf ? "Inf" : "NaN",
                                   P.nm.c_str(), p, q, O.nm.c_str(), i, j)) return;
                }
        }
    }
}
// nonzero data; zeros sprinkled on request (NaN times zero is still NaN)
template <class T>
static T nz(Rng& g, bool zeros)
{
    if (zeros && g.coin(0.3)) return T(0);
    auto r = [&]() { return (R)((g.coin() ? 1 : -1) * (0.5 + 0.5 * g.u01())); };
    if constexpr (IsC) return T(r(), r());
    else return r();
}
template <class T, class Mt>
static Opnd<T> mo(Case& c, const char* nm, Mt& A, bool zeros)
{
    Opnd<T> o;
    o.nm = nm, o.m = (int)A.m, o.n = (int)A.n;
    auto* a = &A;
    o.at = [a](int i, int j) -> T& { return (*a)(i, j); };
    for (int j = 0; j < o.n; ++j)
        for (int i = 0; i < o.m; ++i) A(i, j) = nz<T>(c.rng, zeros);
    return o;
}
template <class T, class Vt>
static Opnd<T> vo(Case& c, const char* nm, Vt& x, bool zeros)
{
    Opnd<T> o;
    o.nm = nm, o.m = (int)x.n, o.n = 1;
    auto* a = &x;
    o.at = [a](int i, int) -> T& { return (*a)[i]; };
    for (int i = 0; i < o.m; ++i) x[i] = nz<T>(c.rng, zeros);
    return o;
}
template <class T>
static void tri(Opnd<T>& o, Mat<T>& A, Uplo u, bool unit = false)
{
    auto in = [u, unit](int i, int j) { return (unit ? i != j : true) && (u == Uplo::General || (u == Uplo::Upper ? i <= j : i >= j)); };
    o.refd = in;
    A.maskif([&](int i, int j) { return !in(i, j); });
}
static int sz(Rng& g) { return g.coin(0.1) ? 1 : g.range(1, 9); }
template <class T>
static T cof(Rng& g, bool zero) { return zero ? T(0) : g.coin(0.3) ? T(1) : nz<T>(g, false); }
template <class S> static R rpart(const S& x) { if constexpr (IsC) return x.real(); else return x; }
static Op pop(Rng& g) { return g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj}); }
static Op pop3(Rng& g) { return g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}); }
static bool tr(Op o) { return o == Op::Trans || o == Op::ConjTrans; }
static Uplo ul(Rng& g) { return g.coin() ? Uplo::Upper : Uplo::Lower; }

FAMILY(nf_level1, 900, 20000)
{
    auto& g = c.rng;
    int n = sz(g), o = (int)(c.idx % 9);
    bool z = g.coin(0.3), a0 = z && g.coin(0.3);
    T alpha = cof<T>(g, a0);
    static const char* nm[] = {"axpy", "scal", "copy", "swap", "rot", "rotm", "dot", "dotu", "asum/nrm2"};
    c.desc("%s n=%d zeros=%d alpha0=%d", nm[o], n, z, a0);
    c.nt();
    Vec<T> x(c, "x", n), y(c, "y", n);
    Vec<T> r(c, "r", 1, 1);
    std::vector<Opnd<T>> ops;
    ops.push_back(vo<T>(c, "x", x, z));
    if (o != 1 && o != 8) ops.push_back(vo<T>(c, "y", y, z));
    auto xv = x.view(), yv = y.view();
    auto diag = [](int t, int p, int q, int oo, int i, int j) { return i == p; };
    auto inf0 = [&](int t, int, int) { return !z; };  // with zero data Inf*0 = NaN is fine as well, but 0*Inf + 0 may be dropped by no rule: keep to nonzero data
    if (o == 0) propagate<T>(c, "axpy", ops, {1}, [&] { tl::axpy(alpha, xv, yv); }, diag, inf0);
    else if (o == 1) propagate<T>(c, "scal", ops, {0}, [&] { tl::scal(alpha, xv); }, diag, inf0);
    else if (o == 2) propagate<T>(c, "copy", ops, {1}, [&] { tl::copy(xv, yv); }, [](int t, int p, int, int, int i, int) { return t == 0 && i == p; });
    else if (o == 3) propagate<T>(c, "swap", ops, {0, 1}, [&] { tl::swap(xv, yv); }, [](int t, int p, int, int oo, int i, int) { return t != oo && i == p; });
    else if (o == 4) {
        R cs = (R)(0.5 + 0.4 * g.u01());
        T s = nz<T>(g, false);
        propagate<T>(c, "rot", ops, {0, 1}, [&] { tl::rot(xv, yv, cs, s); }, diag);
    }
    else if (o == 5) {
        if constexpr (!IsC) {
            T h[4];
            for (auto& e : h) e = nz<T>(g, false);
            int flag = -g.range(-1, 1);
            propagate<T>(c, "rotm", ops, {0, 1}, [&] {
                if (flag == -1) tl::rotm<-1>(xv, yv, h);
                else if (flag == 0) tl::rotm<0>(xv, yv, h);
                else tl::rotm<1>(xv, yv, h); }, diag);
        }
    }
    else {
        Opnd<T> ro;
        ro.nm = "result", ro.m = ro.n = 1;
        ro.at = [&](int, int) -> T& { return r[0]; };
        r[0] = T(0);
        ops.push_back(ro);
        int ri = (int)ops.size() - 1;
        auto all = [ri](int t, int, int, int, int, int) { return t != ri; };
        // an infinity in one component can meet an opposite one: real products only
        if (o == 6) propagate<T>(c, "dot", ops, {ri}, [&] { r[0] = tl::dot(xv, yv); }, all, [&](int t, int, int) { return !z && t != ri; });
        else if (o == 7) propagate<T>(c, "dotu", ops, {ri}, [&] { r[0] = tl::dotu(xv, yv); }, all, [&](int t, int, int) { return !z && t != ri; });
        else {
            propagate<T>(c, "asum", ops, {ri}, [&] { r[0] = T(tl::asum(xv)); }, all);
            for (auto& q : ops) q.restore(), q.save.clear();
            propagate<T>(c, "nrm2", ops, {ri}, [&] { r[0] = T(tl::nrm2(xv)); }, all);
        }
    }
}
FAMILY(nf_level2, 1800, 40000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 11);
    static const char* nm[] = {"gemv", "symv", "hemv", "ger", "geru", "her", "her2", "syr", "syr2", "trmv", "trsv"};
    int m = sz(g), n = o == 0 || o == 3 || o == 4 ? sz(g) : m;
    bool z = g.coin(0.3), a0 = z && g.coin(0.3), b0 = z && g.coin(0.4);
    T al = cof<T>(g, a0), be = cof<T>(g, b0);
    R ra = rpart(cof<T>(g, a0));
    Op op = o == 0 ? pop(g) : pop(g);
    Uplo u = ul(g);
    Diag d = g.coin() ? Diag::Unit : Diag::NonUnit;
    c.desc("%s m=%d n=%d op=%c uplo=%c diag=%c zeros=%d a0=%d b0=%d", nm[o], m, n, (char)op ? (char)op : '-', (char)u, (char)d, z, a0, b0);
    c.nt();
    Mat<T> A(c, "A", m, n);
    int nx = o == 0 ? (tr(op) ? m : n) : o == 3 || o == 4 ? m : n, ny = o == 0 ? (tr(op) ? n : m) : n;
    Vec<T> x(c, "x", nx), y(c, "y", ny);
    std::vector<Opnd<T>> ops;
    ops.push_back(mo<T>(c, "A", A, z));
    ops.push_back(vo<T>(c, "x", x, z));
    auto Av = A.view();
    auto xv = x.view(), yv = y.view();
    auto nzInf = [&](int, int, int) { return !z; };
    std::string key = nm[o];
    const char* k = nm[o];
    bool hasy = o == 0 || o == 1 || o == 2 || o == 3 || o == 4 || o == 6 || o == 8;
    if (hasy) ops.push_back(vo<T>(c, "y", y, z));
    if (o == 1 || o == 2 || (o >= 5 && o <= 8)) tri(ops[0], A, u);
    if (o == 2 || o == 5 || o == 6) ops[0].realdiag = true;
    if (o == 0)
        propagate<T>(c, k, ops, {2}, [&] { tl::gemv(op, al, Av, xv, be, yv); },
                     [&](int t, int p, int q, int, int i, int) { return t == 0 ? i == (tr(op) ? q : p) : t == 1 ? true : i == p; }, nzInf);
    else if (o == 1 || o == 2)
        propagate<T>(c, k, ops, {2}, [&] { if (o == 1) tl::symv(u, al, Av, xv, be, yv); else tl::hemv(u, al, Av, xv, be, yv); },
                     [&](int t, int p, int q, int, int i, int) { return t == 0 ? (i == p || i == q) : t == 1 ? true : i == p; }, nzInf);
    else if (o == 3 || o == 4)
        propagate<T>(c, k, ops, {0}, [&] { if (o == 3) tl::ger(al, xv, yv, Av); else tl::geru(al, xv, yv, Av); },
                     [&](int t, int p, int q, int, int i, int j) { return t == 0 ? (i == p && j == q) : t == 1 ? i == p : j == p; }, nzInf);
    else if (o == 5 || o == 7)
        propagate<T>(c, k, ops, {0}, [&] { if (o == 5) tl::her(u, ra, xv, Av); else tl::syr(u, al, xv, Av); },
                     [&](int t, int p, int q, int, int i, int j) { return t == 0 ? (i == p && j == q) : (i == p || j == p); }, nzInf);
    else if (o == 6 || o == 8)
        propagate<T>(c, k, ops, {0}, [&] { if (o == 6) tl::her2(u, al, xv, yv, Av); else tl::syr2(u, al, xv, yv, Av); },
                     [&](int t, int p, int q, int, int i, int j) { return t == 0 ? (i == p && j == q) : (i == p || j == p); }, nzInf);
    else {
        bool up = (u == Uplo::Upper) != tr(op);   // shape of op(A)
        tri(ops[0], A, u, d == Diag::Unit);
        for (int i = 0; i < m; ++i)
            if (d == Diag::NonUnit) A(i, i) = nz<T>(g, false) * T(2);
        if (o == 9)
            propagate<T>(c, k, ops, {1}, [&] { tl::trmv(u, op, d, Av, xv); },
                         [&](int t, int p, int q, int, int i, int) { return t == 0 ? i == (tr(op) ? q : p) : up ? i <= p : i >= p; }, nzInf);
        else {
            propagate<T>(c, k, ops, {1}, [&] { tl::trsv(u, op, d, Av, xv); },
                         [&](int t, int p, int q, int, int i, int) { int r = t == 0 ? (tr(op) ? q : p) : p; return up ? i <= r : i >= r; },
                         [&](int t, int p, int q) { return !z && !(t == 0 && p == q); });
        }
    }
}
FAMILY(nf_level3, 2600, 60000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 13);
    static const char* nm[] = {"gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "trmm", "trsm", "gemmtr", "trmm_out", "hemm2", "gemm"};
    if (o == 12) o = 0;
    bool z = g.coin(0.3), a0 = z && g.coin(0.3), b0 = z && g.coin(0.4);
    T al = cof<T>(g, a0), be = cof<T>(g, b0);
    R ra = rpart(cof<T>(g, a0)), rb = rpart(cof<T>(g, b0));
    Op ta = pop3(g), tb = pop3(g);
    Side sd = g.coin() ? Side::Left : Side::Right;
    Uplo u = ul(g);
    Diag d = g.coin() ? Diag::Unit : Diag::NonUnit;
    int m = sz(g), n = sz(g), k = sz(g);
    auto nzInf = [&](int, int, int) { return !z; };
    std::vector<Opnd<T>> ops;
    const char* key = nm[o];
    auto head = [&] {
        c.desc("%s m=%d n=%d k=%d ta=%d tb=%d side=%c uplo=%c diag=%c zeros=%d a0=%d b0=%d", nm[o], m, n, k, (int)ta, (int)tb, (char)sd, (char)u, (char)d, z, a0, b0);
        c.nt();
    };
    if (o == 0 || o == 9) {
        if (o == 9) n = m;
        head();
        Mat<T> A(c, "A", tr(ta) ? k : m, tr(ta) ? m : k), B(c, "B", tr(tb) ? n : k, tr(tb) ? k : n), C(c, "C", m, n);
        ops.push_back(mo<T>(c, "A", A, z)), ops.push_back(mo<T>(c, "B", B, z)), ops.push_back(mo<T>(c, "C", C, z));
        if (o == 9) tri(ops[2], C, u);
        auto a = A.view(), b = B.view(), cc = C.view();
        propagate<T>(c, key, ops, {2}, [&] { if (o == 0) tl::gemm(ta, tb, al, a, b, be, cc); else tl::gemmtr(u, ta, tb, al, a, b, be, cc); },
                     [&](int t, int p, int q, int, int i, int j) { return t == 0 ? i == (tr(ta) ? q : p) : t == 1 ? j == (tr(tb) ? p : q) : i == p && j == q; }, nzInf);
    }
    else if (o == 1 || o == 2 || o == 11) {
        head();
        int na = sd == Side::Left ? m : n;
        Op tb2 = o == 11 ? pop3(g) : Op::NoTrans;
        Mat<T> A(c, "A", na, na), B(c, "B", o == 11 && tr(tb2) ? n : m, o == 11 && tr(tb2) ? m : n), C(c, "C", m, n);
        ops.push_back(mo<T>(c, "A", A, z)), ops.push_back(mo<T>(c, "B", B, z)), ops.push_back(mo<T>(c, "C", C, z));
        tri(ops[0], A, u);
        ops[0].realdiag = o != 1;
        auto a = A.view(), b = B.view(), cc = C.view();
        propagate<T>(c, key, ops, {2}, [&] {
                if (o == 1) tl::symm(sd, u, al, a, b, be, cc);
                else if (o == 2) tl::hemm(sd, u, al, a, b, be, cc);
                else tl::hemm2(sd, u, tb2, al, a, b, be, cc); },
            [&](int t, int p, int q, int, int i, int j) {
                bool tt = o == 11 && tr(tb2);
                if (t == 0) return sd == Side::Left ? (i == p || i == q) : (j == p || j == q);
                if (t == 1) return sd == Side::Left ? j == (tt ? p : q) : i == (tt ? q : p);
                return i == p && j == q; }, nzInf);
    }
    else if (o >= 3 && o <= 6) {
        bool herm = o == 4 || o == 6, two = o >= 5;
        Op t = g.coin() ? Op::NoTrans : herm ? Op::ConjTrans : Op::Trans;
        ta = t;
        m = n;
        head();
        Mat<T> A(c, "A", tr(t) ? k : n, tr(t) ? n : k), B(c, "B", tr(t) ? k : n, tr(t) ? n : k), C(c, "C", n, n);
        ops.push_back(mo<T>(c, "A", A, z));
        if (two) ops.push_back(mo<T>(c, "B", B, z));
        ops.push_back(mo<T>(c, "C", C, z));
        int oc = two ? 2 : 1;
        tri(ops[oc], C, u);
        ops[oc].realdiag = herm;
        auto a = A.view(), b = B.view(), cc = C.view();
        propagate<T>(c, key, ops, {oc}, [&] {
                if (o == 3) tl::syrk(u, t, al, a, be, cc);
                else if (o == 4) tl::herk(u, t, ra, a, rb, cc);
                else if (o == 5) tl::syr2k(u, t, al, a, b, be, cc);
                else tl::her2k(u, t, al, a, b, rb, cc); },
            [&](int s, int p, int q, int, int i, int j) {
                if (s == oc) return i == p && j == q;
                int r = tr(t) ? q : p;
                return i == r || j == r; }, nzInf);
    }
    else {
        int na = sd == Side::Left ? m : n;
        if (o == 10) ta = Op::NoTrans;  // the only documented possibility
        head();
        bool up = (u == Uplo::Upper) != tr(ta);
        Mat<T> A(c, "A", na, na), B(c, "B", m, n), C(c, "C", m, n);
        ops.push_back(mo<T>(c, "A", A, z)), ops.push_back(mo<T>(c, "B", B, z));
        tri(ops[0], A, u, d == Diag::Unit);
        for (int i = 0; i < na; ++i)
            if (d == Diag::NonUnit) A(i, i) = nz<T>(g, false) * T(2);
        auto a = A.view(), b = B.view(), cc = C.view();
        bool L = sd == Side::Left;
        if (o == 7)
            propagate<T>(c, key, ops, {1}, [&] { tl::trmm(sd, u, ta, d, al, a, b); },
                [&](int t, int p, int q, int, int i, int j) {
                    int r = tr(ta) ? q : p, s = tr(ta) ? p : q;
                    if (t == 0) return L ? i == r : j == s;
                    return L ? j == q && (up ? i <= p : i >= p) : i == p && (up ? j >= q : j <= q); }, nzInf);
        else if (o == 8)
            propagate<T>(c, key, ops, {1}, [&] { tl::trsm(sd, u, ta, d, al, a, b); },
                [&](int t, int p, int q, int, int i, int j) {
                    int r = tr(ta) ? q : p, s = tr(ta) ? p : q;
                    if (t == 0) return L ? (up ? i <= r : i >= r) : (up ? j >= s : j <= s);
                    return L ? j == q && (up ? i <= p : i >= p) : i == p && (up ? j >= q : j <= q); },
                [&](int t, int p, int q) { return !z && !(t == 0 && p == q); });
        else {
            Op t2 = g.coin(0.5) ? Op::NoTrans : pop3(g);
            bool tt = tr(t2);
            Mat<T> B2(c, "B2", tt ? n : m, tt ? m : n);
            ops[1] = mo<T>(c, "B", B2, z);
            ops.push_back(mo<T>(c, "C", C, z));
            auto b2 = B2.view();
            propagate<T>(c, key, ops, {2}, [&] { tl::trmm_out(sd, u, ta, d, t2, al, a, b2, be, cc); },
                [&](int t, int p, int q, int, int i, int j) {
                    int r = tr(ta) ? q : p, s = tr(ta) ? p : q;
                    if (t == 0) return L ? i == r : j == s;
                    if (t == 2) return i == p && j == q;
                    int bp = tt ? q : p, bq = tt ? p : q;
                    return L ? j == bq && (up ? i <= bp : i >= bp) : i == bp && (up ? j >= bq : j <= bq); }, nzInf);
        }
    }
}
// overloads without beta and beta = StrongZero ignore previous contents
template <class T, class Out>
static void sz2(Case& c, const char* key, Out& C, int m, int n, std::function<bool(int, int)> in, std::function<T&(int, int)> at, std::function<void(int)> run)
{
    std::vector<T> v[3];
    for (int k = 0; k < 3; ++k) {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (in(i, j)) at(i, j) = k == 0 ? T(0) : (i + j) % 3 ? T(NaN) : T(Inf);
        run(k);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (in(i, j)) v[k].push_back(at(i, j));
    }
    for (size_t i = 0; i < v[0].size(); ++i) {
        c.ok((std::string(key) + ".nobeta").c_str(), v[1][i] == v[0][i], "overload without beta depends on the previous contents (element %zu)", i);
        c.ok((std::string(key) + ".strongzero").c_str(), v[2][i] == v[0][i], "beta = StrongZero depends on the previous contents (element %zu)", i);
    }
    c.count("strongzero_elements", (int64_t)v[0].size());
}
FAMILY(nf_strong, 900, 20000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 10);
    static const char* nm[] = {"gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "gemv", "symv", "hemv"};
    int m = sz(g), n = sz(g), k = sz(g);
    Op ta = pop3(g), tb = pop3(g);
    Side sd = g.coin() ? Side::Left : Side::Right;
    Uplo u = o >= 3 && o <= 6 ? ul(g) : ul(g);
    T al = cof<T>(g, false);
    R ra = rpart(al);
    StrongZero SZ;
    c.nt();
    auto all = [](int, int) { return true; };
    auto desc = [&] { c.desc("%s m=%d n=%d k=%d ta=%d tb=%d side=%c uplo=%c", nm[o], m, n, k, (int)ta, (int)tb, (char)sd, (char)u); };
    if (o == 0) {
        desc();
        Mat<T> A(c, "A", tr(ta) ? k : m, tr(ta) ? m : k), B(c, "B", tr(tb) ? n : k, tr(tb) ? k : n), C(c, "C", m, n);
        mo<T>(c, "A", A, false), mo<T>(c, "B", B, false);
        auto a = A.view(), b = B.view(), cc = C.view();
        sz2<T>(c, "gemm", C, m, n, all, [&](int i, int j) -> T& { return C(i, j); }, [&](int w) {
            if (w == 0) tl::gemm(ta, tb, al, a, b, T(0), cc);
            else if (w == 1) tl::gemm(ta, tb, al, a, b, cc);
            else tl::gemm(ta, tb, al, a, b, SZ, cc); });
    }
    else if (o <= 2) {
        desc();
        int na = sd == Side::Left ? m : n;
        Mat<T> A(c, "A", na, na), B(c, "B", m, n), C(c, "C", m, n);
        mo<T>(c, "A", A, false), mo<T>(c, "B", B, false);
        A.maskif([&](int i, int j) { return u == Uplo::Upper ? i > j : i < j; });
        auto a = A.view(), b = B.view(), cc = C.view();
        sz2<T>(c, nm[o], C, m, n, all, [&](int i, int j) -> T& { return C(i, j); }, [&](int w) {
            if (o == 1) {
                if (w == 0) tl::symm(sd, u, al, a, b, T(0), cc);
                else if (w == 1) tl::symm(sd, u, al, a, b, cc);
                else tl::symm(sd, u, al, a, b, SZ, cc);
            }
            else {
                if (w == 0) tl::hemm(sd, u, al, a, b, T(0), cc);
                else if (w == 1) tl::hemm(sd, u, al, a, b, cc);
                else tl::hemm(sd, u, al, a, b, SZ, cc);
            } });
    }
    else if (o <= 6) {
        bool herm = o == 4 || o == 6;
        Op t = g.coin() ? Op::NoTrans : herm ? Op::ConjTrans : Op::Trans;
        ta = t;
        m = n;
        desc();
        Mat<T> A(c, "A", tr(t) ? k : n, tr(t) ? n : k), B(c, "B", tr(t) ? k : n, tr(t) ? n : k), C(c, "C", n, n);
        mo<T>(c, "A", A, false), mo<T>(c, "B", B, false);
        C.maskif([&](int i, int j) { return u == Uplo::Upper ? i > j : i < j; });
        auto a = A.view(), b = B.view(), cc = C.view();
        sz2<T>(c, nm[o], C, n, n, [&](int i, int j) { return u == Uplo::Upper ? i <= j : i >= j; }, [&](int i, int j) -> T& { return C(i, j); }, [&](int w) {
            if (o == 3) { if (w == 0) tl::syrk(u, t, al, a, T(0), cc); else if (w == 1) tl::syrk(u, t, al, a, cc); else tl::syrk(u, t, al, a, SZ, cc); }
            else if (o == 4) { if (w == 0) tl::herk(u, t, ra, a, R(0), cc); else if (w == 1) tl::herk(u, t, ra, a, cc); else tl::herk(u, t, ra, a, SZ, cc); }
            else if (o == 5) { if (w == 0) tl::syr2k(u, t, al, a, b, T(0), cc); else if (w == 1) tl::syr2k(u, t, al, a, b, cc); else tl::syr2k(u, t, al, a, b, SZ, cc); }
            else { if (w == 0) tl::her2k(u, t, al, a, b, R(0), cc); else if (w == 1) tl::her2k(u, t, al, a, b, cc); else tl::her2k(u, t, al, a, b, SZ, cc); } });
    }
    else {
        if (o > 7) m = n;
        desc();
        Mat<T> A(c, "A", m, n);
        int nx = tr(ta) && o == 7 ? m : n, ny = tr(ta) && o == 7 ? n : m;
        Vec<T> x(c, "x", nx), y(c, "y", ny);
        mo<T>(c, "A", A, false), vo<T>(c, "x", x, false);
        if (o > 7) A.maskif([&](int i, int j) { return u == Uplo::Upper ? i > j : i < j; });
        auto a = A.view();
        auto xv = x.view(), yv = y.view();
        sz2<T>(c, nm[o], y, ny, 1, all, [&](int i, int) -> T& { return y[i]; }, [&](int w) {
            if (o == 7) { if (w == 0) tl::gemv(ta, al, a, xv, T(0), yv); else if (w == 1) tl::gemv(ta, al, a, xv, yv); else tl::gemv(ta, al, a, xv, SZ, yv); }
            else if (o == 8) { if (w == 0) tl::symv(u, al, a, xv, T(0), yv); else if (w == 1) tl::symv(u, al, a, xv, yv); else tl::symv(u, al, a, xv, SZ, yv); }
            else { if (w == 0) tl::hemv(u, al, a, xv, T(0), yv); else if (w == 1) tl::hemv(u, al, a, xv, yv); else tl::hemv(u, al, a, xv, SZ, yv); } });
    }
}
FAMILY(nf_zero, 300, 4000)
{
    auto& g = c.rng;
    R sp = g.pick({NaN, Inf, -Inf, std::numeric_limits<R>::max(), R(0), R(-2), R(3)});
    T x = T(sp);
    if constexpr (IsC) x = g.pick({T(sp, 1), T(1, sp), T(sp, sp)});
    c.desc("strong zero arithmetic with %g", (double)sp);
    c.nt();
    StrongZero Z;
    auto same = [](const T& a, const T& b) { return same_bits(&a, &b) || a == b; };
    auto isz = [](auto v) { return std::is_same_v<decltype(v), StrongZero>; };
    T t = x;
    t += Z;
    c.ok("sz", same(t, x), "x += 0");
    t = x, t -= Z;
    c.ok("sz", same(t, x), "x -= 0");
    t = x, t *= Z;
    c.ok("sz", t == T(0), "x *= 0");
    c.ok("sz", same(x + Z, x) && same(x - Z, x) && same(Z + x, x), "x + 0, x - 0, 0 + x");
    T m = Z - x, nx = -x;
    c.ok("sz", same(m, nx), "0 - x");
    c.ok("sz", isz(x * Z) && isz(Z * x) && isz(Z / x) && isz(Z + Z) && isz(Z - Z) && isz(Z * Z) && isz(-Z), "products with a strong zero stay strong zero");
    t = x, t /= Z;
    c.ok("sz-div", anyNonfin(t), "x /= 0 is not infinite");
    t = x / Z;
    c.ok("sz-div", anyNonfin(t), "x / 0 is not infinite");
    auto q = Z / Z;
    c.ok("sz", q != q, "0 / 0 is not NaN");
    c.ok("sz", T(Z) == T(0) && R(Z) == R(0), "conversion");
    c.ok("sz", Z == Z && !(Z != Z) && !(Z < Z) && !(Z > Z) && Z <= Z && Z >= Z && !isinf(Z) && !isnan(Z), "comparisons");
    c.ok("sz", isz(abs(Z)) && isz(sqrt(Z)) && pow(2, Z) == 1 && log2(Z) < -1e30f && isz(ceil(Z)) && isz(floor(Z)), "functions");
    c.ok("sz", real(Z) == Z, "real");
}
// scalar kernels: return on any input; a NaN argument is not silently turned into finite results
template <class T>
static R spec(Rng& g)
{
    switch (g.range(0, 11)) {
        case 0: case 1: return NaN;
        case 2: return Inf;
        case 3: return -Inf;
        case 4: return std::numeric_limits<R>::max();
        case 5: return -std::numeric_limits<R>::max();
        case 6: return std::numeric_limits<R>::min();
        case 7: return std::numeric_limits<R>::denorm_min() * R(g.range(1, 100));
        case 8: return R(0);
        default: return R(g.sym()) * xldexp<R>(R(1), g.range(std::numeric_limits<R>::min_exponent, std::numeric_limits<R>::max_exponent - 1));
    }
}
FAMILY(nf_scalar, 12000, 300000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 12);
    R a = spec<T>(g), b = spec<T>(g), d = spec<T>(g), e = spec<T>(g);
    if (g.coin(0.2)) b = a;
    bool n2 = isn(a) || isn(b), i2 = nonfin(a) || nonfin(b);
    static const char* nm[] = {"rotg", "lartg", "rotmg", "lapy2", "lapy3", "ladiv", "lae2", "laev2", "svd22", "singularvalues22", "lahqr_eig22", "lahqr_schur22"};
    c.desc("%s a=%Lg b=%Lg d=%Lg e=%Lg", nm[o], ld(F(a)), ld(F(b)), ld(F(d)), ld(F(e)));
    c.nt();
    auto keep = [&](const char* k, bool any, std::initializer_list<R> outs) {
        bool got = false;
        for (R x : outs) got |= nonfin(x);
        if (any) c.ok((std::string(k) + ".lost").c_str(), got, "NaN input but every output is finite");
    };
    if (o == 0) {
        T x = T(a), y = T(b), s;
        if constexpr (IsC) x = T(a, d), y = T(b, e), n2 = n2 || isn(d) || isn(e);
        R cs;
        tl::rotg(x, y, cs, s);
        R s1, s2 = R(0), r1, r2 = R(0);
        if constexpr (IsC) s1 = s.real(), s2 = s.imag(), r1 = x.real(), r2 = x.imag();
        else s1 = s, r1 = x;
        keep("rotg", n2, {cs, s1, s2, r1, r2});
    }
    else if (o == 1) {
        R cs, s, r;
        tl::lartg(a, b, cs, s, r);
        keep("lartg", n2, {cs, s, r});
    }
    else if (o == 2) {
        R d1 = a < R(0) ? -a : a, d2 = b, x = d, y = e, h[4];
        if (!(d1 > R(0)) && !isn(d1)) d1 = R(1);
        R y0 = y, x0 = x;
        int f = tl::rotmg(d1, d2, x, y0, h);
        c.ok("rotmg.flag", f >= -2 && f <= 1, "flag %d", f);
        (void)x0;
    }
    else if (o == 3) {
        R r = tl::lapy2(a, b);
        c.ok("lapy2.nan", !n2 || isn(r), "lapy2 with a NaN is %g", (double)r);
        c.ok("lapy2.inf", !i2 || n2 || nonfin(r), "lapy2 with an Inf is %g", (double)r);
    }
    else if (o == 4) {
        R r = tl::lapy3(a, b, d);
        bool n3 = n2 || isn(d), i3 = i2 || nonfin(d);
        c.ok("lapy3.nan", !n3 || nonfin(r), "lapy3 with a NaN is %g", (double)r);
        c.ok("lapy3.inf", !i3 || n3 || nonfin(r), "lapy3 with an Inf is %g", (double)r);
    }
    else if (o == 5) {
        using Ct = tl::complex_type<R>;
        R p, q;
        tl::ladiv(a, b, d, e, p, q);
        keep("ladiv", n2 || isn(d) || isn(e), {p, q});
        Ct z = tl::ladiv(Ct(a, b), Ct(d, e));
        (void)z;
    }
    else if (o == 6) {
        R x, y;
        tl::lae2(a, b, d, x, y);
        // LAPACK auxiliaries: only termination is promised
    }
    else if (o == 7) {
        R x, y, cs, sn;
        tl::laev2(a, b, d, x, y, cs, sn);
        // LAPACK auxiliaries: only termination is promised
    }
    else if (o == 8) {
        R x, y, cl, sl, cr, sr;
        tl::svd22(a, b, d, x, y, cl, sl, cr, sr);
        // LAPACK auxiliaries: only termination is promised
    }
    else if (o == 9) {
        R x, y;
        tl::singularvalues22(a, b, d, x, y);
        // LAPACK auxiliaries: only termination is promised
    }
    else if (o == 10) {
        using Ct = tl::complex_type<R>;
        Ct s1, s2;
        tl::lahqr_eig22(T(a), T(b), T(d), T(e), s1, s2);
        // LAPACK auxiliaries: only termination is promised
    }
    else {
        if constexpr (!IsC) {
            using Ct = tl::complex_type<R>;
            Ct s1, s2;
            R cs, sn, p = a, q = b, r = d, s = e;
            tl::lahqr_schur22(p, q, r, s, s1, s2, cs, sn);
            // LAPACK auxiliaries: only termination is promised
        }
    }
}
FAMILY(nf_vector, 2000, 40000)
{
    auto& g = c.rng;
    int n = g.range(1, 8), o = (int)(c.idx % 2);
    c.desc("%s n=%d", o ? "larfg" : "lassq", n);
    c.nt();
    Vec<T> x(c, "x", n);
    bool nan = false, inf = false;
    for (int i = 0; i < n; ++i) {
        R a = g.coin(0.3) ? spec<T>(g) : R(g.sym()), b = g.coin(0.2) ? spec<T>(g) : R(g.sym());
        if constexpr (IsC) x[i] = T(a, b), nan |= isn(a) || isn(b), inf |= nonfin(a) || nonfin(b);
        else x[i] = a, nan |= isn(a), inf |= nonfin(a);
    }
    auto xv = x.view();
    if (o == 0) {
        R scl = R(1), sumsq = R(0);
        tl::lassq(xv, scl, sumsq);
        c.ok("lassq.nan", !nan || nonfin(scl) || nonfin(sumsq), "NaN lost: scale %g sumsq %g", (double)scl, (double)sumsq);
        c.ok("lassq.inf", !inf || nonfin(scl) || nonfin(sumsq), "Inf lost: scale %g sumsq %g", (double)scl, (double)sumsq);
    }
    else {
        T alpha = x[0], tau;
        auto v = tl::slice(xv, std::pair<idx_t, idx_t>{1, (idx_t)n});
        tl::larfg(tl::COLUMNWISE_STORAGE, alpha, v, tau);
        bool got = anyNonfin(alpha) || anyNonfin(tau);
        for (int i = 1; i < n; ++i) got |= anyNonfin(x[i]);
        c.ok("larfg.lost", !nan || got, "NaN input, all outputs finite");
    }
}
VK_MAIN
