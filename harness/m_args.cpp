// C24: every argument check of the public routines: a call is rejected (domain_error, nothing written) exactly when its shapes / enumerations are incompatible
#include "ops.hpp"
#include <functional>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/aggressive_early_deflation.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/generalized_schur_swap.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri_uili.hpp>
#include <tlapack/lapack/getri_uxli.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/lahqr_shiftcolumn.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/lahqz_shiftcolumn.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/multishift_qr.hpp>
#include <tlapack/lapack/multishift_qr_sweep.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/potf2.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrf2.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/tik_bidiag_elden.hpp>
#include <tlapack/lapack/tkhnv.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/trevc3.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/ul_mult.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungq.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/ungq_level2.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/unmq_level2.hpp>
using namespace vk;
namespace tl = tlapack;
using tl::Op;
using tl::Uplo;
using tl::Side;
using tl::Diag;
using tl::Norm;
using tl::StoreV;
using tl::Direction;

struct Counted {};
// A parameterised call. Its integer and enumerated attributes are drawn from a valid configuration; 0, 1 or 2 of them are then perturbed.
struct P {
    Case& c;
    Rng g, g0;
    int at = 0, total = 0;
    int hit[2] = {-1, -1};
    bool counting = true;
    std::string txt;
    P(Case& c_) : c(c_), g(c_.rng), g0(c_.rng) {}
    bool pert()
    {
        int s = at++;
        if (counting) {
            ++total;
            return false;
        }
        return s == hit[0] || s == hit[1];
    }
    int b(int lo, int hi) { return g.range(lo, hi); }
    bool coin() { return g.coin(); }
    int d(int base)  // a dimension
    {
        int r = base;
        if (pert()) {
            int k = c.rng.coin(0.85) ? 1 : 2;
            r = c.rng.coin() ? base + k : base - k;
            if (r < 0) r = base + k;
        }
        txt += std::to_string(r) + " ";
        return r;
    }
    template <class E>
    E e(std::initializer_list<E> valid, std::initializer_list<E> bad)
    {
        E r = g.pick(valid);
        if (pert()) {
            r = c.rng.pick(bad);
            if (c.rng.coin(0.25)) r = (E)(char)c.rng.range(0, 126);
        }
        char t[8];
        int v = (int)r;
        if (v >= 32) snprintf(t, sizeof t, "%c ", v);
        else snprintf(t, sizeof t, "#%d ", v);
        txt += t;
        return r;
    }
    Uplo uplo() { return e({Uplo::Lower, Uplo::Upper}, {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower}); }
    Uplo uplo3() { return e({Uplo::Lower, Uplo::Upper, Uplo::General}, {Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower}); }
    Uplo uplo7() { return e({Uplo::General, Uplo::Lower, Uplo::Upper, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower}, {(Uplo)0, (Uplo)1, (Uplo)'X'}); }
    Op op3() { return e({Op::NoTrans, Op::Trans, Op::ConjTrans}, {Op::Conj, (Op)'X', (Op)0}); }
    Op op4() { return e({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj}, {(Op)'X', (Op)0}); }
    Op opT() { return e({Op::NoTrans, Op::Trans}, {Op::ConjTrans, Op::Conj, (Op)'X'}); }
    Op opH() { return e({Op::NoTrans, Op::ConjTrans}, {Op::Trans, Op::Conj, (Op)'X'}); }
    Op opQ()
    {
        if (IsC) return e({Op::NoTrans, Op::ConjTrans}, {Op::Trans, Op::Conj, (Op)'X'});
        return e({Op::NoTrans, Op::Trans, Op::ConjTrans}, {Op::Conj, (Op)'X', (Op)0});
    }
    Side side() { return e({Side::Left, Side::Right}, {Side::Both, (Side)'X', (Side)0}); }
    Diag diag() { return e({Diag::NonUnit, Diag::Unit}, {(Diag)'X', (Diag)0}); }
    Norm norm() { return e({Norm::One, Norm::Inf, Norm::Fro, Norm::Max}, {Norm::Two, (Norm)'X', (Norm)0}); }
    Direction dir() { return e({Direction::Forward, Direction::Backward}, {(Direction)'X', (Direction)0}); }
    StoreV sv() { return e({StoreV::Columnwise, StoreV::Rowwise}, {(StoreV)'X', (StoreV)0}); }
    void ready()
    {
        if (counting) throw Counted();
    }
    template <class A>
    void fill(A& a)
    {
        using S = std::decay_t<decltype(a.p[0])>;
        for (idx_t k = 0; k < a.len; ++k)
            if (a.st[k] == 1) {
                if constexpr (std::is_integral_v<S>) a.p[k] = 0;
                else a.p[k] = rnd<S>(c.rng);
            }
    }
    template <class S>
    Mat<S>& fillm(Mat<S>& a, double shift = 3)
    {
        fill(a);
        for (idx_t i = 0; i < a.m && i < a.n; ++i) a(i, i) += S(shift);
        return a;
    }
    void go(const char* nm, bool valid, std::function<void()> call);
};
static bool okU(Uplo u) { return u == Uplo::Lower || u == Uplo::Upper; }
static bool okU3(Uplo u) { return okU(u) || u == Uplo::General; }
static bool okU7(Uplo u) { return okU3(u) || u == Uplo::UpperHessenberg || u == Uplo::LowerHessenberg || u == Uplo::StrictUpper || u == Uplo::StrictLower; }
static bool ok3(Op t) { return t == Op::NoTrans || t == Op::Trans || t == Op::ConjTrans; }
static bool ok4(Op t) { return ok3(t) || t == Op::Conj; }
static bool okQ(Op t) { return t == Op::NoTrans || t == Op::ConjTrans || (!IsC && t == Op::Trans); }
static bool okS(Side s) { return s == Side::Left || s == Side::Right; }
static bool okD(Diag d) { return d == Diag::Unit || d == Diag::NonUnit; }
static bool okDir(Direction d) { return d == Direction::Forward || d == Direction::Backward; }
static bool okSv(StoreV s) { return s == StoreV::Columnwise || s == StoreV::Rowwise; }
static bool okN(Norm n) { return n == Norm::One || n == Norm::Inf || n == Norm::Fro || n == Norm::Max; }

void P::go(const char* nm, bool valid, std::function<void()> call)
{
    c.desc("%s(%s) expected=%s", nm, txt.c_str(), valid ? "accept" : "reject");
    c.nt();
    struct Snap { const void* p; std::vector<unsigned char> b; const char* name; };
    std::vector<Snap> sn;
    for (auto* mb : c.mats) {
        auto [p, l] = mb->raw();
        sn.push_back({p, std::vector<unsigned char>((const unsigned char*)p, (const unsigned char*)p + l), mb->label()});
    }
    std::string k = nm, what;
    int r = 0;
    try {
        call();
    }
    catch (std::domain_error& e) {
        r = 1, what = e.what();
    }
    catch (std::runtime_error& e) {
        r = 2, what = e.what();
    }
    if (valid) {
        c.ok((k + ".valid").c_str(), r != 1, "valid call rejected: %s", what.c_str());
        c.count("accepted");
        return;
    }
    if (!c.ok((k + ".invalid").c_str(), r == 1, "invalid call not rejected (%s)", r == 0 ? "no exception" : what.c_str())) return;
    c.count("rejected");
    for (auto& s : sn) c.ok((k + ".written").c_str(), s.b.empty() || memcmp(s.p, s.b.data(), s.b.size()) == 0, "rejected (%s) after writing to operand %s", what.c_str(), s.name);
}
using Entry = std::pair<const char*, std::function<void(P&)>>;
static void runEntry(Case& c, const Entry& en)
{
    P p(c);
    try {
        en.second(p);
    }
    catch (Counted&) {
    }
    p.counting = false;
    p.g = p.g0;
    p.at = 0;
    p.txt.clear();
    c.rng = Rng(mix64(p.g0.s + 99));
    double w = c.rng.u01();
    if (w > 0.3 && p.total) p.hit[0] = c.rng.range(0, p.total - 1);
    if (w > 0.85 && p.total) p.hit[1] = c.rng.range(0, p.total - 1);
    en.second(p);
}
#define E(nm, ...) t.push_back(Entry(nm, [](P& p) { auto& c = p.c; [[maybe_unused]] auto& g = c.rng; const char* NM = nm; __VA_ARGS__ }))
#define MAT(A, r, s) Mat<T> A(c, #A, r, s); p.fillm(A); auto A##v = A.view()
#define VEC(x, n) Vec<T> x(c, #x, n); p.fill(x); auto x##v = x.view()
#define VECR(x, n) Vec<R> x(c, #x, n); p.fill(x); auto x##v = x.view()
static bool tr(Op t) { return t == Op::Trans || t == Op::ConjTrans; }

template <class T>
static std::vector<Entry> blasTable()
{
    std::vector<Entry> t;
    // level 1
    E("axpy", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); p.go(NM, ny >= nx, [&] { tl::axpy(T(2), xv, yv); }); });
    E("copy", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); p.go(NM, ny >= nx, [&] { tl::copy(xv, yv); }); });
    E("dot", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); p.go(NM, ny == nx, [&] { (void)tl::dot(xv, yv); }); });
    E("dotu", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); p.go(NM, ny == nx, [&] { (void)tl::dotu(xv, yv); }); });
    E("rot", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); R cs = R(0.6); T s = T(0.8); p.go(NM, ny == nx, [&] { tl::rot(xv, yv, cs, s); }); });
    E("swap", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n); p.ready(); VEC(x, nx); VEC(y, ny); p.go(NM, ny == nx, [&] { tl::swap(xv, yv); }); });
    if constexpr (!IsC) {
        E("rotm", { int n = p.b(0, 5), nx = p.d(n), ny = p.d(n), f = p.b(-2, 1); p.ready(); VEC(x, nx); VEC(y, ny); T h[4] = {T(1), T(2), T(3), T(4)}; p.go(NM, ny == nx, [&] {
            if (f == -2) tl::rotm<-2>(xv, yv, h);
            else if (f == -1) tl::rotm<-1>(xv, yv, h);
            else if (f == 0) tl::rotm<0>(xv, yv, h);
            else tl::rotm<1>(xv, yv, h); }); });
        E("rotmg", { int s = p.b(1, 3), q = p.d(s) - 1; p.ready(); VEC(dd, 4); dd[0] = T(q - 1), dd[1] = T(1); T y = T(1), h[4] = {}; T &d1 = dd[0], &d2 = dd[1], &x = dd[2]; p.go(NM, q - 1 > 0, [&] { (void)tl::rotmg(d1, d2, x, y, h); }); });
    }
    // level 2
    E("gemv", { Op o = p.op4(); int m = p.b(0, 5), n = p.b(0, 5), ra = p.d(m), ca = p.d(n), nx = p.d(tr(o) ? m : n), ny = p.d(tr(o) ? n : m); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny);
        p.go(NM, ok4(o) && nx == (tr(o) ? ra : ca) && ny == (tr(o) ? ca : ra), [&] { tl::gemv(o, T(2), Av, xv, T(3), yv); }); });
    E("gemv0", { Op o = p.op4(); int m = p.b(0, 5), n = p.b(0, 5), ra = p.d(m), ca = p.d(n), nx = p.d(tr(o) ? m : n), ny = p.d(tr(o) ? n : m); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny);
        p.go(NM, ok4(o) && nx == (tr(o) ? ra : ca) && ny == (tr(o) ? ca : ra), [&] { tl::gemv(o, T(2), Av, xv, yv); }); });
    E("ger", { int m = p.b(0, 5), n = p.b(0, 5), ra = p.d(m), ca = p.d(n), nx = p.d(m), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, nx == ra && ny == ca, [&] { tl::ger(T(2), xv, yv, Av); }); });
    E("geru", { int m = p.b(0, 5), n = p.b(0, 5), ra = p.d(m), ca = p.d(n), nx = p.d(m), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, nx == ra && ny == ca, [&] { tl::geru(T(2), xv, yv, Av); }); });
    E("hemv", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, okU(u) && ra == ca && nx == ra && ny == ra, [&] { tl::hemv(u, T(2), Av, xv, T(1), yv); }); });
    E("symv", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, okU(u) && ra == ca && nx == ra && ny == ra, [&] { tl::symv(u, T(2), Av, xv, T(1), yv); }); });
    E("her", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); p.go(NM, okU(u) && ra == ca && nx == ra, [&] { tl::her(u, R(2), xv, Av); }); });
    E("syr", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); p.go(NM, okU(u) && ra == ca && nx == ra, [&] { tl::syr(u, T(2), xv, Av); }); });
    E("her2", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, okU(u) && ra == ca && nx == ra && ny == ra, [&] { tl::her2(u, T(2), xv, yv, Av); }); });
    E("syr2", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n), ny = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); VEC(y, ny); p.go(NM, okU(u) && ra == ca && nx == ra && ny == ra, [&] { tl::syr2(u, T(2), xv, yv, Av); }); });
    E("trmv", { Uplo u = p.uplo(); Op o = p.op4(); Diag d = p.diag(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); p.go(NM, okU(u) && ok4(o) && okD(d) && ra == ca && nx == ra, [&] { tl::trmv(u, o, d, Av, xv); }); });
    E("trsv", { Uplo u = p.uplo(); Op o = p.op4(); Diag d = p.diag(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nx); p.go(NM, okU(u) && ok4(o) && okD(d) && ra == ca && nx == ra, [&] { tl::trsv(u, o, d, Av, xv); }); });
    // level 3
#define GEMM(nm, CALL) \
    E(nm, { Op ta = p.op3(), tb = p.op3(); int m = p.b(0, 4), n = p.b(0, 4), k = p.b(0, 4); int ra = p.d(tr(ta) ? k : m), ca = p.d(tr(ta) ? m : k), rb = p.d(tr(tb) ? n : k), cb = p.d(tr(tb) ? k : n), rc = p.d(m), cc = p.d(n); \
        p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(C, rc, cc); bool ok = ok3(ta) && ok3(tb) && rc == (tr(ta) ? ca : ra) && cc == (tr(tb) ? rb : cb) && (tr(ta) ? ra : ca) == (tr(tb) ? cb : rb); p.go(NM, ok, [&] { CALL; }); })
    GEMM("gemm", tl::gemm(ta, tb, T(2), Av, Bv, T(3), Cv));
    GEMM("gemm0", tl::gemm(ta, tb, T(2), Av, Bv, Cv));
#define SYMM(nm, CALL) \
    E(nm, { Side s = p.side(); Uplo u = p.uplo3(); int m = p.b(0, 4), n = p.b(0, 4), na = s == Side::Left ? m : n; if (s != Side::Left && s != Side::Right) na = n; int ra = p.d(na), ca = p.d(na), rb = p.d(m), cb = p.d(n), rc = p.d(m), cc = p.d(n); \
        p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(C, rc, cc); p.go(NM, okS(s) && okU3(u) && ra == ca && ra == (s == Side::Left ? rb : cb) && rb == rc && cb == cc, [&] { CALL; }); })
    SYMM("symm", tl::symm(s, u, T(2), Av, Bv, T(3), Cv));
    SYMM("symm0", tl::symm(s, u, T(2), Av, Bv, Cv));
    SYMM("hemm", tl::hemm(s, u, T(2), Av, Bv, T(3), Cv));
    SYMM("hemm0", tl::hemm(s, u, T(2), Av, Bv, Cv));
#define SYRK(nm, OPS, OKOP, CALL) \
    E(nm, { Uplo u = p.uplo3(); Op o = p.OPS(); int n = p.b(0, 4), k = p.b(0, 4), ra = p.d(tr(o) ? k : n), ca = p.d(tr(o) ? n : k), rc = p.d(n), cc = p.d(n); p.ready(); MAT(A, ra, ca); MAT(C, rc, cc); p.go(NM, okU3(u) && (o == Op::NoTrans || o == OKOP) && rc == cc && rc == (tr(o) ? ca : ra), [&] { CALL; }); })
    SYRK("syrk", opT, Op::Trans, tl::syrk(u, o, T(2), Av, T(3), Cv));
    SYRK("syrk0", opT, Op::Trans, tl::syrk(u, o, T(2), Av, Cv));
    SYRK("herk", opH, Op::ConjTrans, tl::herk(u, o, R(2), Av, R(3), Cv));
    SYRK("herk0", opH, Op::ConjTrans, tl::herk(u, o, R(2), Av, Cv));
#define SYR2K(nm, OPS, OKOP, CALL) \
    E(nm, { Uplo u = p.uplo3(); Op o = p.OPS(); int n = p.b(0, 4), k = p.b(0, 4), ra = p.d(tr(o) ? k : n), ca = p.d(tr(o) ? n : k), rb = p.d(tr(o) ? k : n), cb = p.d(tr(o) ? n : k), rc = p.d(n), cc = p.d(n); p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(C, rc, cc); \
        p.go(NM, okU3(u) && (o == Op::NoTrans || o == OKOP) && ra == rb && ca == cb && rc == cc && rc == (tr(o) ? ca : ra), [&] { CALL; }); })
    SYR2K("syr2k", opT, Op::Trans, tl::syr2k(u, o, T(2), Av, Bv, T(3), Cv));
    SYR2K("syr2k0", opT, Op::Trans, tl::syr2k(u, o, T(2), Av, Bv, Cv));
    SYR2K("her2k", opH, Op::ConjTrans, tl::her2k(u, o, T(2), Av, Bv, R(3), Cv));
    SYR2K("her2k0", opH, Op::ConjTrans, tl::her2k(u, o, T(2), Av, Bv, Cv));
#define TRMM(nm, CALL) \
    E(nm, { Side s = p.side(); Uplo u = p.uplo(); Op o = p.op3(); Diag d = p.diag(); int m = p.b(0, 4), n = p.b(0, 4), na = s == Side::Left ? m : n; int ra = p.d(na), ca = p.d(na), rb = p.d(m), cb = p.d(n); \
        p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); p.go(NM, okS(s) && okU(u) && ok3(o) && okD(d) && ra == ca && ra == (s == Side::Left ? rb : cb), [&] { CALL; }); })
    TRMM("trmm", tl::trmm(s, u, o, d, T(2), Av, Bv));
    TRMM("trsm", tl::trsm(s, u, o, d, T(2), Av, Bv));
    E("gemmtr", { Uplo u = p.uplo(); Op ta = p.op3(), tb = p.op3(); int n = p.b(0, 4), k = p.b(0, 4); int ra = p.d(tr(ta) ? k : n), ca = p.d(tr(ta) ? n : k), rb = p.d(tr(tb) ? n : k), cb = p.d(tr(tb) ? k : n), rc = p.d(n), cc = p.d(n);
        p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(C, rc, cc);
        p.go(NM, okU(u) && ok3(ta) && ok3(tb) && rc == cc && rc == (tr(ta) ? ca : ra) && rc == (tr(tb) ? rb : cb) && (tr(ta) ? ra : ca) == (tr(tb) ? cb : rb), [&] { tl::gemmtr(u, ta, tb, T(2), Av, Bv, T(3), Cv); }); });
    E("hemm2", { Side s = p.side(); Uplo u = p.uplo(); Op tb = p.g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}); int m = p.b(0, 4), n = p.b(0, 4); bool q = tr(tb); int na = s == Side::Left ? m : n; int ra = p.d(na), ca = p.d(na), rb = p.d(q ? n : m), cb = p.d(q ? m : n), rc = p.d(m), cc = p.d(n);
        p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(C, rc, cc); int om = q ? cb : rb, on = q ? rb : cb;
        if (u == Uplo::General) u = Uplo::Lower;  // accepted by the check, undocumented
        p.go(NM, okS(s) && okU(u) && ra == ca && ra == (s == Side::Left ? om : on) && rc == om && cc == on, [&] { tl::hemm2(s, u, tb, T(2), Av, Bv, T(3), Cv); }); });
    return t;
}
FAMILY(args_blas, 20000, 300000)
{
    static auto tab = blasTable<T>();
    runEntry(c, tab[c.idx % tab.size()]);
}

template <class T>
static std::vector<Entry> lapackTable()
{
    std::vector<Entry> t;
    // ---- norms, copies, scaling
    E("lange", { Norm n = p.norm(); int m = p.b(0, 5), k = p.b(0, 5); p.ready(); MAT(A, m, k); p.go(NM, okN(n), [&] { (void)tl::lange(n, Av); }); });
    E("lansy", { Norm n = p.norm(); Uplo u = p.uplo(); int m = p.b(0, 5); p.ready(); MAT(A, m, m); p.go(NM, okN(n) && okU(u), [&] { (void)tl::lansy(n, u, Av); }); });
    E("lanhe", { Norm n = p.norm(); Uplo u = p.uplo(); int m = p.b(0, 5); p.ready(); MAT(A, m, m); p.go(NM, okN(n) && okU(u), [&] { (void)tl::lanhe(n, u, Av); }); });
    E("lantr", { Norm n = p.norm(); Uplo u = p.uplo(); Diag d = p.diag(); int m = p.b(0, 5), k = p.b(0, 5); p.ready(); MAT(A, m, k); p.go(NM, okN(n) && okU(u) && okD(d), [&] { (void)tl::lantr(n, u, d, Av); }); });
    E("lacpy", { Uplo u = p.uplo3(); int m = p.b(0, 5), n = p.b(0, 5); p.ready(); MAT(A, m, n); MAT(B, m, n); p.go(NM, okU3(u), [&] { tl::lacpy(u, Av, Bv); }); });
    E("laset", { Uplo u = p.uplo3(); int m = p.b(0, 5), n = p.b(0, 5); p.ready(); MAT(A, m, n); p.go(NM, okU3(u), [&] { tl::laset(u, T(1), T(2), Av); }); });
    E("hasnan", { Uplo u = p.uplo7(); int m = p.b(0, 5), n = p.b(0, 5); p.ready(); MAT(A, m, n); p.go(NM, okU7(u), [&] { (void)tl::hasnan(u, Av); }); });
    E("hasinf", { Uplo u = p.uplo7(); int m = p.b(0, 5), n = p.b(0, 5); p.ready(); MAT(A, m, n); p.go(NM, okU7(u), [&] { (void)tl::hasinf(u, Av); }); });
    E("lascl", { Uplo u = p.uplo7(); int m = p.b(0, 5), n = p.b(0, 5), ka = p.d(3), kb = p.d(3); p.ready(); MAT(A, m, n); R nan = std::numeric_limits<R>::quiet_NaN(); R a = ka < 3 ? nan : R(2), b = kb < 3 ? nan : kb > 3 ? R(0) : R(3); p.go(NM, okU7(u) && ka >= 3 && kb == 3, [&] { (void)tl::lascl(u, b, a, Av); }); });
    E("lascl_band", { int m = p.b(1, 5), n = p.b(1, 5), kl = p.d(m - 1), ku = p.d(n - 1), kb = p.d(3); p.ready(); MAT(A, m, n); R b = kb != 3 ? R(0) : R(3); p.go(NM, kl < m && ku < n && kb == 3, [&] { (void)tl::lascl(tl::BandAccess(kl, ku), b, R(2), Av); }); });
    E("transpose", { int m = p.b(0, 5), n = p.b(0, 5), rb = p.d(n), cb = p.d(m), nx = p.d(2); p.ready(); MAT(A, m, n); MAT(B, rb, cb); tl::TransposeOpts o; o.nx = nx; p.go(NM, rb == n && cb == m && nx >= 2, [&] { tl::transpose(Av, Bv, o); }); });
    E("conjtranspose", { int m = p.b(0, 5), n = p.b(0, 5), rb = p.d(n), cb = p.d(m), nx = p.d(2); p.ready(); MAT(A, m, n); MAT(B, rb, cb); tl::TransposeOpts o; o.nx = nx; p.go(NM, rb == n && cb == m && nx >= 2, [&] { tl::conjtranspose(Av, Bv, o); }); });
    // ---- reflectors
    E("larfg", { StoreV s = p.sv(); int n = p.b(0, 4); p.ready(); VEC(x, n); VEC(o, 2); T &al = o[0], &tau = o[1]; p.go(NM, okSv(s), [&] { tl::larfg(s, al, xv, tau); }); });
    E("larfg_dir", { Direction d = p.dir(); StoreV s = p.sv(); int n = p.b(1, 4); p.ready(); VEC(x, n); VEC(o, 2); T& tau = o[1]; p.go(NM, okDir(d) && okSv(s), [&] { tl::larfg(d, s, xv, tau); }); });
    E("larf", { Side s = p.side(); Direction d = p.dir(); StoreV v = p.sv(); int m = p.b(0, 4), n = p.b(0, 4), nv = p.d(s == Side::Left ? m : n), rc = p.d(m), cc = p.d(n); p.ready(); VEC(x, nv); MAT(C, rc, cc); p.go(NM, okS(s) && okDir(d) && okSv(v) && nv == (s == Side::Left ? rc : cc), [&] { tl::larf(s, d, v, xv, T(0.5), Cv); }); });
    E("larf_work", { Side s = p.side(); Direction d = p.dir(); StoreV v = p.sv(); int m = p.b(1, 4), n = p.b(1, 4), nv = p.d(s == Side::Left ? m : n), rc = p.d(m), cc = p.d(n); p.ready(); VEC(x, nv); MAT(C, rc, cc); tl::WorkInfo wi(20, 1); Work<T> W(c, wi); auto w = W.view(); p.go(NM, okS(s) && okDir(d) && okSv(v) && nv == (s == Side::Left ? rc : cc), [&] { tl::larf_work(s, d, v, xv, T(0.5), Cv, w); }); });
    E("larf_split", { Side s = p.side(); StoreV v = p.sv(); int m = p.b(0, 4), n = p.b(0, 4), nv = p.d(s == Side::Left ? m : n); p.ready(); VEC(x, nv); VEC(C0, s == Side::Left ? n : m); MAT(C, m, n); p.go(NM, okS(s) && okSv(v) && nv == (s == Side::Left ? m : n), [&] { tl::larf(s, v, xv, T(0.5), C0v, Cv); }); });
#define LARFB(nm, CALL) \
    E(nm, { Side s = p.side(); Op o = p.opQ(); Direction d = p.dir(); StoreV v = p.sv(); int m = p.b(0, 5), n = p.b(0, 5), nq = s == Side::Left ? m : n, k = p.b(0, std::max(nq, 0)); bool cw = v == StoreV::Columnwise; int rv = p.d(cw ? nq : k), cv = p.d(cw ? k : nq), rt = p.d(k), ct = p.d(k); \
        p.ready(); MAT(V, rv, cv); MAT(Tm, rt, ct); MAT(C, m, n); p.go(NM, okS(s) && okQ(o) && okDir(d) && okSv(v) && rt == ct && rv == (cw ? nq : rt) && cv == (cw ? rt : nq), [&] { CALL; }); })
    LARFB("larfb", (void)tl::larfb(s, o, d, v, Vv, Tmv, Cv));
    E("larft", { Direction d = p.dir(); StoreV v = p.sv(); int n = p.b(1, 5), k = p.b(1, n), nt = p.d(k); bool cw = v == StoreV::Columnwise; int kv = p.d(k), rt = p.d(k), ct = p.d(k); p.ready(); MAT(V, cw ? n : kv, cw ? kv : n); VEC(tau, nt); MAT(Tm, rt, ct);
        if (nt > n) return; p.go(NM, okDir(d) && okSv(v) && nt <= kv && rt >= nt && ct >= nt, [&] { (void)tl::larft(d, v, Vv, tauv, Tmv); }); });
#define TAUK(nm, CALL) \
    E(nm, { int m = p.b(0, 5), n = p.b(0, 5), k = std::min(m, n), nt = p.d(k); p.ready(); MAT(A, m, n); VEC(tau, nt); p.go(NM, nt >= k, [&] { CALL; }); })
    TAUK("geqr2", (void)tl::geqr2(Av, tauv));
    TAUK("geqrf", (void)tl::geqrf(Av, tauv));
    TAUK("gelq2", (void)tl::gelq2(Av, tauv));
    TAUK("gelqf", (void)tl::gelqf(Av, tauv));
    TAUK("geql2", (void)tl::geql2(Av, tauv));
    TAUK("geqlf", (void)tl::geqlf(Av, tauv));
    TAUK("gerq2", (void)tl::gerq2(Av, tauv));
    TAUK("gerqf", (void)tl::gerqf(Av, tauv));
    E("gebd2", { int m = p.b(0, 5), n = p.b(0, 5), k = std::min(m, n), n1 = p.d(k), n2 = p.d(k); p.ready(); MAT(A, m, n); VEC(tv, n1); VEC(tw, n2); p.go(NM, n1 >= k && n2 >= k, [&] { (void)tl::gebd2(Av, tvv, twv); }); });
    E("gelqt", { int m = p.b(1, 5), n = p.b(1, 5), rt = p.d(m), nb = p.b(1, 3); p.ready(); MAT(A, m, n); MAT(TT, rt, nb); p.go(NM, rt >= m, [&] { (void)tl::gelqt(Av, TTv); }); });
#define UNMQ(nm, CALL) \
    E(nm, { Side s = p.side(); Op o = p.opQ(); Direction d = p.dir(); StoreV v = p.e({StoreV::Columnwise, StoreV::Rowwise}, {StoreV::Columnwise}); if (!okSv(v)) v = StoreV::Rowwise; int m = p.b(0, 5), n = p.b(0, 5), nq = s == Side::Left ? m : n, k = p.b(0, nq); bool cw = v == StoreV::Columnwise; int rv = p.d(cw ? nq : k), cv = p.d(cw ? k : nq), nt = p.d(k); \
        p.ready(); MAT(V, rv, cv); VEC(tau, nt); MAT(C, m, n); p.go(NM, okS(s) && okQ(o) && okDir(d) && nt <= nq && rv == (cw ? nq : nt) && cv == (cw ? nt : nq), [&] { CALL; }); })
    UNMQ("unmq", (void)tl::unmq(s, o, d, v, Vv, tauv, Cv));
    UNMQ("unmq_level2", (void)tl::unmq_level2(s, o, d, v, Vv, tauv, Cv));
#define UNMX(nm, CW, CALL) \
    E(nm, { Side s = p.side(); Op o = p.opQ(); int m = p.b(0, 5), n = p.b(0, 5), nq = s == Side::Left ? m : n, k = p.b(0, nq); int rv = p.d(CW ? nq : k), cv = p.d(CW ? k : nq), nt = p.d(k); \
        p.ready(); MAT(V, rv, cv); VEC(tau, nt); MAT(C, m, n); p.go(NM, okS(s) && okQ(o) && nt <= nq && rv == (CW ? nq : nt) && cv == (CW ? nt : nq), [&] { CALL; }); })
    UNMX("unmqr", true, (void)tl::unmqr(s, o, Vv, tauv, Cv));
    UNMX("unmql", true, (void)tl::unmql(s, o, Vv, tauv, Cv));
    UNMX("unmlq", false, (void)tl::unmlq(s, o, Vv, tauv, Cv));
    UNMX("unmrq", false, (void)tl::unmrq(s, o, Vv, tauv, Cv));
#define UNGQ(nm, CALL) \
    E(nm, { Direction d = p.dir(); StoreV v = p.g.coin() ? StoreV::Columnwise : StoreV::Rowwise; bool cw = v == StoreV::Columnwise; int l = p.b(0, 5), k0 = p.b(0, l), ra = p.d(cw ? l : k0), ca = p.d(cw ? k0 : l), nt = p.d(p.coin() ? k0 : 0); \
        p.ready(); MAT(A, ra, ca); VEC(tau, nt); p.go(NM, okDir(d) && (cw ? ra >= ca && ca >= nt : ca >= ra && ra >= nt), [&] { CALL; }); })
    UNGQ("ungq", (void)tl::ungq(d, v, Av, tauv));
    UNGQ("ungq_level2", (void)tl::ungq_level2(d, v, Av, tauv));
#define UNGX(nm, CW, CALL) \
    E(nm, { int l = p.b(0, 5), k0 = p.b(0, l), ra = p.d(CW ? l : k0), ca = p.d(CW ? k0 : l), nt = p.d(p.coin() ? k0 : 0); \
        p.ready(); MAT(A, ra, ca); VEC(tau, nt); p.go(NM, (CW ? ra >= ca && ca >= nt : ca >= ra && ra >= nt), [&] { CALL; }); })
    UNGX("ungqr", true, (void)tl::ungqr(Av, tauv));
    UNGX("ungql", true, (void)tl::ungql(Av, tauv));
    UNGX("unglq", false, (void)tl::unglq(Av, tauv));
    UNGX("ungrq", false, (void)tl::ungrq(Av, tauv));
    // ---- LU, Cholesky, triangular
#define GETRF(nm, V) \
    E(nm, { int m = p.b(0, 5), n = p.b(0, 5), k = std::min(m, n), np = p.d(k); p.ready(); MAT(A, m, n); Vec<idx_t> piv(c, "piv", np, 1); p.fill(piv); auto pv = piv.view(); tl::GetrfOpts o; o.variant = V; p.go(NM, np >= k, [&] { (void)tl::getrf(Av, pv, o); }); })
    GETRF("getrf_recursive", tl::GetrfVariant::Recursive);
    GETRF("getrf_level0", tl::GetrfVariant::Level0);
#define SQ(nm, CALL) E(nm, { int n = p.b(1, 5), ra = p.d(n), ca = p.d(n); p.ready(); MAT(A, ra, ca); p.go(NM, ra == ca, [&] { CALL; }); })
    SQ("getri_uili", (void)tl::getri_uili(Av));
    SQ("getri_uxli", (void)tl::getri_uxli(Av));
    SQ("ul_mult", (void)tl::ul_mult(Av));
#define SQN(nm, O, CALL) E(nm, { int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nx = p.d(1); p.ready(); MAT(A, ra, ca); tl::O o; o.nx = nx; p.go(NM, ra == ca && nx >= 1, [&] { CALL; }); })
    SQN("lu_mult", LuMultOpts, tl::lu_mult(Av, o));
    SQN("mult_llh", mult_llh_Opts, tl::mult_llh(Av, o));
    SQN("mult_uhu", mult_uhu_Opts, tl::mult_uhu(Av, o));
#define SQU(nm, CALL) E(nm, { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n); p.ready(); MAT(A, ra, ca); for (int i = 0; i < std::min(ra, ca); ++i) A(i, i) = T(9); p.go(NM, okU(u) && ra == ca, [&] { CALL; }); })
    SQU("potf2", (void)tl::potf2(u, Av));
    SQU("potrf2", (void)tl::potrf2(u, Av));
    SQU("potrf_blocked", (void)tl::potrf_blocked(u, Av));
    SQU("potrf_rl", (void)tl::potrf_rl(u, Av));
    SQU("potri", tl::potri(u, Av));
    SQU("lauum_recursive", (void)tl::lauum_recursive(u, Av));
    E("potrf", { Uplo u = p.uplo(); auto v = p.e({tl::PotrfVariant::Blocked, tl::PotrfVariant::Recursive, tl::PotrfVariant::Level2, tl::PotrfVariant::RightLooking}, {(tl::PotrfVariant)0}); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n); p.ready(); MAT(A, ra, ca); for (int i = 0; i < std::min(ra, ca); ++i) A(i, i) = T(9); tl::PotrfOpts o; o.variant = v;
        bool okv = v == tl::PotrfVariant::Blocked || v == tl::PotrfVariant::Recursive || v == tl::PotrfVariant::Level2 || v == tl::PotrfVariant::RightLooking; p.go(NM, okU(u) && ra == ca && okv, [&] { (void)tl::potrf(u, Av, o); }); });
    E("potrs", { Uplo u = p.uplo(); int n = p.b(0, 5), k = p.b(0, 4), ra = p.d(n), ca = p.d(n), rb = p.d(n); p.ready(); MAT(A, ra, ca); MAT(B, rb, k); p.go(NM, okU(u) && ra == ca && rb == ra, [&] { (void)tl::potrs(u, Av, Bv); }); });
    E("trtri_recursive", { Uplo u = p.uplo(); Diag d = p.diag(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n); p.ready(); MAT(A, ra, ca); p.go(NM, okU(u) && okD(d) && ra == ca, [&] { (void)tl::trtri_recursive(u, d, Av); }); });
    E("pbtrf", { Uplo u = p.uplo(); int n = p.b(1, 5), ra = p.d(n), ca = p.d(n), kd = p.d(p.b(0, n - 1)); p.ready(); MAT(A, ra, ca); for (int i = 0; i < std::min(ra, ca); ++i) A(i, i) = T(9); p.go(NM, okU(u) && ra == ca && kd < ra, [&] { (void)tl::pbtrf_with_workspace(u, Av, (size_t)kd); }); });
    E("pttrf", { int n = p.b(0, 5), nd = p.d(n + 1), ne = p.d(n); p.ready(); VECR(D, nd); for (int i = 0; i < nd; ++i) D[i] = R(5); VEC(Ev, ne); auto ev = Ev.view(); p.go(NM, nd == ne + 1, [&] { (void)tl::pttrf(Dv, ev); }); });
    E("hetrf", { Uplo u = p.uplo(); auto inv = p.e({Op::Trans, Op::ConjTrans}, {Op::NoTrans, Op::Conj}); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n); p.ready(); MAT(A, ra, ca); std::vector<idx_t> ip(std::max(ra, ca) + 2); tl::HetrfOpts o; o.invariant = inv; if (!IsC || inv == Op::ConjTrans) for (int i = 0; i < std::min(ra, ca); ++i) A(i, i) = T(9); std::vector<int> ipv(ra);
        p.go(NM, okU(u) && ra == ca && (inv == Op::Trans || inv == Op::ConjTrans), [&] { (void)tl::hetrf(u, Av, ipv, o); }); });
    // ---- Hessenberg, Schur, QZ
    E("gehd2", { int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nt = p.d(std::max(n - 1, 0)); p.ready(); MAT(A, ra, ca); VEC(tau, nt); p.go(NM, ra == ca && nt + 1 >= ca, [&] { (void)tl::gehd2(0, (idx_t)ca, Av, tauv); }); });
    E("gehrd", { int n = p.b(1, 5), ra = p.d(n), ca = p.d(n), nt = p.d(n - 1), lo = p.d(p.coin() ? 0 : n - 1), hi = p.d(n); p.ready(); MAT(A, ra, ca); VEC(tau, nt); if (ra == 0 && ca == 0) return; p.go(NM, ra == ca && nt + 1 >= ca && lo < ca && hi <= ca, [&] { if (lo < hi || !(ra == ca && nt + 1 >= ca && lo < ca && hi <= ca)) (void)tl::gehrd(lo, hi, Av, tauv); }); });
    E("hetd2", { Uplo u = p.uplo(); int n = p.b(0, 5), ra = p.d(n), ca = p.d(n), nt = p.d(std::max(n - 1, 0)); p.ready(); MAT(A, ra, ca); VEC(tau, nt); p.go(NM, okU(u) && ra == ca && nt + 1 >= ca, [&] { (void)tl::hetd2(u, Av, tauv); }); });
    E("unghr", { int n = p.b(1, 5), nt = p.d(n - 1); p.ready(); MAT(A, n, n); VEC(tau, nt); p.go(NM, nt + 1 >= n, [&] { (void)tl::unghr(0, (idx_t)n, Av, tauv); }); });
#define HQR(nm, CALL) \
    E(nm, { bool wz = p.coin(), wt = p.coin(); int n = p.b(0, 6), ra = p.d(n), ca = p.d(n), nw = p.d(n), rz = p.d(n), cz = p.d(n); p.ready(); MAT(A, ra, ca); for (int j = 0; j < ca; ++j) for (int i = j + 2; i < ra; ++i) A(i, j) = T(0); Vec<tl::complex_type<T>> w(c, "w", nw); p.fill(w); auto wv = w.view(); MAT(Q, rz, cz); \
        p.go(NM, ra == ca && nw == ca && (!wz || (rz == ca && cz == ca)), [&] { CALL; }); })
    HQR("lahqr", (void)tl::lahqr(wt, wz, 0, (idx_t)ca, Av, wv, Qv));
    HQR("multishift_qr", (void)tl::multishift_qr(wt, wz, 0, (idx_t)ca, Av, wv, Qv));
    E("multishift_QR_sweep", { int n = p.b(12, 15), ra = p.d(n), ca = p.d(n), rz = p.d(n), cz = p.d(n); bool wz = p.coin(), wt = p.coin(); p.ready(); MAT(A, ra, ca); for (int j = 0; j < ca; ++j) for (int i = j + 2; i < ra; ++i) A(i, j) = T(0); Vec<tl::complex_type<T>> s(c, "s", 4); for (int i = 0; i < 4; ++i) s[i] = tl::complex_type<T>(R(i / 2), R(i % 2 ? 1 : -1)); auto sv = s.view(); MAT(Q, rz, cz);
        p.go(NM, ca >= 12 && ra == ca && (!wz || (rz == ca && cz == ca)), [&] { tl::multishift_QR_sweep(wt, wz, 0, (idx_t)ca, Av, sv, Qv); }); });
    E("aed", { int n = p.b(6, 9), ra = p.d(n), ca = p.d(n), rz = p.d(n), cz = p.d(n), ns0 = p.d(n); bool wz = p.coin(), wt = p.coin(); p.ready(); MAT(A, ra, ca); for (int j = 0; j < ca; ++j) for (int i = j + 2; i < ra; ++i) A(i, j) = T(0); Vec<tl::complex_type<T>> s(c, "s", ns0); p.fill(s); auto sv = s.view(); MAT(Q, rz, cz); idx_t ns = 0, nd = 0;
        p.go(NM, ra == ca && (!wz || (rz == ca && cz == ca)) && ns0 == ca, [&] { tl::aggressive_early_deflation(wt, wz, 0, (idx_t)ca, 3, Av, sv, Qv, ns, nd); }); });
    E("lahqr_shiftcolumn", { int n = p.b(2, 3), ra = p.d(n), ca = p.d(n), nv = p.d(n); p.ready(); MAT(A, ra, ca); VEC(x, nv); p.go(NM, (ca == 2 || ca == 3) && ra == ca && nv == ca, [&] { if constexpr (IsC) (void)tl::lahqr_shiftcolumn(Av, xv, T(1), T(2)); else (void)tl::lahqr_shiftcolumn(Av, xv, tl::complex_type<R>(R(1), R(1)), tl::complex_type<R>(R(1), R(-1))); }); });
    E("lahqz_shiftcolumn", { int n = p.b(2, 3), ra = p.d(n), ca = p.d(n), nv = p.d(n); p.ready(); MAT(A, ra, ca); MAT(B, ca, ca); VEC(x, nv); p.go(NM, (ca == 2 || ca == 3) && ra == ca && nv == ca, [&] { using Ct = tl::complex_type<T>; (void)tl::lahqz_shiftcolumn(Av, Bv, xv, Ct(R(1), R(1)), Ct(R(1), R(-1)), T(1), T(1)); }); });
#define QZ8(nm, EXTRA, CALL) \
    E(nm, { bool wq = p.coin(), wz = p.coin(), ws = p.coin(); (void)ws; int n = p.b(1, 5), ra = p.d(n), ca = p.d(n), rb = p.d(n), cb = p.d(n), rq = p.d(n), cq = p.d(n), rz = p.d(n), cz = p.d(n), na = p.d(n), nb = p.d(n); p.ready(); MAT(A, ra, ca); MAT(B, rb, cb); MAT(Q, rq, cq); MAT(Zz, rz, cz); \
        Vec<tl::complex_type<T>> al(c, "alpha", na); p.fill(al); auto alv = al.view(); VEC(be, nb); bool ok = ra == ca && rb == ca && cb == ca && (!wq || (rq == ca && cq == ca)) && (!wz || (rz == ca && cz == ca)) EXTRA; \
        for (int j = 0; j < ca; ++j) for (int i = j + 2; i < ra; ++i) A(i, j) = T(0); for (int j = 0; j < cb; ++j) for (int i = j + 1; i < rb; ++i) B(i, j) = T(0); p.go(NM, ok, [&] { CALL; }); })
    QZ8("lahqz", &&na == ca && nb == ca, (void)tl::lahqz(ws, wq, wz, 0, (idx_t)ca, Av, Bv, alv, bev, Qv, Zzv));
    QZ8("multishift_qz", &&na == ca && nb == ca, tl::FrancisOpts fo; (void)tl::multishift_qz(ws, wq, wz, 0, (idx_t)ca, Av, Bv, alv, bev, Qv, Zzv, fo));
    QZ8("gghrd", &&ca >= 1 && rq == ca && cq == ca && rz == ca && cz == ca, (void)tl::gghrd(wq, wz, 0, (idx_t)ca, Av, Bv, Qv, Zzv));
    QZ8("gghd3", &&ca >= 1 && rq == ca && cq == ca && rz == ca && cz == ca, (void)tl::gghd3(wq, wz, 0, (idx_t)ca, Av, Bv, Qv, Zzv));
    E("gghrd_range", { int n = p.b(1, 5), lo = p.d(p.b(0, n - 1)), hi = p.d(p.b(std::min(lo + 1, n), n)); p.ready(); MAT(A, n, n); MAT(B, n, n); MAT(Q, n, n); MAT(Zz, n, n); for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) { B(i, j) = T(0); if (j < lo || i >= hi) A(i, j) = T(0); }
        p.go(NM, lo >= 0 && lo < n && hi > lo && hi <= n, [&] { (void)tl::gghrd(true, true, lo, hi, Av, Bv, Qv, Zzv); }); });
    E("gghd3_range", { int n = p.b(1, 5), lo = p.d(p.b(0, n - 1)), hi = p.d(p.b(std::min(lo + 1, n), n)); p.ready(); MAT(A, n, n); MAT(B, n, n); MAT(Q, n, n); MAT(Zz, n, n); for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) { B(i, j) = T(0); if (j < lo || i >= hi) A(i, j) = T(0); }
        p.go(NM, lo >= 0 && lo < n && hi > lo && hi <= n, [&] { (void)tl::gghd3(true, true, lo, hi, Av, Bv, Qv, Zzv); }); });
    E("schur_swap", { bool wq = p.coin(); int n = p.b(2, 5), n1 = p.d(1), n2 = p.d(1), j0 = p.d(p.coin() ? n - 2 : 0), ra = p.d(n), ca = p.d(n), rq = p.d(n), cq = p.d(n); p.ready(); MAT(A, ra, ca); MAT(Q, rq, cq); for (int j = 0; j < ca; ++j) for (int i = j + 1; i < ra; ++i) A(i, j) = T(0);
        for (int j = 0; j < std::min(ra, ca); ++j) A(j, j) = T(j + 1); if (n1 == 2 && j0 + 1 < std::min(ra, ca)) A(j0 + 1, j0) = T(-2), A(j0, j0 + 1) = T(2), A(j0 + 1, j0 + 1) = A(j0, j0); if (n2 == 2 && j0 + n1 + 1 < std::min(ra, ca)) A(j0 + n1 + 1, j0 + n1) = T(-3), A(j0 + n1, j0 + n1 + 1) = T(3), A(j0 + n1 + 1, j0 + n1 + 1) = A(j0 + n1, j0 + n1);
        bool okn = IsC ? n1 == 1 && n2 == 1 : (n1 == 1 || n1 == 2) && (n2 == 1 || n2 == 2); if (!wq && (rq != ca || cq != ca)) return; if (IsC && j0 + 1 == ca) return; p.go(NM, ra == ca && (!wq || (rq == ca && cq == ca)) && okn && j0 + n1 + n2 <= ca, [&] { (void)tl::schur_swap(wq, Av, Qv, j0, n1, n2); }); });
    E("generalized_schur_swap", { bool wq = p.coin(), wz = p.coin(); int n = p.b(2, 5), n1 = p.d(1), n2 = p.d(1), j0 = p.d(p.coin() ? n - 2 : 0), ra = p.d(n), ca = p.d(n), rq = p.d(n), cq = p.d(n); p.ready(); MAT(A, ra, ca); MAT(B, ca, ca); MAT(Q, rq, cq); MAT(Zz, ca, ca); for (int j = 0; j < ca; ++j) for (int i = j + 1; i < ca; ++i) { B(i, j) = T(0); if (i < ra) A(i, j) = T(0); }
        for (int j = 0; j < std::min(ra, ca); ++j) A(j, j) = T(j + 1); if (n1 == 2 && j0 + 1 < std::min(ra, ca)) A(j0 + 1, j0) = T(-2), A(j0, j0 + 1) = T(2), A(j0 + 1, j0 + 1) = A(j0, j0); if (n2 == 2 && j0 + n1 + 1 < std::min(ra, ca)) A(j0 + n1 + 1, j0 + n1) = T(-3), A(j0 + n1, j0 + n1 + 1) = T(3), A(j0 + n1 + 1, j0 + n1 + 1) = A(j0 + n1, j0 + n1);
        bool okn = IsC ? n1 == 1 && n2 == 1 : (n1 == 1 || n1 == 2) && (n2 == 1 || n2 == 2); if (!wq && (rq != ca || cq != ca)) return; if (IsC && j0 + 1 == ca) return; p.go(NM, ra == ca && (!wq || (rq == ca && cq == ca)) && okn && j0 + n1 + n2 <= ca, [&] { (void)tl::generalized_schur_swap(wq, wz, Av, Bv, Qv, Zzv, j0, n1, n2); }); });
    // ---- rotations, Tikhonov, eigenvectors
    E("rot_sequence", { Side s = p.g.coin() ? Side::Left : Side::Right; Direction d = p.g.coin() ? Direction::Forward : Direction::Backward; int m = p.b(1, 5), n = p.b(1, 5), k = (s == Side::Left ? m : n) - 1, nc = p.d(k), ns = p.d(k); p.ready(); VECR(cs, nc); VEC(sn, ns); MAT(A, m, n); p.go(NM, nc == k && ns == k, [&] { (void)tl::rot_sequence(s, d, csv, snv, Av); }); });
    E("rot_sequence3", { Side s = p.g.coin() ? Side::Left : Side::Right; Direction d = p.g.coin() ? Direction::Forward : Direction::Backward; int m = p.b(2, 6), n = p.b(2, 6), k = (s == Side::Left ? m : n) - 1, l = p.b(1, k), rc = p.d(k), cc = p.d(l), rs = p.d(k), cs = p.d(l); p.ready(); if (cc > k) return; Mat<R> C(c, "C", rc, cc); p.fillm(C); auto Cv = C.view(); MAT(S, rs, cs); MAT(A, m, n); p.go(NM, rc == k && rs == k && cc == cs && cc >= 0, [&] { tl::rot_sequence3(s, d, Cv, Sv, Av); }); });
    E("tkhnv", { int m = p.b(2, 5), n = p.d(m); p.ready(); MAT(A, m, n); MAT(B, m, 2); TikOpts o; o.variant = TikVariant::Elden; p.go(NM, m >= n, [&] { tkhnv(Av, Bv, R(0.5), o); }); });
    E("trevc3", { int n = p.b(1, 5), mm = p.d(n); bool r = p.coin(); p.ready(); MAT(A, n, n); for (int j = 0; j < n; ++j) { for (int i = j + 1; i < n; ++i) A(i, j) = T(0); A(j, j) = T(j + 1); } MAT(VL, n, mm); MAT(VR, n, mm); std::vector<bool> sel(n, true); p.go(NM, mm >= n, [&] { (void)tl::trevc3(r ? Side::Right : Side::Left, tl::HowMny::All, sel, Av, VLv, VRv); }); });
    return t;
}
FAMILY(args_lapack, 30000, 500000)
{
    static auto tab = lapackTable<T>();
    runEntry(c, tab[c.idx % tab.size()]);
}

// ---- error-check options: failures of a factorization are reported by an exception naming the info, or by the return value alone
FAMILY(args_ecopts, 3000, 40000)
{
    auto& g = c.rng;
    static const char* nm[] = {"potf2", "potrf2", "potrf_blocked", "potrf_rl", "potrf", "pttrf", "trtri_recursive", "hetrf"};
    int o = (int)(c.idx % 8), n = g.range(1, 8), bad = g.range(-1, n - 1);
    bool quiet = g.coin();
    Uplo u = g.coin() ? Uplo::Lower : Uplo::Upper;
    c.desc("%s n=%d bad=%d %s uplo=%c", nm[o], n, bad, quiet ? "NO_ERROR_CHECK" : "default", (char)u);
    c.nt();
    Mat<T> A(c, "A", n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) A(i, j) = i == j ? T(i == bad ? (o >= 6 ? 0 : -4) : 4) : T(0);
    auto a = A.view();
    tl::EcOpts ec = quiet ? tl::EcOpts(tl::NO_ERROR_CHECK) : tl::EcOpts();
    int info = -99;
    bool thrown = false;
    std::string what;
    if (o == 0) quiet = false;
    try {
        if (o == 0) info = (int)tl::potf2(u, a);
        else if (o == 1) info = (int)tl::potrf2(u, a, ec);
        else if (o == 2) info = (int)tl::potrf_blocked(u, a, tl::BlockedCholeskyOpts(ec));
        else if (o == 3) info = (int)tl::potrf_rl(u, a, tl::BlockedCholeskyOpts(ec));
        else if (o == 4) {
            tl::PotrfOpts po(ec);
            po.variant = g.pick({tl::PotrfVariant::Blocked, tl::PotrfVariant::Recursive, tl::PotrfVariant::RightLooking});
            po.nb = g.range(1, 4);
            c.desc(" variant=%s n=%d nb=%d bad=%d %s uplo=%c", po.variant == tl::PotrfVariant::Recursive ? "Recursive" : po.variant == tl::PotrfVariant::Blocked ? "Blocked" : "RightLooking", n, (int)po.nb, bad, quiet ? "NO_ERROR_CHECK" : "default", (char)u);
            info = (int)tl::potrf(u, a, po);
        }
        else if (o == 5) {
            Vec<R> D(c, "D", n);
            Vec<T> Ee(c, "E", n - 1);
            for (int i = 0; i < n; ++i) D[i] = R(i == bad ? -4 : 4);
            for (int i = 0; i + 1 < n; ++i) Ee[i] = T(0);
            auto d = D.view();
            auto e = Ee.view();
            info = (int)tl::pttrf(d, e, ec);
        }
        else if (o == 6) info = (int)tl::trtri_recursive(u, Diag::NonUnit, a, ec);
        else {
            std::vector<idx_t> ip(n);
            tl::HetrfOpts ho(ec);
            ho.nb = g.range(2, 6);
            info = (int)tl::hetrf(u, a, ip, ho);
        }
    }
    catch (std::runtime_error& e) {
        thrown = true;
        what = e.what();
    }
    if (bad < 0) {
        c.ok("ec.clean", !thrown && info == 0, "%s on a good matrix: info %d %s", nm[o], info, what.c_str());
        return;
    }
    c.count("failures");
    if (o == 0 || o == 7) {
        c.ok("ec.reported", thrown || info != 0, "%s does not report the failure", nm[o]);
        return;
    }
    if (quiet) {
        c.ok("ec.quiet", !thrown, "%s throws although error checks are disabled: %s", nm[o], what.c_str());
        if (!thrown) c.ok("ec.info", info == bad + 1, "%s returns info %d, the first failure is at %d", nm[o], info, bad + 1);
    }
    else {
        c.ok("ec.thrown", thrown, "%s returns info %d instead of throwing", nm[o], info);
        if (thrown) c.ok("ec.message", what.size() > 2 && what[0] == '[' && isdigit((unsigned char)what[1]), "message does not start with the info code: %s", what.c_str());
    }
}
VK_MAIN
