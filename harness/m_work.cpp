// Workspace interface (C23): every routine is run on the same data through the allocating interface and through the workspace interface with a
// workspace of exactly the queried size holding NaN, random or huge values, column- or row-major, or larger than required. The monitor compares
// the results bit for bit and the guards/ASan watch the workspace. Plus: sufficiency of the WorkInfo algebra.
#include "vk.hpp"
#include <tlapack/lapack/aggressive_early_deflation.hpp>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/multishift_qr.hpp>
#include <tlapack/lapack/multishift_qr_sweep.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/trevc3.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/ungq.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungq_level2.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmq_level2.hpp>
using namespace vk;
namespace tl = tlapack;
using tl::Op;
using tl::Uplo;
using tl::Side;
using tl::Diag;
using tl::StoreV;
using tl::Direction;
using WI = tl::WorkInfo;
enum Mode { ALLOC, NANS, RANDOM, HUGE_, ZEROS, ROWMAJ, LARGER, NMODE };
static const char* MN[] = {"alloc", "nan", "random", "huge", "zeros", "rowmajor", "larger"};

// Workspace of a given size and content in a guarded buffer.
template <class S>
struct WS : Buf<S> {
    idx_t m, n;
    WS(Case& c, const WI& wi, int mode) : m(wi.m), n(wi.n)
    {
        if (mode == LARGER) m += c.rng.range(1, 5), n += (wi.n > 1 ? c.rng.range(0, 3) : 0);
        this->alloc(c, "work", m * n);
        for (idx_t k = 0; k < m * n; ++k) {
            this->st[k] = 1;
            if (mode == RANDOM || mode == ROWMAJ || mode == LARGER) this->p[k] = rnd<S>(c.rng);
            else if (mode == HUGE_) this->p[k] = S((real_of<S>)std::numeric_limits<real_of<S>>::max());
            else if (mode == ZEROS) this->p[k] = S(0);
            else this->p[k] = S(std::numeric_limits<real_of<S>>::quiet_NaN());
        }
        g_cnt["workspaces"]++;
        g_cnt["workspace_elements"] += (long)(m * n);
    }
    void live(std::vector<unsigned char>&) const override {}  // its final content is irrelevant
    template <class X> using real_of = tl::real_type<X>;
};
struct Run {
    Case& c;
    int mode;
    Rng g;
    std::vector<unsigned char> out;
    std::string res;
    WI wi{0};
    bool called = false;
    Run(Case& c_, int m_, Rng g_) : c(c_), mode(m_), g(g_) {}
    template <class S = void, class A, class Q, class W>
    void go(A&& al, Q&& query, W&& work)
    {
        called = true;
        char t[200];
        try {
            double r;
            if (mode == ALLOC) r = (double)al();
            else {
                wi = query();
                WI again = query();
                if (wi.m != again.m || wi.n != again.n || wi.isContiguous != again.isContiguous) c.ok("query.stable", false, "the query answers %zux%zu, then %zux%zu", wi.m, wi.n, again.m, again.n);
                WS<S> w(c, wi, mode);
                if (mode == ROWMAJ) {
                    tl::LegacyMatrix<S, idx_t, tl::Layout::RowMajor> wv(w.m, w.n, w.p, std::max<idx_t>(w.n, 1));
                    r = (double)work(wv);
                }
                else {
                    tl::LegacyMatrix<S, idx_t, tl::Layout::ColMajor> wv(w.m, w.n, w.p, std::max<idx_t>(w.m, 1));
                    r = (double)work(wv);
                }
                w.verify(c);
            }
            snprintf(t, sizeof t, "returns %.17g", r);
        }
        catch (std::exception& e) {
            snprintf(t, sizeof t, "throws %s", e.what());
        }
        res = t;
        for (auto* b : c.mats) b->live(out);
    }
};
struct Entry {
    const char* name;
    std::function<void(Run&)> body;
};
#define E(nm, ...) t.push_back(Entry{nm, [](Run& p) { [[maybe_unused]] auto& c = p.c; [[maybe_unused]] auto& g = p.g; __VA_ARGS__ }})
template <class A, class G>
static void fillr(A& a, G& g)
{
    using S = std::decay_t<decltype(a.p[0])>;
    for (idx_t k = 0; k < a.len; ++k)
        if (a.st[k] == 1) a.p[k] = S(0);
    (void)g;
}
template <class S, class G>
static void fill(Mat<S>& a, G& g)
{
    for (idx_t j = 0; j < a.n; ++j)
        for (idx_t i = 0; i < a.m; ++i) a(i, j) = rnd<S>(g);
}
template <class S, class G>
static void fill(Vec<S>& a, G& g, idx_t n)
{
    for (idx_t i = 0; i < n; ++i) a[i] = rnd<S>(g);
}
#define MAT(A, r, s) Mat<T> A(c, #A, r, s); fill(A, g); auto A##v = A.view()
#define CMAT(A, r, s) Mat<T> A(c, #A, r, s); fill(A, g); A.freeze(); const auto A##v = A.view()
#define VEC(x, n) const int len_##x = (int)(n); Vec<T> x(c, #x, len_##x); fill(x, g, len_##x); auto x##v = x.view()
// reflector scalars: moderate, so that nothing overflows
#define TAU(x, n) const int len_##x = (int)(n); Vec<T> x(c, #x, len_##x); fill(x, g, len_##x); x.freeze(); const auto x##v = x.view()
#define GO(ALLOCX, QUERY, WORK) p.template go<T>([&] { return ALLOCX; }, [&] { return QUERY; }, [&](auto& w) { return WORK; })
#define GOV(ALLOCX, QUERY, WORK) p.template go<T>([&] { ALLOCX; return 0; }, [&] { return QUERY; }, [&](auto& w) { WORK; return 0; })
static const Side SD[] = {Side::Left, Side::Right};
static const Direction DI[] = {Direction::Forward, Direction::Backward};
static const StoreV SV[] = {StoreV::Columnwise, StoreV::Rowwise};
template <class G>
static int dim(G& g, int hi) { return g.coin(0.15) ? g.range(0, 3) : g.range(0, hi); }
template <class G>
static size_t blk(G& g) { return (size_t)g.pick({1, 2, 3, 4, 5, 8, 13, 32, 64}); }
template <class G>
static Op opQ(G& g) { return IsC ? (g.coin() ? Op::NoTrans : Op::ConjTrans) : g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}); }
template <class G>
static Uplo up(G& g) { return g.coin() ? Uplo::Lower : Uplo::Upper; }
template <class G>
static void hess(Mat<T>& A, G& g, int lo, int hi)
{
    int n = (int)A.n;
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i)
            if (i > j + 1 || j < lo || i >= hi) A(i, j) = T(0);
}
static std::vector<Entry> table()
{
    std::vector<Entry> t;
    // level-2 factorizations
    E("geqr2", { MAT(A, dim(g, 24), dim(g, 24)); VEC(tau, (int)std::min(A.m, A.n)); GO(tl::geqr2(Av, tauv), tl::geqr2_worksize<T>(Av, tauv), tl::geqr2_work(Av, tauv, w)); });
    E("gelq2", { MAT(A, dim(g, 24), dim(g, 24)); VEC(tau, (int)std::min(A.m, A.n)); GO(tl::gelq2(Av, tauv), tl::gelq2_worksize<T>(Av, tauv), tl::gelq2_work(Av, tauv, w)); });
    E("geql2", { MAT(A, dim(g, 24), dim(g, 24)); VEC(tau, (int)std::min(A.m, A.n)); GO(tl::geql2(Av, tauv), tl::geql2_worksize<T>(Av, tauv), tl::geql2_work(Av, tauv, w)); });
    E("gerq2", { MAT(A, dim(g, 24), dim(g, 24)); VEC(tau, (int)std::min(A.m, A.n)); GO(tl::gerq2(Av, tauv), tl::gerq2_worksize<T>(Av, tauv), tl::gerq2_work(Av, tauv, w)); });
    // blocked factorizations
    E("geqrf", { MAT(A, dim(g, 40), dim(g, 40)); VEC(tau, (int)std::min(A.m, A.n)); tl::GeqrfOpts o; o.nb = blk(g); GO(tl::geqrf(Av, tauv, o), tl::geqrf_worksize<T>(Av, tauv, o), tl::geqrf_work(Av, tauv, w, o)); });
    E("gelqf", { MAT(A, dim(g, 40), dim(g, 40)); VEC(tau, (int)std::min(A.m, A.n)); tl::GelqfOpts o; o.nb = blk(g); GO(tl::gelqf(Av, tauv, o), tl::gelqf_worksize<T>(Av, tauv, o), tl::gelqf_work(Av, tauv, w, o)); });
    E("geqlf", { MAT(A, dim(g, 40), dim(g, 40)); VEC(tau, (int)std::min(A.m, A.n)); tl::GeqlfOpts o; o.nb = blk(g); GO(tl::geqlf(Av, tauv, o), tl::geqlf_worksize<T>(Av, tauv, o), tl::geqlf_work(Av, tauv, w, o)); });
    E("gerqf", { MAT(A, dim(g, 40), dim(g, 40)); VEC(tau, (int)std::min(A.m, A.n)); tl::GerqfOpts o; o.nb = blk(g); GO(tl::gerqf(Av, tauv, o), tl::gerqf_worksize<T>(Av, tauv, o), tl::gerqf_work(Av, tauv, w, o)); });
    E("gelqt", { MAT(A, dim(g, 30), dim(g, 30)); int nb = g.range(1, 9); MAT(TT, (int)A.m, nb); GO(tl::gelqt(Av, TTv), tl::gelqt_worksize<T>(Av, TTv), tl::gelqt_work(Av, TTv, w)); });
    E("householder_qr", { MAT(A, dim(g, 30), dim(g, 30)); VEC(tau, (int)std::min(A.m, A.n)); tl::HouseholderQROpts o; o.nb = blk(g); o.variant = g.coin() ? tl::HouseholderQRVariant::Level2 : tl::HouseholderQRVariant::Blocked; GO(tl::householder_qr(Av, tauv, o), tl::householder_qr_worksize<T>(Av, tauv, o), tl::householder_qr_work(Av, tauv, w, o)); });
    E("householder_lq", { MAT(A, dim(g, 30), dim(g, 30)); VEC(tau, (int)std::min(A.m, A.n)); tl::HouseholderLQOpts o; o.nb = blk(g); o.variant = g.coin() ? tl::HouseholderLQVariant::Level2 : tl::HouseholderLQVariant::Blocked; GO(tl::householder_lq(Av, tauv, o), tl::householder_lq_worksize<T>(Av, tauv, o), tl::householder_lq_work(Av, tauv, w, o)); });
    E("householder_ql", { MAT(A, dim(g, 30), dim(g, 30)); VEC(tau, (int)std::min(A.m, A.n)); tl::HouseholderQLOpts o; o.nb = blk(g); o.variant = g.coin() ? tl::HouseholderQLVariant::Level2 : tl::HouseholderQLVariant::Blocked; GO(tl::householder_ql(Av, tauv, o), tl::householder_ql_worksize<T>(Av, tauv, o), tl::householder_ql_work(Av, tauv, w, o)); });
    E("householder_rq", { MAT(A, dim(g, 30), dim(g, 30)); VEC(tau, (int)std::min(A.m, A.n)); tl::HouseholderRQOpts o; o.nb = blk(g); o.variant = g.coin() ? tl::HouseholderRQVariant::Level2 : tl::HouseholderRQVariant::Blocked; GO(tl::householder_rq(Av, tauv, o), tl::householder_rq_worksize<T>(Av, tauv, o), tl::householder_rq_work(Av, tauv, w, o)); });
    // generation of Q
#define UNG(nm, B, HI, ALLOCX, QUERY, WORK) \
    E(nm, { Direction d = DI[g.range(0, 1)]; StoreV s = SV[g.range(0, 1)]; int a = dim(g, HI), b = g.range(0, a), k = g.coin(0.3) ? b : g.range(0, b); bool cw = s == StoreV::Columnwise; MAT(A, cw ? a : b, cw ? b : a); TAU(tau, k); [[maybe_unused]] tl::UngqOpts o; o.nb = blk(g); [[maybe_unused]] tl::GenHouseholderQOpts ho; ho.nb = o.nb; ho.variant = g.coin() ? tl::GenHouseholderQVariant::Level2 : tl::GenHouseholderQVariant::Blocked; GO(ALLOCX, QUERY, WORK); })
    UNG("ungq_level2", 0, 24, tl::ungq_level2(d, s, Av, tauv), tl::ungq_level2_worksize<T>(d, s, Av, tauv), tl::ungq_level2_work(d, s, Av, tauv, w));
    UNG("ungq", 0, 40, tl::ungq(d, s, Av, tauv, o), tl::ungq_worksize<T>(d, s, Av, tauv, o), tl::ungq_work(d, s, Av, tauv, w, o));
    UNG("gen_householder_q", 0, 30, tl::gen_householder_q(d, s, Av, tauv, ho), tl::gen_householder_q_worksize<T>(d, s, Av, tauv, ho), tl::gen_householder_q_work(d, s, Av, tauv, w, ho));
    E("ung2r", { int m = dim(g, 24), n = g.range(0, m); MAT(A, m, n); TAU(tau, g.range(0, n)); GO(tl::ung2r(Av, tauv), tl::ung2r_worksize<T>(Av, tauv), tl::ung2r_work(Av, tauv, w)); });
    E("ung2l", { int m = dim(g, 24), n = g.range(0, m); MAT(A, m, n); TAU(tau, g.range(0, n)); GO(tl::ung2l(Av, tauv), tl::ung2l_worksize<T>(Av, tauv), tl::ung2l_work(Av, tauv, w)); });
    E("ungl2", { int n = dim(g, 24), m = g.range(0, n); MAT(A, m, n); TAU(tau, g.range(0, m)); GO(tl::ungl2(Av, tauv), tl::ungl2_worksize<T>(Av, tauv), tl::ungl2_work(Av, tauv, w)); });
    E("ungr2", { int n = dim(g, 24), m = g.range(0, n); MAT(A, m, n); TAU(tau, g.range(0, m)); GO(tl::ungr2(Av, tauv), tl::ungr2_worksize<T>(Av, tauv), tl::ungr2_work(Av, tauv, w)); });
    // multiplication by Q
#define UNM(nm, HI, ALLOCX, QUERY, WORK) \
    E(nm, { Side sd = SD[g.range(0, 1)]; Op op = opQ(g); Direction d = DI[g.range(0, 1)]; StoreV s = SV[g.range(0, 1)]; int nq = dim(g, HI), oth = dim(g, HI), k = g.coin(0.3) ? nq : g.range(0, nq); bool cw = s == StoreV::Columnwise; CMAT(V, cw ? nq : k, cw ? k : nq); TAU(tau, k); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); [[maybe_unused]] tl::UnmqOpts o{blk(g)}; [[maybe_unused]] tl::HouseholderQMulOpts ho; ho.nb = o.nb; ho.variant = g.coin() ? tl::HouseholderQMulVariant::Level2 : tl::HouseholderQMulVariant::Blocked; GO(ALLOCX, QUERY, WORK); })
    UNM("unmq_level2", 20, tl::unmq_level2(sd, op, d, s, Vv, tauv, Cv), tl::unmq_level2_worksize<T>(sd, op, d, s, Vv, tauv, Cv), tl::unmq_level2_work(sd, op, d, s, Vv, tauv, Cv, w));
    UNM("unmq", 30, tl::unmq(sd, op, d, s, Vv, tauv, Cv, o), tl::unmq_worksize<T>(sd, op, d, s, Vv, tauv, Cv, o), tl::unmq_work(sd, op, d, s, Vv, tauv, Cv, w, o));
    UNM("householder_q_mul", 24, tl::householder_q_mul(sd, op, d, s, Vv, tauv, Cv, ho), tl::householder_q_mul_worksize<T>(sd, op, d, s, Vv, tauv, Cv, ho), tl::householder_q_mul_work(sd, op, d, s, Vv, tauv, Cv, w, ho));
    // wrappers that only offer the query: the size they report must do for the routine they stand for
#define UNMX(nm, D, S, OPTS, ALLOCX, QUERY) \
    E(nm, { Side sd = SD[g.range(0, 1)]; Op op = opQ(g); int nq = dim(g, 24), oth = dim(g, 24), k = g.coin(0.3) ? nq : g.range(0, nq); bool cw = S == StoreV::Columnwise; CMAT(V, cw ? nq : k, cw ? k : nq); TAU(tau, k); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); OPTS o; o.nb = blk(g); GO(ALLOCX, QUERY, tl::unmq_work(sd, op, D, S, Vv, tauv, Cv, w, tl::UnmqOpts{o.nb})); })
    UNMX("unmqr", Direction::Forward, StoreV::Columnwise, tl::UnmqrOpts, tl::unmqr(sd, op, Vv, tauv, Cv, o), tl::unmqr_worksize<T>(sd, op, Vv, tauv, Cv, o));
    UNMX("unmql", Direction::Backward, StoreV::Columnwise, tl::UnmqlOpts, tl::unmql(sd, op, Vv, tauv, Cv, o), tl::unmql_worksize<T>(sd, op, Vv, tauv, Cv, o));
    UNMX("unmlq", Direction::Forward, StoreV::Rowwise, tl::UnmlqOpts, tl::unmlq(sd, op, Vv, tauv, Cv, o), tl::unmlq_worksize<T>(sd, op, Vv, tauv, Cv, o));
    UNMX("unmrq", Direction::Backward, StoreV::Rowwise, tl::UnmrqOpts, tl::unmrq(sd, op, Vv, tauv, Cv, o), tl::unmrq_worksize<T>(sd, op, Vv, tauv, Cv, o));
#define UNM2(nm, D, S) \
    E(#nm, { Side sd = SD[g.range(0, 1)]; Op op = opQ(g); int nq = dim(g, 20), oth = dim(g, 20), k = g.coin(0.3) ? nq : g.range(0, nq); bool cw = S == StoreV::Columnwise; CMAT(V, cw ? nq : k, cw ? k : nq); TAU(tau, k); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); GO(tl::nm(sd, op, Vv, tauv, Cv), tl::nm##_worksize<T>(sd, op, Vv, tauv, Cv), tl::unmq_level2_work(sd, op, D, S, Vv, tauv, Cv, w)); })
    UNM2(unm2r, Direction::Forward, StoreV::Columnwise);
    UNM2(unm2l, Direction::Backward, StoreV::Columnwise);
    UNM2(unml2, Direction::Forward, StoreV::Rowwise);
    UNM2(unmr2, Direction::Backward, StoreV::Rowwise);
    // reflectors
    E("larf", { Side sd = SD[g.range(0, 1)]; Direction d = DI[g.range(0, 1)]; StoreV s = SV[g.range(0, 1)]; int nq = dim(g, 20), oth = dim(g, 20); TAU(x, nq); T tau = rnd<T>(g); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); if (nq == 0) return; GOV(tl::larf(sd, d, s, xv, tau, Cv), tl::larf_worksize<T>(sd, d, s, xv, tau, Cv), tl::larf_work(sd, d, s, xv, tau, Cv, w)); });
    E("larf01", { Side sd = SD[g.range(0, 1)]; StoreV s = SV[g.range(0, 1)]; int nq = dim(g, 20), oth = dim(g, 20); TAU(x, nq); T tau = rnd<T>(g); VEC(c0, oth); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); GOV(tl::larf(sd, s, xv, tau, c0v, Cv), tl::larf_worksize<T>(sd, s, xv, tau, c0v, Cv), tl::larf_work(sd, s, xv, tau, c0v, Cv, w)); });
    E("larfb", { Side sd = SD[g.range(0, 1)]; Op op = opQ(g); Direction d = DI[g.range(0, 1)]; StoreV s = SV[g.range(0, 1)]; int k = g.range(1, 8), nq = k + g.range(0, 14), oth = dim(g, 20); bool cw = s == StoreV::Columnwise; CMAT(V, cw ? nq : k, cw ? k : nq); CMAT(Tm, k, k); MAT(C, sd == Side::Left ? nq : oth, sd == Side::Left ? oth : nq); GO(tl::larfb(sd, op, d, s, Vv, Tmv, Cv), tl::larfb_worksize<T>(sd, op, d, s, Vv, Tmv, Cv), tl::larfb_work(sd, op, d, s, Vv, Tmv, Cv, w)); });
    // reductions
    E("gebd2", { MAT(A, dim(g, 20), dim(g, 20)); int k = (int)std::min(A.m, A.n); VEC(tv, k); VEC(tw, k); GO(tl::gebd2(Av, tvv, twv), tl::gebd2_worksize<T>(Av, tvv, twv), tl::gebd2_work(Av, tvv, twv, w)); });
    E("gebrd", { MAT(A, dim(g, 36), dim(g, 36)); int k = (int)std::min(A.m, A.n); VEC(tv, k); VEC(tw, k); tl::GebrdOpts o; o.nb = blk(g); GO(tl::gebrd(Av, tvv, twv, o), tl::gebrd_worksize<T>(Av, tvv, twv, o), tl::gebrd_work(Av, tvv, twv, w, o)); });
    E("bidiag", { MAT(A, dim(g, 24), dim(g, 24)); int k = (int)std::min(A.m, A.n); VEC(tv, k); VEC(tw, k); tl::BidiagOpts o; o.nb = blk(g); o.variant = g.coin() ? tl::BidiagVariant::Level2 : tl::BidiagVariant::Blocked; GO(tl::bidiag(Av, tvv, twv, o), tl::bidiag_worksize<T>(Av, tvv, twv, o), tl::bidiag_work(Av, tvv, twv, w, o)); });
    E("ungbr_q", { int m = g.range(1, 24), k = g.range(1, 24), n = m > k ? g.range(k, m) : m; MAT(A, m, n); TAU(tau, std::min(m, k)); tl::UngbrOpts o; o.nb = blk(g); GO(tl::ungbr_q(k, Av, tauv, o), tl::ungbr_q_worksize<T>(k, Av, tauv, o), tl::ungbr_q_work(k, Av, tauv, w, o)); });
    E("ungbr_p", { int n = g.range(1, 24), k = g.range(1, 24), m = n > k ? g.range(k, n) : n; MAT(A, m, n); TAU(tau, std::min(n, k)); tl::UngbrOpts o; o.nb = blk(g); GO(tl::ungbr_p(k, Av, tauv, o), tl::ungbr_p_worksize<T>(k, Av, tauv, o), tl::ungbr_p_work(k, Av, tauv, w, o)); });
#define HES(nm, HI, OPTS, ALLOCX, QUERY, WORK) \
    E(nm, { int n = g.range(1, HI), lo = g.coin(0.6) ? 0 : g.range(0, n - 1), hi = g.coin(0.6) ? n : g.range(lo + 1, n); MAT(A, n, n); VEC(tau, n - 1); OPTS; GO(ALLOCX, QUERY, WORK); })
    HES("gehd2", 24, (void)0, tl::gehd2(lo, hi, Av, tauv), tl::gehd2_worksize<T>(lo, hi, Av, tauv), tl::gehd2_work(lo, hi, Av, tauv, w));
    HES("gehrd", 40, tl::GehrdOpts o; o.nb = blk(g); o.nx_switch = g.range(1, 20), tl::gehrd(lo, hi, Av, tauv, o), tl::gehrd_worksize<T>(lo, hi, Av, tauv, o), tl::gehrd_work(lo, hi, Av, tauv, w, o));
    HES("hessenberg", 30, tl::HessenbergOpts o; o.nb = blk(g); o.nx_switch = g.range(1, 20); o.variant = g.coin() ? tl::HessenbergVariant::Level2 : tl::HessenbergVariant::Blocked, tl::hessenberg(lo, hi, Av, tauv, o), tl::hessenberg_worksize<T>(lo, hi, Av, tauv, o), tl::hessenberg_work(lo, hi, Av, tauv, w, o));
    HES("unghr", 24, const auto& ct = tauv, tl::unghr(lo, hi, Av, ct), tl::unghr_worksize<T>(lo, hi, Av, ct), tl::unghr_work(lo, hi, Av, ct, w));
    E("unmhr", { int n = g.range(1, 20), lo = g.coin(0.6) ? 0 : g.range(0, n - 1), hi = g.coin(0.6) ? n : g.range(lo + 1, n), oth = dim(g, 20); Side sd = SD[g.range(0, 1)]; Op op = g.coin() ? Op::NoTrans : Op::ConjTrans; CMAT(A, n, n); TAU(tau, n - 1); MAT(C, sd == Side::Left ? n : oth, sd == Side::Left ? oth : n); GO(tl::unmhr(sd, op, lo, hi, Av, tauv, Cv), tl::unmhr_worksize<T>(sd, op, lo, hi, Av, tauv, Cv), tl::unmhr_work(sd, op, lo, hi, Av, tauv, Cv, w)); });
    // inverses and factorizations
    E("getri", { int n = dim(g, 24); MAT(A, n, n); for (int i = 0; i < n; ++i) A(i, i) += T(n + 2); Vec<idx_t> piv(c, "piv", n); for (int i = 0; i < n; ++i) piv[i] = g.range(i, n - 1); const auto pv = piv.view(); tl::GetriOpts o; o.variant = g.coin(0.8) ? tl::GetriVariant::UXLI : tl::GetriVariant::UILI; GO(tl::getri(Av, pv, o), tl::getri_worksize<T>(Av, pv, o), tl::getri_work(Av, pv, w, o)); });
    E("getri_uxli", { int n = dim(g, 24); MAT(A, n, n); for (int i = 0; i < n; ++i) A(i, i) += T(n + 2); GO(tl::getri_uxli(Av), tl::getri_uxli_worksize<T>(Av), tl::getri_uxli_work(Av, w)); });
    E("hetrf", { int n = dim(g, 40); Uplo u = up(g); MAT(A, n, n); for (int i = 0; i < n; ++i) A(i, i) = T(std::real(A(i, i))); if (g.coin()) for (int i = 0; i < n; ++i) A(i, i) *= R(0.01); Vec<int> piv(c, "ipiv", n); for (int i = 0; i < n; ++i) piv[i] = 0; auto pv = piv.view(); tl::HetrfOpts o; o.nb = std::max<size_t>(2, blk(g)); o.invariant = g.coin() ? Op::ConjTrans : Op::Trans; GO(tl::hetrf(u, Av, pv, o), tl::hetrf_blocked_worksize<T>(Av, o), tl::hetrf_work(u, Av, pv, w, o)); });
    // norms
#define NRM(nm, ARGS, ALLOCX, QUERY, WORK) \
    E(nm, { ARGS; p.template go<R>([&] { return (double)(ALLOCX); }, [&] { return QUERY; }, [&](auto& w) { return (double)(WORK); }); })
    NRM("infnorm", CMAT(A, dim(g, 20), dim(g, 20)), tl::infnorm_colmajor(Av), tl::infnorm_colmajor_worksize<R>(Av), tl::infnorm_colmajor_work(Av, w));
    NRM("infnorm_symmetric", int n = dim(g, 20); Uplo u = up(g); CMAT(A, n, n), tl::infnorm_symmetric_colmajor(u, Av), tl::infnorm_symmetric_colmajor_worksize<R>(u, Av), tl::infnorm_symmetric_colmajor_work(u, Av, w));
    NRM("infnorm_hermitian", int n = dim(g, 20); Uplo u = up(g); CMAT(A, n, n), tl::infnorm_hermitian_colmajor(u, Av), tl::infnorm_hermitian_colmajor_worksize<R>(u, Av), tl::infnorm_hermitian_colmajor_work(u, Av, w));
    NRM("infnorm_triangular", Uplo u = up(g); Diag d = g.coin() ? Diag::Unit : Diag::NonUnit; CMAT(A, dim(g, 20), dim(g, 20)), tl::infnorm_triangular_colmajor(u, d, Av), tl::infnorm_triangular_colmajor_worksize<R>(u, d, Av), tl::infnorm_triangular_colmajor_work(u, d, Av, w));
    // eigenvalue iterations
#define HQR(nm, HI, OPTS, ALLOCX, QUERY, WORK) \
    E(nm, { int n = g.range(1, HI), lo = g.coin(0.7) ? 0 : g.range(0, n - 1), hi = g.coin(0.7) ? n : g.range(lo + 1, n); bool wt = g.coin(0.7), wz = g.coin(0.7); MAT(A, n, n); hess(A, g, lo, hi); MAT(Q, n, n); Vec<tl::complex_type<T>> wr(c, "w", n); for (int i = 0; i < n; ++i) wr[i] = tl::complex_type<T>(0); auto wv = wr.view(); OPTS; o.nmin = g.range(15, 30); if (g.coin()) o.nibble = g.range(1, 40); GO(ALLOCX, QUERY, WORK); })
    HQR("multishift_qr", 50, tl::FrancisOpts o, tl::multishift_qr(wt, wz, lo, hi, Av, wv, Qv, o), tl::multishift_qr_worksize<T>(wt, wz, lo, hi, Av, wv, Qv, o), tl::multishift_qr_work(wt, wz, lo, hi, Av, wv, Qv, w, o));
    HQR("qr_iteration", 50, tl::QRIterationOpts o; o.variant = g.coin(0.8) ? tl::QRIterationVariant::MultiShift : tl::QRIterationVariant::DoubleShift, tl::qr_iteration(wt, wz, lo, hi, Av, wv, Qv, o), tl::qr_iteration_worksize<T>(wt, wz, lo, hi, Av, wv, Qv, o), tl::qr_iteration_work(wt, wz, lo, hi, Av, wv, Qv, w, o));
    E("sweep", { int n = g.range(12, 60), lo = g.coin(0.6) ? 0 : g.range(0, n - 3), hi = g.coin(0.6) ? n : g.range(lo + 3, n), ns = 2 * g.range(1, std::max(1, std::min(8, (n - 3) / 6))); bool wt = g.coin(0.7), wz = g.coin(0.7); MAT(A, n, n); hess(A, g, lo, hi); MAT(Q, n, n); Vec<tl::complex_type<T>> s(c, "s", ns);
        for (int i = 0; i < ns; i += 2) { R re = (R)g.sym(), im = g.coin() ? (R)g.u01() : R(0); s[i] = tl::complex_type<T>(re, im); s[i + 1] = tl::complex_type<T>(re, -im); } const auto sv = s.view();
        GOV(tl::multishift_QR_sweep(wt, wz, lo, hi, Av, sv, Qv), tl::multishift_QR_sweep_worksize<T>(wt, wz, lo, hi, Av, sv, Qv), tl::multishift_QR_sweep_work(wt, wz, lo, hi, Av, sv, Qv, w)); });
    E("aed", { int n = g.range(9, 48), lo = g.coin(0.6) ? 0 : g.range(0, n - 2), hi = g.coin(0.6) ? n : g.range(lo + 1, n), nw = g.range(1, std::min(hi - lo, (n - 3) / 3)); bool wt = g.coin(0.7), wz = g.coin(0.7); MAT(A, n, n); hess(A, g, lo, hi); int kw = hi - nw; if (kw > lo && g.coin(0.6)) A(kw, kw - 1) *= (R)std::pow(10.0, -g.range(0, 20)); MAT(Q, n, n); Vec<tl::complex_type<T>> s(c, "s", n); for (int i = 0; i < n; ++i) s[i] = tl::complex_type<T>(0); auto sv = s.view(); idx_t ns = 0, nd = 0; tl::FrancisOpts o; o.nmin = g.pick({15, 75});
        GO((tl::aggressive_early_deflation(wt, wz, lo, hi, (idx_t)nw, Av, sv, Qv, ns, nd, o), ns * 1000 + nd), tl::aggressive_early_deflation_worksize<T>(wt, wz, lo, hi, (idx_t)nw, Av, sv, Qv, ns, nd, o), (tl::aggressive_early_deflation_work(wt, wz, lo, hi, (idx_t)nw, Av, sv, Qv, ns, nd, w, o), ns * 1000 + nd)); });
    // eigenvectors: the workspaces are vectors
    E("trevc3", { int n = dim(g, 20); MAT(A, n, n); for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) A(i, j) = T(0);
        if constexpr (!IsC) for (int i = 0; i + 1 < n; i += 2) if (g.coin(0.4)) { A(i + 1, i + 1) = A(i, i); A(i, i + 1) = (R)g.range(1, 9) / 4, A(i + 1, i) = -(R)g.range(1, 9) / 4; }
        tl::Side sd = g.pick({tl::Side::Left, tl::Side::Right, tl::Side::Both}); tl::HowMny h = g.coin() ? tl::HowMny::All : tl::HowMny::Back; MAT(Vl, n, n); MAT(Vr, n, n); std::vector<bool> sel(n);
        tl::Trevc3Opts o; o.block_size = g.coin(0.2) ? 64 : g.range(1, 6), o.block_size_solve = g.coin(0.2) ? 64 : g.range(1, 6); R fillv = p.mode == HUGE_ ? std::numeric_limits<R>::max() : p.mode == ZEROS ? R(0) : p.mode == NANS ? std::numeric_limits<R>::quiet_NaN() : R(-3);
        GO(tl::trevc3(sd, h, sel, Av, Vlv, Vrv, o), tl::trevc3_worksize(sd, h, sel, Av, Vlv, Vrv, o), ([&] { std::vector<R> rw(n, fillv); tl::LegacyVector<R, idx_t> rv(n, rw.data(), 1); tl::LegacyVector<T, idx_t> wv(tl::size(w), w.ptr, 1); return tl::trevc3_work(sd, h, sel, Av, Vlv, Vrv, rv, wv, o); }())); });
    return t;
}
FAMILY(work_routines, 6000, 120000)
{
    static const std::vector<Entry> tab = table();
    const Entry& en = tab[c.idx % tab.size()];
    Rng g0 = c.rng;
    c.rng = Rng(mix64(g0.s + 77));
    auto run = [&](int mode) {
        Run r(c, mode, g0);
        size_t k = c.mats.size();
        en.body(r);
        c.mats.resize(k);
        return r;
    };
    Run a = run(ALLOC);
    if (!a.called) return;
    Run x = run(NANS);
    int other[2] = {c.rng.range(RANDOM, NMODE - 1), c.rng.range(RANDOM, NMODE - 1)};
    c.desc("%s query=%zux%zu%s modes alloc nan %s %s", en.name, x.wi.m, x.wi.n, x.wi.isContiguous ? " contiguous" : "", MN[other[0]], MN[other[1]]);
    if (x.wi.size()) c.nt();
    std::string k = en.name;
    auto same = [&](const Run& p, const char* what) {
        if (!c.ok((k + ".result").c_str(), p.res == a.res, "%s with %s workspace, the allocating interface %s", p.res.c_str(), what, a.res.c_str())) return;
        size_t d = 0;
        bool eq = p.out.size() == a.out.size();
        if (eq && !a.out.empty() && memcmp(p.out.data(), a.out.data(), a.out.size()) != 0) {
            eq = false;
            while (p.out[d] == a.out[d]) ++d;
        }
        c.ok((k + ".content").c_str(), eq, "results differ from the allocating interface with %s workspace (byte %zu of %zu)", what, d, a.out.size());
    };
    same(x, "NaN");
    for (int m : other) same(run(m), MN[m]);
}
// ---- the algebra of requirements
// A workspace described by W serves a requirement w when w fits: by size if W is contiguous memory, by shape otherwise.
struct Req {
    size_t m, n;
    bool vec, cont;
};
static bool fits(size_t M_, size_t N_, const Req& r)
{
    if (r.m * r.n == 0) return true;
    if (r.cont) return r.m * r.n <= M_ && N_ >= 1 ? true : (M_ == 1 && r.m * r.n <= N_);
    if (r.m <= M_ && r.n <= N_) return true;
    return r.vec && r.n <= M_ && r.m <= N_;
}
FAMILY(work_algebra, 4000, 80000)
{
    auto& g = c.rng;
    int k = g.range(2, 5);
    std::vector<std::pair<WI, std::vector<Req>>> in;
    std::string txt;
    auto mk = [&](Req& r) {
        r.vec = g.coin(0.4);
        r.m = g.range(0, 6), r.n = r.vec ? 1 : g.range(0, 6);
        r.cont = false;
        return r.vec ? WI(r.m) : WI(r.m, r.n);
    };
    Req r0;
    WI w = mk(r0);
    // the accumulated requirement as a monitor sees it: the sizes that must be available together, as alternatives (max) of sums
    std::vector<std::vector<Req>> alts{{r0}};
    txt = std::to_string(r0.m) + (r0.vec ? "v" : "x" + std::to_string(r0.n));
    for (int i = 1; i < k; ++i) {
        Req r;
        WI b = mk(r);
        int op = g.range(0, 4);
        std::string rt = std::to_string(r.m) + (r.vec ? "v" : "x" + std::to_string(r.n));
        if (op <= 1) {
            w.minMax(b);
            alts.push_back({r});
            txt += " max " + rt;
        }
        else if (op <= 3) {
            w += b;
            for (auto& a : alts) a.push_back(r);
            txt += " + " + rt;
        }
        else {
            w = w.transpose();
            for (auto& a : alts)
                for (auto& q : a)
                    if (!q.vec) std::swap(q.m, q.n);
            txt += " ^T";
        }
    }
    c.desc("%s -> %zux%zu%s", txt.c_str(), w.m, w.n, w.isContiguous ? " contiguous" : "");
    c.nt();
    c.ok("algebra.size", w.size() == w.m * w.n, "size() is %zu", w.size());
    for (auto& a : alts) {
        size_t tot = 0;
        for (auto& q : a) tot += q.m * q.n;
        if (!c.ok("algebra.total", w.size() >= tot, "%zu elements for a requirement of %zu", w.size(), tot)) return;
        if (w.isContiguous || w.size() == 0) continue;
        // every part fits by shape
        for (auto& q : a)
            if (!c.ok("algebra.shape", fits(w.m, w.n, q), "a %zux%zu%s part does not fit", q.m, q.n, q.vec ? " vector" : "")) return;
    }
    // the library can carve the parts out of a workspace of that size
    for (auto& a : alts) {
        WS<T> ws(c, w, NANS);
        auto carve = [&](auto wv) {
            using WV = decltype(wv);
            std::vector<std::pair<T*, T*>> used;
            std::function<void(WV, size_t)> rec = [&](WV cur, size_t at) {
                if (at == a.size()) return;
                const Req& q = a[at];
                T mark = T(R(at + 1));
                if (q.vec) {
                    auto [v, rest] = tl::reshape(cur, q.m);
                    for (size_t i = 0; i < q.m; ++i) {
                        if (!c.ok("algebra.overlap", !(v[i] == v[i]), "parts overlap")) return;
                        v[i] = mark;
                    }
                    rec(rest, at + 1);
                }
                else {
                    auto [v, rest] = tl::reshape(cur, q.m, q.n);
                    for (size_t j = 0; j < q.n; ++j)
                        for (size_t i = 0; i < q.m; ++i) {
                            if (!c.ok("algebra.overlap", !(v(i, j) == v(i, j)), "parts overlap")) return;
                            v(i, j) = mark;
                        }
                    rec(rest, at + 1);
                }
            };
            try {
                rec(wv, 0);
            }
            catch (std::exception& e) {
                c.ok("algebra.carve", false, "the parts cannot be carved out: %s", e.what());
            }
        };
        if (c.rng.coin()) carve(tl::LegacyMatrix<T, idx_t, tl::Layout::ColMajor>(ws.m, ws.n, ws.p, std::max<idx_t>(ws.m, 1)));
        else carve(tl::LegacyMatrix<T, idx_t, tl::Layout::RowMajor>(ws.m, ws.n, ws.p, std::max<idx_t>(ws.n, 1)));
        ws.verify(c);
        c.mats.pop_back();
    }
}
VK_MAIN
