// C25: legacy pointer API, C wrappers and CBLAS wrappers against the reference model
#include <complex.h>
#undef I
#undef complex
#include <stddef.h>
#include <stdint.h>
#include "ops.hpp"
#include <tlapack/legacy_api/blas.hpp>
#if VK_TI < 4
namespace cw {
    #include "src/tlapack_cwrappers.cpp"
    #undef BLAS_FUNCTION
    #undef tlapack_cteC
    #undef tlapack_cteZ
    #undef tlapack_C
    #undef tlapack_Z
}
namespace cbw {
    #define BUILD_CBLAS
    #include "src/tlapack_cwrappers.cpp"
    #undef BUILD_CBLAS
}
#endif
using namespace vk;
using tlapack::Layout;
using I64 = int64_t;

// ------------------------------------------------------------- back ends
struct Leg {
    static const char* name() { return "legacy"; }
    static constexpr bool gen = true;
#define FW(f) template <class... A> static auto f(A... a) { return tlapack::legacy::f(a...); }
    FW(asum) FW(axpy) FW(copy) FW(dot) FW(dotu) FW(iamax) FW(nrm2) FW(rotg) FW(rotm) FW(rotmg) FW(scal) FW(swap) FW(rot)
    FW(gemv) FW(ger) FW(geru) FW(hemv) FW(her) FW(her2) FW(symv) FW(syr) FW(syr2) FW(trmv) FW(trsv)
    FW(gemm) FW(hemm) FW(her2k) FW(herk) FW(symm) FW(syr2k) FW(syrk) FW(trmm) FW(trsm)
    template <class A, class B, class C, class D, class E, class G, class H>
    static auto rotR(A n, B x, C ix, D y, E iy, G cc, H s) { return tlapack::legacy::rot(n, x, ix, y, iy, cc, T(s)); }
#undef FW
};
#if VK_TI < 4
    #define CAT_(a, b) a##b
    #define CAT(a, b) CAT_(a, b)
    #if VK_TI == 0
        #define PX s
        #define PXR srot
        #define PXI isamax
using CX = float;
    #elif VK_TI == 1
        #define PX d
        #define PXR drot
        #define PXI idamax
using CX = double;
    #elif VK_TI == 2
        #define PX c
        #define PXR csrot
        #define PXI icamax
using CX = float _Complex;
    #else
        #define PX z
        #define PXR zdrot
        #define PXI izamax
using CX = double _Complex;
    #endif
template <class X> inline auto cva(X x)
{
    if constexpr (std::is_same_v<X, T*>) return (CX*)x;
    else if constexpr (std::is_same_v<X, const T*>) return (const CX*)x;
    else if constexpr (std::is_same_v<X, T> && IsC) return *(CX*)&x;
    else return x;
}
template <class X> inline auto bk(X x)
{
    if constexpr (std::is_same_v<X, CX> && IsC) return *(T*)&x;
    else return x;
}
struct Cw {
    static const char* name() { return "c"; }
    static constexpr bool gen = true;
    static cw::Layout cv(Layout l) { return (cw::Layout)(unsigned char)l; }
    static cw::Op cv(Op l) { return (cw::Op)(unsigned char)l; }
    static cw::Uplo cv(Uplo l) { return (cw::Uplo)(unsigned char)l; }
    static cw::Diag cv(Diag l) { return (cw::Diag)(unsigned char)l; }
    static cw::Side cv(Side l) { return (cw::Side)(unsigned char)l; }
    template <class X> static auto cv(X x) { return cva(x); }
#define NS cw::
#define NM(f) CAT(PX, f)
#define FWN(f, nm)                                          \
    template <class... A> static auto f(A... a)             \
    {                                                       \
        using RT = decltype(NS nm(cv(a)...));               \
        if constexpr (std::is_void_v<RT>) NS nm(cv(a)...);  \
        else return bk(NS nm(cv(a)...));                    \
    }
#define FW(f) FWN(f, NM(f))
#define ALLF                                                                                            \
    FW(asum) FW(axpy) FW(copy) FW(dot) FW(dotu) FW(nrm2) FW(rotg) FW(scal) FW(swap)                     \
    FW(gemv) FW(ger) FW(geru) FW(hemv) FW(her) FW(her2) FW(symv) FW(syr2) FW(trmv) FW(trsv)             \
    FW(gemm) FW(hemm) FW(her2k) FW(herk) FW(symm) FW(syr2k) FW(syrk) FW(trmm) FW(trsm)
    ALLF
    FWN(iamax, PXI)
    FWN(rotR, PXR)
    #if VK_TI < 2
    FW(rotm) FW(rotmg) FW(syr)
    FWN(rot, PXR)
    #else
    FW(rot)
    #endif
};
struct Cb {
    static const char* name() { return "cblas"; }
    static constexpr bool gen = false;
    static auto cv(Layout l) { return l == Layout::ColMajor ? cbw::CblasColMajor : cbw::CblasRowMajor; }
    static auto cv(Op l) { return l == Op::NoTrans ? cbw::CblasNoTrans : l == Op::Trans ? cbw::CblasTrans : cbw::CblasConjTrans; }
    static auto cv(Uplo l) { return l == Uplo::Upper ? cbw::CblasUpper : cbw::CblasLower; }
    static auto cv(Diag l) { return l == Diag::Unit ? cbw::CblasUnit : cbw::CblasNonUnit; }
    static auto cv(Side l) { return l == Side::Left ? cbw::CblasLeft : cbw::CblasRight; }
    template <class X> static auto cv(X x) { return cva(x); }
#undef NS
#undef NM
#define NS cbw::
#define NM(f) CAT(cblas_, CAT(PX, f))
    ALLF
    FWN(iamax, CAT(cblas_, PXI))
    FWN(rotR, CAT(cblas_, PXR))
    #if VK_TI < 2
    FW(rotm) FW(rotmg) FW(syr)
    FWN(rot, CAT(cblas_, PXR))
    #else
    FW(rot)
    #endif
};
#endif
// run f with one of the back ends
template <class Fn> static void with(Case& c, Fn f)
{
#if VK_TI < 4
    int b = c.rng.range(0, 3);
    if (b == 1) { c.count("c"); return f(Cw{}); }
    if (b == 2) { c.count("cblas"); return f(Cb{}); }
#endif
    c.count("legacy");
    f(Leg{});
}

// ------------------------------------------------------------- operands
// constant operands live in read-only pages: even a write that is undone later is seen
struct Ro {
    char* base = nullptr;
    size_t len = 0;
    const T* p = nullptr;
    void put(const T* src, size_t n, uint64_t salt)
    {
        size_t pg = 4096, need = (n * sizeof(T) + pg - 1) / pg * pg;
        if (need == 0) need = pg;
        len = need + pg;
        base = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        T* q = (T*)(base + need) - n;
        size_t pre = ((char*)q - base) / sizeof(T);
        for (size_t k = 1; k <= pre; ++k) canary_fill(q - k, k, salt);
        if (n) memcpy((void*)q, (const void*)src, n * sizeof(T));
        mprotect(base, need, PROT_READ);
        mprotect(base + need, pg, PROT_NONE);
        p = q;
    }
    ~Ro() { if (base) munmap(base, len); }
};
struct LMat : Buf<T> {
    int m, n;
    size_t ld;
    Layout lay;
    Ro ro;
    LMat(Case& c, const char* nm, Layout l, int m, int n) : m(m), n(n), lay(l)
    {
        int pad = c.rng.coin(0.6) ? c.rng.range(1, 4) : 0;
        ld = std::max(1, (l == Layout::ColMajor ? m : n) + pad);
        alloc(c, nm, m && n ? off(m - 1, n - 1) + 1 : 0);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) st[off(i, j)] = 1;
    }
    size_t off(int i, int j) const { return lay == Layout::ColMajor ? i + j * ld : i * ld + j; }
    T& operator()(int i, int j) { return p[off(i, j)]; }
    void set(const M& A)
    {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) (*this)(i, j) = Mat<T>::fromZ(A(i, j));
    }
    M ref()
    {
        M A(m, n);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) A(i, j) = toZ((*this)(i, j));
        return A;
    }
    template <class P> void maskif(P f)
    {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i)
                if (f(i, j)) { size_t k = off(i, j); st[k] = 2; canary_fill(p + k, k, salt); }
    }
    void junk()
    {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) canary_fill(&(*this)(i, j), off(i, j), 77);
    }
    const T* cp() { freeze(); if (!ro.base) ro.put(p, len, salt); return ro.p; }
};
struct LVec : Buf<T> {
    int n;
    I64 inc;
    Ro ro;
    LVec(Case& c, const char* nm, int n, bool pos = false) : n(n)
    {
        inc = c.rng.pick({1, 1, 2, 3, -1, -2, -3, 5});
        if (pos && inc < 0) inc = -inc;
        alloc(c, nm, n ? (n - 1) * std::abs(inc) + 1 : 0);
        for (int i = 0; i < n; ++i) st[off(i)] = 1;
    }
    size_t off(int i) const { return inc > 0 ? i * inc : (n - 1 - i) * -inc; }
    T& operator[](int i) { return p[off(i)]; }
    void set(const M& A) { for (int i = 0; i < n; ++i) (*this)[i] = Mat<T>::fromZ(A.a[i]); }
    M ref()
    {
        M A(n, 1);
        for (int i = 0; i < n; ++i) A(i, 0) = toZ((*this)[i]);
        return A;
    }
    void junk() { for (int i = 0; i < n; ++i) canary_fill(&(*this)[i], off(i), 77); }
    const T* cp() { freeze(); if (!ro.base) ro.put(p, len, salt); return ro.p; }
};
static double thr(int k) { return 4.0 * (k + 8); }
static Layout rlay(Rng& g) { return g.coin() ? Layout::ColMajor : Layout::RowMajor; }
static char ch(Layout l) { return (char)l; }
using vk::ch;
static Uplo rup(Rng& g) { return g.coin() ? Uplo::Upper : Uplo::Lower; }
static Op rop(Rng& g, int k) { return k == 0 ? Op::NoTrans : k == 1 ? Op::Trans : Op::ConjTrans; }
static bool zero(T a) { return a == T(0); }

// ------------------------------------------------------------- level 1
FAMILY(l1, 900, 12000)
{
    auto& g = c.rng;
    int o = (int)(c.idx % 10);
    bool ints = g.coin();
    int n = g.range(0, 14);
    bool pos = o == 0 || o == 5 || o == 6 || o == 8;
    with(c, [&](auto B) {
        using BE = decltype(B);
        LVec x(c, "x", n, pos), y(c, "y", n);
        T al = coef<T>(g, ints);
        static const char* nm[] = {"asum", "axpy", "copy", "dot", "dotu", "iamax", "nrm2", "rot", "scal", "swap"};
        c.desc("%s.%s n=%d incx=%d incy=%d ints=%d al=%g", BE::name(), nm[o], n, (int)x.inc, (int)y.inc, ints, (double)re(al));
        if (n) c.nt();
        x.set(randM<T>(g, n, 1, ints));
        y.set(randM<T>(g, n, 1, ints));
        M x0 = x.ref(), y0 = y.ref();
        std::string key = std::string(BE::name()) + "." + nm[o];
        size_t N = (size_t)n;
        switch (o) {
            case 0: {
                R r = BE::asum(N, x.cp(), x.inc);
                F w = 0;
                for (auto& v : x0.a) w += fabs_(v.re) + fabs_(v.im);
                c.bound(key.c_str(), fabs_((F)r - w), ints ? 0 : (F)thr(n) * eps() * w);
                break;
            }
            case 1: {
                if (zero(al)) x.junk();
                BE::axpy(N, al, x.cp(), x.inc, y.p, y.inc);
                M W = zero(al) ? y0 : scale(toZ(al), x0) + y0;
                M G = scale(abs(toZ(al)), absM(x0)) + absM(y0);
                cmp(c, key.c_str(), y.ref(), W, G, ints || zero(al) ? 0 : thr(1));
                break;
            }
            case 2: {
                y.junk();
                BE::copy(N, x.cp(), x.inc, y.p, y.inc);
                same(c, key.c_str(), y.ref(), x0);
                break;
            }
            case 3:
            case 4: {
                T r = o == 3 ? BE::dot(N, x.cp(), x.inc, y.cp(), y.inc) : BE::dotu(N, x.cp(), x.inc, y.cp(), y.inc);
                M W = mul(o == 3 ? ctr(x0) : tr(x0), y0), G = mul(tr(absM(x0)), absM(y0)), Rr(1, 1);
                Rr(0, 0) = toZ(r);
                cmp(c, key.c_str(), Rr, W, G, ints ? 0 : thr(n));
                break;
            }
            case 5: {
                if (n > 2 && g.coin(0.2)) x[g.range(0, n - 1)] = x[g.range(0, n - 1)];
                if (n && g.coin(0.2)) x[g.range(0, n - 1)] = T(std::numeric_limits<R>::quiet_NaN());
                if (n && g.coin(0.2)) x[g.range(0, n - 1)] = T(-std::numeric_limits<R>::infinity());
                int want = 0;
                F best = -1;
                bool nn = false, inf = false;
                for (int i = 0; i < n; ++i) {
                    Z v = toZ(x[i]);
                    if (v.re != v.re || v.im != v.im) { if (!nn) want = i; nn = true; }
                    else if (nn) continue;
                    else if (!zfin(v)) { if (!inf) want = i; inf = true; }
                    else if (inf) continue;
                    else {
                        F a = fabs_(v.re) + fabs_(v.im);
                        if (ints ? a > best : (F)(R)a > best) { best = ints ? a : (F)(R)a; want = i; }
                    }
                }
                size_t r = BE::iamax(N, x.cp(), x.inc);
                bool good = (int)r == want;
                if (!good && !nn && !inf && r < N) {  // ties up to rounding
                    Z a = toZ(x[(int)r]), b = toZ(x[want]);
                    good = !ints && fabs_(a.re) + fabs_(a.im) >= (fabs_(b.re) + fabs_(b.im)) * (1 - 2 * eps());
                }
                c.ok(key.c_str(), good, "index %zu want %d", r, want);
                break;
            }
            case 6: {
                if (n && g.coin(0.3)) {
                    R s = g.coin() ? R(xldexp(R(1), std::numeric_limits<R>::max_exponent - 4)) : R(xldexp(R(1), std::numeric_limits<R>::min_exponent + 6));
                    for (int i = 0; i < n; ++i) x[i] *= s;
                    x0 = x.ref();
                }
                R r = BE::nrm2(N, x.cp(), x.inc);
                F w = nrm(x0);
                if (w <= rmax()) c.bound(key.c_str(), fabs_((F)r - w), (F)thr(n) * eps() * w);
                break;
            }
            case 7: {
                R cc = ints ? smallint<R>(g, 2) : rndfull<R>(g);
                T s = ints ? smallint<T>(g, 2) : rndfull<T>(g);
                bool real = g.coin();
                if (real) {
                    s = T(re(s));
                    BE::rotR(N, x.p, x.inc, y.p, y.inc, cc, re(s));
                }
                else BE::rot(N, x.p, x.inc, y.p, y.inc, cc, s);
                M X = scale(toZ(cc), x0) + scale(toZ(s), y0), Y = scale(toZ(cc), y0) - scale(conj(toZ(s)), x0);
                M G = scale(abs(toZ(cc)), absM(x0) + absM(y0)) + scale(abs(toZ(s)), absM(x0) + absM(y0));
                cmp(c, key.c_str(), x.ref(), X, G, ints ? 0 : thr(1));
                cmp(c, key.c_str(), y.ref(), Y, G, ints ? 0 : thr(1));
                break;
            }
            case 8: {
                BE::scal(N, al, x.p, x.inc);
                cmp(c, key.c_str(), x.ref(), scale(toZ(al), x0), scale(abs(toZ(al)), absM(x0)), ints ? 0 : thr(1));
                break;
            }
            default:
                BE::swap(N, x.p, x.inc, y.p, y.inc);
                same(c, key.c_str(), x.ref(), y0);
                same(c, key.c_str(), y.ref(), x0);
        }
    });
}
// generated rotations: the wrappers deliver what the template delivers (judged in C02)
FAMILY(l1rot, 400, 6000)
{
    auto& g = c.rng;
    auto sc = [&]() { T v = rndfull<T>(g); int e = g.range(0, 4); return e == 0 ? T(0) : e == 1 ? v * T(xldexp(R(1), g.range(-20, 20))) : v; };
    with(c, [&](auto B) {
        using BE = decltype(B);
        std::string key = std::string(BE::name());
        if (!IsC && g.coin()) {
            if constexpr (!IsC) {
                bool apply = g.coin();
                c.desc("%s.%s", BE::name(), apply ? "rotm" : "rotmg");
                c.nt();
                R d1 = R(xfabs(rndfull<R>(g))) + R(0.01), d2 = g.coin(0.8) ? R(xfabs(rndfull<R>(g))) : R(0), a = sc(), b = sc();
                if (g.coin(0.2)) d1 = xldexp(d1, g.range(-40, 40));
                R p[7], h[4], e1 = d1, e2 = d2, a1 = a;
                for (int i = 0; i < 7; ++i) canary_fill(p + i, i, 5);
                R q0 = p[0], q6 = p[6];
                for (int i = 0; i < 4; ++i) h[i] = 0, p[2 + i] = 0;
                int fl = tlapack::rotmg(e1, e2, a1, b, h);
                BE::rotmg(&d1, &d2, &a, b, p + 1);
                bool good = p[1] == R(fl) && d1 == e1 && d2 == e2 && a == a1;
                for (int i = 0; i < 4; ++i) good = good && p[2 + i] == h[i];
                c.ok((key + ".rotmg").c_str(), good, "differs from the template: flag %g want %d", (double)p[1], fl);
                c.ok((key + ".rotmg").c_str(), same_bits(p, &q0) && same_bits(p + 6, &q6), "wrote outside param[5]");
                if (apply) {
                    int n = g.range(0, 12);
                    LVec x(c, "x", n), y(c, "y", n);
                    x.set(randM<T>(g, n, 1, false));
                    y.set(randM<T>(g, n, 1, false));
                    M x0 = x.ref(), y0 = y.ref();
                    R pp[5] = {R(g.range(-2, 1)), rndfull<R>(g), rndfull<R>(g), rndfull<R>(g), rndfull<R>(g)};
                    BE::rotm((size_t)n, x.p, x.inc, y.p, y.inc, (const R*)pp);
                    F h11 = pp[1], h21 = pp[2], h12 = pp[3], h22 = pp[4];
                    if (pp[0] == -2) h11 = h22 = 1, h12 = h21 = 0;
                    if (pp[0] == 0) h11 = h22 = 1;
                    if (pp[0] == 1) h12 = 1, h21 = -1;
                    M X = scale(h11, x0) + scale(h12, y0), Y = scale(h21, x0) + scale(h22, y0);
                    M G = scale(2, absM(x0) + absM(y0));
                    cmp(c, (key + ".rotm").c_str(), x.ref(), X, G, thr(1));
                    cmp(c, (key + ".rotm").c_str(), y.ref(), Y, G, thr(1));
                }
            }
        }
        else {
            c.desc("%s.rotg", BE::name());
            c.nt();
            T a = sc(), b = sc(), a1 = a, b1 = b, s, s1;
            R cc, c1;
            if (a == T(0) && b == T(0) && IsC) a = a1 = T(1);
            tlapack::rotg(a1, b1, c1, s1);
            BE::rotg(&a, &b, &cc, &s);
            c.ok((key + ".rotg").c_str(), a == a1 && b == b1 && cc == c1 && s == s1, "differs from the template");
        }
    });
}
// ------------------------------------------------------------- level 2
FAMILY(l2, 1500, 20000)
{
    auto& g = c.rng;
    static const char* nm[] = {"gemv", "ger", "geru", "hemv", "symv", "her", "her2", "syr", "syr2", "trmv", "trsv"};
    int o = (int)(c.idx % 11);
    Layout L = rlay(g);
    bool ints = g.coin();
    int m = dim(g, 12), n = dim(g, 12);
    Uplo u = rup(g);
    Op t = rop(g, g.range(0, 2));
    Diag d = g.coin() ? Diag::Unit : Diag::NonUnit;
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    with(c, [&](auto B) {
        using BE = decltype(B);
        std::string key = std::string(BE::name()) + "." + nm[o];
        bool herm = o == 3 || o == 5 || o == 6;
        if (o == 5) al = T(re(al));
        if (o > 2) m = n;
        bool nt = t == Op::NoTrans;
        bool az = zero(al) && o < 9, bz = zero(be);
        int lx = o == 0 ? (nt ? n : m) : m, ly = o == 0 ? (nt ? m : n) : n;
        LMat A(c, "A", L, m, n);
        LVec x(c, "x", lx), y(c, "y", ly);
        c.desc("%s.%s lay=%c u=%c t=%c d=%c m=%d n=%d ld=%zu incx=%d incy=%d ints=%d al=%g be=%g", BE::name(), nm[o], ch(L), ch(u), ch(t), ch(d), m, n,
               A.ld, (int)x.inc, (int)y.inc, ints, (double)re(al), (double)re(be));
        if (m && n) c.nt();
        A.set(o == 10 ? wellTri<T>(g, n, ints) : randM<T>(g, m, n, ints));
        x.set(randM<T>(g, lx, 1, ints));
        y.set(randM<T>(g, ly, 1, ints));
        M A0 = A.ref(), x0 = x.ref(), y0 = y.ref();
        Z a = toZ(al), b = toZ(be);
        size_t sm = m, sn = n;
        auto tri = [&](int i, int j) { return inTri(u, i, j); };
        if (o == 0) {
            if (az) { A.junk(); x.junk(); }
            if (bz) y.junk();
            BE::gemv(L, t, sm, sn, al, A.cp(), A.ld, x.cp(), x.inc, be, y.p, y.inc);
            if (lx == 0 || m == 0) return;
            M X = opM(A0, t);
            M W = scale(b, y0), G = scale(abs(b), absM(y0));
            if (!az) W = W + scale(a, mul(X, x0)), G = G + scale(abs(a), mul(absM(X), absM(x0)));
            cmp(c, key.c_str(), y.ref(), W, G, ints ? 0 : thr(lx));
        }
        else if (o <= 2) {
            if (az) { x.junk(); y.junk(); }
            if (o == 1) BE::ger(L, sm, sn, al, x.cp(), x.inc, y.cp(), y.inc, A.p, A.ld);
            else BE::geru(L, sm, sn, al, x.cp(), x.inc, y.cp(), y.inc, A.p, A.ld);
            M yt = o == 1 ? ctr(y0) : tr(y0);
            cmp(c, key.c_str(), A.ref(), scale(a, mul(x0, yt)) + A0, scale(abs(a), mul(absM(x0), absM(yt))) + absM(A0), ints || az ? 0 : thr(1));
        }
        else if (o <= 4) {
            M Af = fullM(A0, u, herm);
            if (herm && IsC && g.coin())
                for (int i = 0; i < n; ++i) A(i, i) = Mat<T>::fromZ(Z(A0(i, i).re, 77));
            if (az) { A.junk(); x.junk(); }
            else A.maskif([&](int i, int j) { return !tri(i, j); });
            if (bz) y.junk();
            if (o == 3) BE::hemv(L, u, sn, al, A.cp(), A.ld, x.cp(), x.inc, be, y.p, y.inc);
            else BE::symv(L, u, sn, al, A.cp(), A.ld, x.cp(), x.inc, be, y.p, y.inc);
            M W = scale(b, y0), G = scale(abs(b), absM(y0));
            if (!az) W = W + scale(a, mul(Af, x0)), G = G + scale(abs(a), mul(absM(Af), absM(x0)));
            cmp(c, key.c_str(), y.ref(), W, G, ints ? 0 : thr(n));
        }
        else if (o <= 8) {
            if (herm)
                for (int i = 0; i < n; ++i) {
                    A0(i, i).im = 0;
                    A(i, i) = Mat<T>::fromZ(Z(A0(i, i).re, az ? 0 : 77));
                }
            A.maskif([&](int i, int j) { return !tri(i, j); });
            if (az) { x.junk(); y.junk(); }
            if (o == 5) BE::her(L, u, sn, re(al), x.cp(), x.inc, A.p, A.ld);
            else if (o == 6) BE::her2(L, u, sn, al, x.cp(), x.inc, y.cp(), y.inc, A.p, A.ld);
            else if (o == 7) {
                if constexpr (!IsC || std::is_same_v<BE, Leg>) BE::syr(L, u, sn, al, x.cp(), x.inc, A.p, A.ld);
                else return;
            }
            else BE::syr2(L, u, sn, al, x.cp(), x.inc, y.cp(), y.inc, A.p, A.ld);
            M xt = herm ? ctr(x0) : tr(x0), yt = herm ? ctr(y0) : tr(y0);
            M W = A0, G = absM(A0);
            if (!az) {
                if (o == 5 || o == 7) W = W + scale(a, mul(x0, xt)), G = G + scale(abs(a), mul(absM(x0), absM(xt)));
                else W = W + scale(a, mul(x0, yt)) + scale(herm ? conj(a) : a, mul(y0, xt)), G = G + scale(abs(a), mul(absM(x0), absM(yt)) + mul(absM(y0), absM(xt)));
            }
            cmp(c, key.c_str(), A.ref(), W, G, ints || az ? 0 : thr(2), tri);
            if (herm)
                for (int i = 0; i < n; ++i) c.ok((key + ".realdiag").c_str(), toZ(A(i, i)).im == 0, "diagonal %d has an imaginary part", i);
        }
        else {
            M X = opM(triM(A0, u, d), t);
            A.maskif([&](int i, int j) { return i == j ? d == Diag::Unit : !tri(i, j); });
            if (o == 9) {
                BE::trmv(L, u, t, d, sn, A.cp(), A.ld, x.p, x.inc);
                cmp(c, key.c_str(), x.ref(), mul(X, x0), mul(absM(X), absM(x0)), ints ? 0 : thr(n));
            }
            else {
                BE::trsv(L, u, t, d, sn, A.cp(), A.ld, x.p, x.inc);
                M s = x.ref();
                cmp(c, key.c_str(), mul(X, s), x0, mul(absM(X), absM(s)) + absM(x0), thr(n));
            }
        }
    });
}
// ------------------------------------------------------------- level 3
FAMILY(l3, 1500, 20000)
{
    auto& g = c.rng;
    static const char* nm[] = {"gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm", "trsm"};
    int o = (int)(c.idx % 9);
    Layout L = rlay(g);
    bool ints = g.coin();
    int m = dim(g, 10), n = dim(g, 10), k = dim(g, 10);
    Uplo u = rup(g);
    Side s = g.coin() ? Side::Left : Side::Right;
    Op ta = rop(g, g.range(0, 2)), tb = rop(g, g.range(0, 2));
    Diag d = g.coin() ? Diag::Unit : Diag::NonUnit;
    T al = coef<T>(g, ints), be = coef<T>(g, ints);
    bool herm = o == 1 || o == 3 || o == 5;
    if (o >= 3 && o <= 6) {
        if (IsC && ta != Op::NoTrans) ta = herm ? Op::ConjTrans : Op::Trans;
        if (herm) be = T(re(be));
        if (o == 3) al = T(re(al));
    }
    with(c, [&](auto B) {
        using BE = decltype(B);
        if (BE::gen && o >= 1 && o <= 6 && g.coin(0.25)) u = Uplo::General;
        std::string key = std::string(BE::name()) + "." + nm[o];
        bool az = zero(al), bz = zero(be), left = s == Side::Left;
        int am, an, bm, bn, cm = m, cn = n;
        if (o == 0) am = ta == Op::NoTrans ? m : k, an = ta == Op::NoTrans ? k : m, bm = tb == Op::NoTrans ? k : n, bn = tb == Op::NoTrans ? n : k;
        else if (o <= 2) am = an = left ? m : n, bm = m, bn = n;
        else if (o <= 6) am = bm = ta == Op::NoTrans ? n : k, an = bn = ta == Op::NoTrans ? k : n, cm = cn = n;
        else am = an = left ? m : n, bm = m, bn = n, cm = cn = 0;
        LMat A(c, "A", L, am, an), Bm(c, "B", L, bm, bn), C(c, "C", L, cm, cn);
        c.desc("%s.%s lay=%c s=%c u=%c ta=%c tb=%c d=%c m=%d n=%d k=%d lda=%zu ldb=%zu ldc=%zu ints=%d al=%g be=%g", BE::name(), nm[o], ch(L), ch(s), ch(u),
               ch(ta), ch(tb), ch(d), m, n, k, A.ld, Bm.ld, C.ld, ints, (double)re(al), (double)re(be));
        if (m && n) c.nt();
        A.set(o == 8 ? wellTri<T>(g, am, ints) : (o == 1 || o == 2) && u == Uplo::General ? fullM(randM<T>(g, am, an, ints), Uplo::Upper, herm) : randM<T>(g, am, an, ints));
        Bm.set(randM<T>(g, bm, bn, ints));
        C.set(o >= 3 && o <= 6 ? fullM(randM<T>(g, cm, cn, ints), Uplo::Upper, herm) : randM<T>(g, cm, cn, ints));
        M A0 = A.ref(), B0 = Bm.ref(), C0 = C.ref();
        Z a = toZ(al), b = toZ(be);
        size_t sm = m, sn = n, sk = k;
        auto tri = [&](int i, int j) { return o >= 3 && o <= 6 ? inTri(u, i, j) : true; };
        if (az) {
            A.junk();
            if (o < 7) Bm.junk();
        }
        if (o < 7) {
            M W = scale(b, C0), G = scale(abs(b), absM(C0));
            int kk = k;
            if (o == 0) {
                if (bz) C.junk();
                BE::gemm(L, ta, tb, sm, sn, sk, al, A.cp(), A.ld, Bm.cp(), Bm.ld, be, C.p, C.ld);
                M X = opM(A0, ta), Y = opM(B0, tb);
                if (!az) W = W + scale(a, mul(X, Y)), G = G + scale(abs(a), mul(absM(X), absM(Y)));
            }
            else if (o <= 2) {
                kk = am;
                M Af = fullM(A0, u, herm);
                if (!az) {
                    if (herm && IsC && g.coin())
                        for (int i = 0; i < am; ++i) A(i, i) = Mat<T>::fromZ(Z(A0(i, i).re, u == Uplo::General ? 0 : 77));
                    A.maskif([&](int i, int j) { return !inTri(u, i, j); });
                }
                if (bz) C.junk();
                if (herm) BE::hemm(L, s, u, sm, sn, al, A.cp(), A.ld, Bm.cp(), Bm.ld, be, C.p, C.ld);
                else BE::symm(L, s, u, sm, sn, al, A.cp(), A.ld, Bm.cp(), Bm.ld, be, C.p, C.ld);
                M X = left ? Af : B0, Y = left ? B0 : Af;
                if (!az) W = W + scale(a, mul(X, Y)), G = G + scale(abs(a), mul(absM(X), absM(Y)));
            }
            else {
                bool quick = (az || k == 0) && be == T(1);
                if (herm && IsC && !quick)
                    for (int i = 0; i < cn; ++i) C(i, i) = Mat<T>::fromZ(Z(C0(i, i).re, 77));
                if (bz) C.junk();
                C.maskif([&](int i, int j) { return !tri(i, j); });
                if (o == 3) BE::herk(L, u, ta, sn, sk, re(al), A.cp(), A.ld, re(be), C.p, C.ld);
                else if (o == 4) BE::syrk(L, u, ta, sn, sk, al, A.cp(), A.ld, be, C.p, C.ld);
                else if (o == 5) BE::her2k(L, u, ta, sn, sk, al, A.cp(), A.ld, Bm.cp(), Bm.ld, re(be), C.p, C.ld);
                else BE::syr2k(L, u, ta, sn, sk, al, A.cp(), A.ld, Bm.cp(), Bm.ld, be, C.p, C.ld);
                auto ht = [&](const M& X) { return herm ? ctr(X) : tr(X); };
                M X = ta == Op::NoTrans ? A0 : ht(A0), Y = ta == Op::NoTrans ? B0 : ht(B0);
                if (!az) {
                    if (o <= 4) W = W + scale(a, mul(X, ht(X))), G = G + scale(abs(a), mul(absM(X), tr(absM(X))));
                    else
                        W = W + scale(a, mul(X, ht(Y))) + scale(herm ? conj(a) : a, mul(Y, ht(X))),
                        G = G + scale(abs(a), mul(absM(X), tr(absM(Y))) + mul(absM(Y), tr(absM(X))));
                }
                if (herm)
                    for (int i = 0; i < cn; ++i) c.ok((key + ".realdiag").c_str(), toZ(C(i, i)).im == 0, "diagonal %d has an imaginary part", i);
            }
            cmp(c, key.c_str(), C.ref(), W, G, ints ? 0 : thr(kk), tri);
        }
        else {
            M X = opM(triM(A0, u, d), ta);
            if (!az) A.maskif([&](int i, int j) { return i == j ? d == Diag::Unit : !inTri(u, i, j); });
            if (o == 7) {
                BE::trmm(L, s, u, ta, d, sm, sn, al, A.cp(), A.ld, Bm.p, Bm.ld);
                M P = left ? mul(X, B0) : mul(B0, X), G = left ? mul(absM(X), absM(B0)) : mul(absM(B0), absM(X));
                cmp(c, key.c_str(), Bm.ref(), scale(a, P), scale(abs(a), G), ints ? 0 : thr(am));
            }
            else {
                BE::trsm(L, s, u, ta, d, sm, sn, al, A.cp(), A.ld, Bm.p, Bm.ld);
                M S = Bm.ref();
                if (az) same(c, key.c_str(), S, M(m, n));
                else {
                    M P = left ? mul(X, S) : mul(S, X), G = left ? mul(absM(X), absM(S)) : mul(absM(S), absM(X));
                    cmp(c, key.c_str(), P, scale(a, B0), G + scale(abs(a), absM(B0)), thr(am));
                }
            }
        }
    });
}
// ------------------------------------------------------------- invalid arguments (legacy templates check them)
FAMILY(lbad, 500, 5000)
{
    auto& g = c.rng;
    namespace lg = tlapack::legacy;
    static const char* nm[] = {"gemv", "ger", "geru", "hemv", "symv", "her", "her2", "syr", "syr2", "trmv", "trsv",
                               "gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm", "trsm", "axpy", "copy", "dot", "dotu", "rot", "swap", "rotm"};
    int o = (int)(c.idx % (IsC ? 26 : 27));
    Layout L = rlay(g);
    int m = g.range(2, 5), n = g.range(2, 5), k = g.range(2, 5);
    Uplo u = rup(g);
    Side s = g.coin() ? Side::Left : Side::Right;
    Op ta = rop(g, g.range(0, 1)), tb = rop(g, g.range(0, 2));
    Diag d = Diag::NonUnit;
    I64 ix = 1, iy = 1;
    int dA = 0, dB = 0, dC = 0;  // leading dimension deficits
    // which arguments exist
    bool hasL = o < 20, hasU = (o >= 3 && o <= 10) || (o >= 12 && o <= 19), hasT = o == 0 || o == 9 || o == 10 || o == 11 || (o >= 14 && o <= 19);
    bool hasS = o == 12 || o == 13 || o >= 18 && o <= 19, hasD = o == 9 || o == 10 || o == 18 || o == 19, hasX = o < 11 || o >= 20;
    bool hasY = (o < 9 && o != 5 && o != 7) || o >= 20, hasA = o < 20, hasB = o >= 11 && o < 20 && o != 14 && o != 15, hasC = o >= 11 && o <= 17;
    std::vector<const char*> w;
    if (hasL) w.push_back("layout");
    if (hasU) w.push_back("uplo");
    if (hasT) w.push_back("trans");
    if (hasS) w.push_back("side");
    if (hasD) w.push_back("diag");
    if (hasX) w.push_back("incx");
    if (hasY) w.push_back("incy");
    if (hasA) w.push_back("lda");
    if (hasB) w.push_back("ldb");
    if (hasC) w.push_back("ldc");
    if (o == 11) w.push_back("transB");
    if (o == 26) w.push_back("flag");
    std::string what = g.coin(0.15) ? "none" : w[g.range(0, (int)w.size() - 1)];
    if (what == "layout") L = g.coin() ? Layout(0) : Layout('X');
    if (what == "uplo") u = g.coin() ? Uplo('X') : Uplo(1);
    if (what == "trans") ta = Op('X');
    if (what == "transB") tb = Op('Q');
    if (what == "side") s = Side('X');
    if (what == "diag") d = Diag('X');
    if (what == "incx") ix = 0;
    if (what == "incy") iy = 0;
    if (what == "lda") dA = 1;
    if (what == "ldb") dB = 1;
    if (what == "ldc") dC = 1;
    bool col = L != Layout::RowMajor, nt = ta == Op::NoTrans;
    size_t la, lb, lc;
    if (o < 3) la = col ? m : n;
    else if (o < 11) la = n;
    else if (o == 11) la = (nt == col) ? m : k;
    else if (o == 12 || o == 13 || o >= 18) la = s == Side::Left ? m : n;
    else la = (nt == col) ? n : k;
    if (o == 11) lb = ((tb == Op::NoTrans) == col) ? k : n;
    else if (o == 16 || o == 17) lb = (nt == col) ? n : k;
    else lb = col ? m : n;
    lc = o <= 13 ? (col ? m : n) : n;
    c.desc("legacy.%s bad=%s lay=%c m=%d n=%d k=%d t=%c s=%c", nm[o], what.c_str(), ch(L), m, n, k, ch(ta), ch(s));
    c.nt();
    la -= dA; lb -= dB; lc -= dC;
    auto mk = [&](int q) { std::vector<T> v(200); for (auto& e : v) e = rndfull<T>(g); for (int i = 0; i < 6; ++i) v[i * 7] = T(1 + i % 3); (void)q; return v; };
    auto A = mk(0), B = mk(1), C = mk(2), x = mk(3), y = mk(4);
    auto A0 = A, B0 = B, C0 = C, x0 = x, y0 = y;
    T al = T(2), be = T(3);
    bool thrown = false, other = false;
    size_t M_ = m, N = n, K = k;
    try {
        switch (o) {
            case 0: lg::gemv(L, ta, M_, N, al, A.data(), la, x.data(), ix, be, y.data(), iy); break;
            case 1: lg::ger(L, M_, N, al, x.data(), ix, y.data(), iy, A.data(), la); break;
            case 2: lg::geru(L, M_, N, al, x.data(), ix, y.data(), iy, A.data(), la); break;
            case 3: lg::hemv(L, u, N, al, A.data(), la, x.data(), ix, be, y.data(), iy); break;
            case 4: lg::symv(L, u, N, al, A.data(), la, x.data(), ix, be, y.data(), iy); break;
            case 5: lg::her(L, u, N, re(al), x.data(), ix, A.data(), la); break;
            case 6: lg::her2(L, u, N, al, x.data(), ix, y.data(), iy, A.data(), la); break;
            case 7: lg::syr(L, u, N, al, x.data(), ix, A.data(), la); break;
            case 8: lg::syr2(L, u, N, al, x.data(), ix, y.data(), iy, A.data(), la); break;
            case 9: lg::trmv(L, u, ta, d, N, A.data(), la, x.data(), ix); break;
            case 10: lg::trsv(L, u, ta, d, N, A.data(), la, x.data(), ix); break;
            case 11: lg::gemm(L, ta, tb, M_, N, K, al, A.data(), la, B.data(), lb, be, C.data(), lc); break;
            case 12: lg::hemm(L, s, u, M_, N, al, A.data(), la, B.data(), lb, be, C.data(), lc); break;
            case 13: lg::symm(L, s, u, M_, N, al, A.data(), la, B.data(), lb, be, C.data(), lc); break;
            case 14: if (IsC && ta == Op::Trans) ta = Op::ConjTrans; lg::herk(L, u, ta, N, K, re(al), A.data(), la, re(be), C.data(), lc); break;
            case 15: lg::syrk(L, u, ta, N, K, al, A.data(), la, be, C.data(), lc); break;
            case 16: if (IsC && ta == Op::Trans) ta = Op::ConjTrans; lg::her2k(L, u, ta, N, K, al, A.data(), la, B.data(), lb, re(be), C.data(), lc); break;
            case 17: lg::syr2k(L, u, ta, N, K, al, A.data(), la, B.data(), lb, be, C.data(), lc); break;
            case 18: lg::trmm(L, s, u, ta, d, M_, N, al, A.data(), la, B.data(), lb); break;
            case 19: lg::trsm(L, s, u, ta, d, M_, N, al, A.data(), la, B.data(), lb); break;
            case 20: lg::axpy(N, al, x.data(), ix, y.data(), iy); break;
            case 21: lg::copy(N, x.data(), ix, y.data(), iy); break;
            case 22: lg::dot(N, x.data(), ix, y.data(), iy); break;
            case 23: lg::dotu(N, x.data(), ix, y.data(), iy); break;
            case 24: lg::rot(N, x.data(), ix, y.data(), iy, R(0.6), T(0.8)); break;
            case 25: lg::swap(N, x.data(), ix, y.data(), iy); break;
            default:
                if constexpr (!IsC) {
                    T pp[5] = {T(what == "flag" ? g.pick({-3, 2, 7, -10}) : g.range(-2, 1)), T(1), T(2), T(3), T(4)};
                    lg::rotm(N, x.data(), ix, y.data(), iy, pp);
                }
        }
    }
    catch (std::domain_error&) { thrown = true; }
    catch (std::exception&) { other = true; }
    std::string key = std::string("bad.") + nm[o];
    if (what == "none") c.ok(key.c_str(), !thrown && !other, "valid arguments rejected");
    else {
        c.ok(key.c_str(), thrown, "invalid %s not reported as std::domain_error%s", what.c_str(), other ? " (another exception)" : "");
        auto eq = [](auto& a, auto& b) { return memcmp((void*)a.data(), (void*)b.data(), a.size() * sizeof(T)) == 0; };
        if (thrown && !std::is_same_v<R, long double>)
            c.ok(key.c_str(), eq(A, A0) && eq(B, B0) && eq(C, C0) && eq(x, x0) && eq(y, y0), "operands modified although the call was rejected (invalid %s)", what.c_str());
    }
}
VK_MAIN
