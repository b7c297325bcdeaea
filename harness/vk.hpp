// vk: runtime-monitoring harness framework for tlapack (see DESIGN.md)
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#ifdef VK_MT
    #include <atomic>
    #include <condition_variable>
    #include <mutex>
    #include <thread>
    #define VK_TLS thread_local
#else
    #define VK_TLS
#endif

#if VK_TI == 6 || VK_TI == 7
    #include "mp.hpp"
#endif
#if VK_TI == 8 || VK_TI == 9
    #include "quad.hpp"
#endif
#if VK_TI == 10 || VK_TI == 11
    #include <iostream>
    #include <tlapack/plugins/eigen_half.hpp>
#endif
#if VK_TI == 12 || VK_TI == 13
    #include <iostream>
    #include <tlapack/plugins/eigen_bfloat16.hpp>
#endif
#if VK_LI == 3 || VK_LI == 4
    #include <tlapack/plugins/eigen.hpp>
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include "strided.hpp"
#include <tlapack/base/utils.hpp>

#ifndef VK_TI
    #define VK_TI 1
#endif
#ifndef VK_LI
    #define VK_LI 0
#endif

namespace vk {

using idx_t = std::size_t;
#if VK_LI == 3 || VK_LI == 4
using midx_t = Eigen::Index;  // index type of the matrix views
#else
using midx_t = std::size_t;
#endif

// ----------------------------------------------------------------- types
#if VK_TI == 0
using T = float;
#elif VK_TI == 1
using T = double;
#elif VK_TI == 2
using T = std::complex<float>;
#elif VK_TI == 3
using T = std::complex<double>;
#elif VK_TI == 4
using T = long double;
#elif VK_TI == 5
using T = std::complex<long double>;
#elif VK_TI == 6
using T = Mp;
#elif VK_TI == 7
using T = std::complex<Mp>;
#elif VK_TI == 8
using T = __float128;
#elif VK_TI == 9
using T = std::complex<__float128>;
#elif VK_TI == 10
using T = Eigen::half;
#elif VK_TI == 11
using T = std::complex<Eigen::half>;
#elif VK_TI == 12
using T = Eigen::bfloat16;
#elif VK_TI == 13
using T = std::complex<Eigen::bfloat16>;
#endif
using R = tlapack::real_type<T>;
using CT = tlapack::complex_type<T>;
constexpr bool IsC = tlapack::is_complex<T>;

template <class X> struct ref_of;
template <> struct ref_of<float> { using type = double; };
template <> struct ref_of<double> { using type = long double; };
template <> struct ref_of<long double> { using type = __float128; };
#if VK_TI == 6 || VK_TI == 7
template <> struct ref_of<Mp> { using type = __float128; };
#endif
#if VK_TI == 8 || VK_TI == 9
template <> struct ref_of<__float128> { using type = DQ; };
#endif
#if VK_TI == 10 || VK_TI == 11
template <> struct ref_of<Eigen::half> { using type = double; };
#endif
#if VK_TI == 12 || VK_TI == 13
template <> struct ref_of<Eigen::bfloat16> { using type = double; };
#endif
using F = typename ref_of<R>::type;
constexpr bool kExactInts = std::numeric_limits<R>::digits >= 20;  // results of the small integer problems are exact

#if VK_TI == 8 || VK_TI == 9
template <class S> inline S xldexp(S x, int e) { return ldexpq(x, e); }
template <class S> inline S xfabs(S x) { return fabsq(x); }
template <class S> inline bool xsignbit(S x) { return signbitq(x); }
#else
template <class S> inline S xldexp(S x, int e) { using std::ldexp; return S(ldexp(x, e)); }
template <class S> inline S xfabs(S x) { using std::fabs; return S(fabs(x)); }
template <class S> inline bool xsignbit(S x) { using std::signbit; return signbit(x); }
#endif
inline F fldexp(F x, int e)
{
    if (x == 0) return x;
    while (e > 0) { int k = e > 60 ? 60 : e; x *= F(1ull << k); e -= k; }
    while (e < 0) { int k = -e > 60 ? 60 : -e; x /= F(1ull << k); e += k; }
    return x;
}
inline F fabs_(F x) { return x < 0 ? -x : x; }
inline F vsqrt(F x)
{
    if (!(x > 0)) return x == 0 ? F(0) : (x != x ? x : F(0) / F(0));
    if constexpr (std::is_same_v<F, double>) return std::sqrt((double)x);
    else if constexpr (std::is_same_v<F, long double>)
        return std::sqrt((long double)x);
#if VK_TI == 8 || VK_TI == 9
    else if constexpr (std::is_same_v<F, DQ>) return dqsqrt(x);
#endif
    else {
        // scale into double range via long double sqrt then Newton
        F r = (F)std::sqrt((long double)x);
        if ((long double)r == 0 || !std::isfinite((long double)r)) {
            // out of long double range cannot happen (same exponent range)
            return r;
        }
        r = (r + x / r) / 2;
        r = (r + x / r) / 2;
        return r;
    }
}
inline bool fnan(F x) { return x != x; }
inline bool ffinite(F x) { return (x - x) == 0; }
inline long double ld(F x) { return (long double)x; }

// reference complex scalar
struct Z {
    F re, im;
    Z(F r = 0, F i = 0) : re(r), im(i) {}
};
inline Z operator+(Z a, Z b) { return {a.re + b.re, a.im + b.im}; }
inline Z operator-(Z a, Z b) { return {a.re - b.re, a.im - b.im}; }
inline Z operator-(Z a) { return {-a.re, -a.im}; }
inline Z operator*(Z a, Z b)
{
    return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re};
}
inline Z operator/(Z a, Z b)
{
    // Smith
    if (fabs_(b.re) >= fabs_(b.im)) {
        F r = b.im / b.re, d = b.re + b.im * r;
        return {(a.re + a.im * r) / d, (a.im - a.re * r) / d};
    }
    F r = b.re / b.im, d = b.re * r + b.im;
    return {(a.re * r + a.im) / d, (a.im * r - a.re) / d};
}
inline Z& operator+=(Z& a, Z b) { a = a + b; return a; }
inline Z& operator-=(Z& a, Z b) { a = a - b; return a; }
inline Z conj(Z a) { return {a.re, -a.im}; }
inline F abs2(Z a) { return a.re * a.re + a.im * a.im; }
inline F abs(Z a)
{
    F x = fabs_(a.re), y = fabs_(a.im);
    if (x != x || y != y) return x + y;
    F m = x > y ? x : y, s = x > y ? y : x;
    if (m == 0 || !ffinite(m)) return m;
    s /= m;
    return m * vsqrt(1 + s * s);
}
inline F absm(Z a) { return std::max(fabs_(a.re), fabs_(a.im)); }
inline bool zfin(Z a) { return ffinite(a.re) && ffinite(a.im); }
template <class S>
inline Z toZ(const S& x)
{
    if constexpr (tlapack::is_complex<S>) return Z((F)x.real(), (F)x.imag());
    else return Z((F)x, 0);
}
template <class S> inline R re(const S& x) { if constexpr (tlapack::is_complex<S>) return x.real(); else return x; }
template <class S> inline R im(const S& x) { if constexpr (tlapack::is_complex<S>) return x.imag(); else return R(0); }
inline F eps()  // not numeric_limits::epsilon, which is wrong for Eigen::half in Eigen 3.4
{
    static const F e = [] { F x = 1; for (int i = 1; i < std::numeric_limits<R>::digits; ++i) x /= 2; return x; }();
    return e;
}
inline F sepF(double x) { return std::max(F(x), 64 * eps()); }  // separation that rounding cannot close
// exponent range of the generated data; the reference type of __float128 has no wider exponent range, so some room is left there
#if VK_TI == 8 || VK_TI == 9
constexpr int EMIN = std::numeric_limits<R>::min_exponent + 480, EMAX = std::numeric_limits<R>::max_exponent - 480;
#else
constexpr int EMIN = std::numeric_limits<R>::min_exponent, EMAX = std::numeric_limits<R>::max_exponent;
#endif
inline F rmin() { return (F)std::numeric_limits<R>::min(); }
inline F rmax() { return (F)std::numeric_limits<R>::max(); }

// ----------------------------------------------------------------- rng
inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hstr(const char* s, uint64_t h = 1469598103934665603ull)
{
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t u64()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // inclusive
    int range(int a, int b)
    {
        return b <= a ? a : a + (int)(u64() % (uint64_t)(b - a + 1));
    }
    bool coin(double p = 0.5) { return u01() < p; }
    double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2 * u01() - 1; }
    double normal()
    {
        double u = u01() + 1e-18, v = u01();
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class X> X pick(std::initializer_list<X> l)
    {
        return l.begin()[u64() % l.size()];
    }
    template <class X> X pick(const std::vector<X>& l)
    {
        return l[u64() % l.size()];
    }
};

// ----------------------------------------------------------------- globals
struct Status {  // mmapped; read by the driver
    char fam[64];
    char desc[1400];
    volatile int64_t idx;
    volatile int64_t counter;
    volatile int64_t hang;
};
inline VK_TLS Status* g_st = nullptr;
inline FILE* g_out = nullptr;
inline uint64_t g_seed = 1;
inline bool g_thorough = false;
inline VK_TLS bool g_benign = false;   // canaries replaced by zeros (diagnosis re-run)
inline bool g_replay = false;
inline bool g_poison = false;   // put a NaN/Inf/huge value into an operand of the first library call and stop judging values
inline VK_TLS int64_t g_events = 0;    // monitored element / predicate observations
inline VK_TLS int64_t g_checks = 0;
inline VK_TLS std::map<std::string, std::pair<int64_t, double>> g_ratio;
inline VK_TLS std::map<std::string, int64_t> g_cnt;
inline std::unordered_set<uint64_t> g_sigs;

struct Violation {
    std::string kind, key, msg;
};
struct Stop {};  // thrown to abandon a case
#ifdef VK_MT
// Operands that several threads share: the n-th operand a case declares read-only is one buffer for the whole group.
struct Share {
    std::mutex mu;
    std::vector<std::shared_ptr<std::vector<unsigned char>>> bufs;
    long shared = 0;
};
inline bool g_ro = false;   // read-only operands live on write-protected pages
inline std::atomic<const char*> g_roname{""};
struct RoRange {
    unsigned char *lo, *hi;
};
inline RoRange g_ror[64];   // phase with write protection is single threaded
inline int g_nror = 0;
#endif

class MatBase;
class Case {
   public:
    Rng rng;
    std::string fam;
    int64_t idx;
    std::string descr;
    std::vector<Violation> vio;
    std::vector<MatBase*> mats;
    uint64_t sigh = 0;
    bool nontrivial = false;
    int poisonAt = -1;       // number of view() calls to let pass
    bool poisoned = false;
    Case(const std::string& f, int64_t i) : fam(f), idx(i)
    {
        rng = Rng(mix64(g_seed * 0x9E3779B97F4A7C15ull ^ hstr(f.c_str())) +
                  (uint64_t)i * 0xD1342543DE82EF95ull);
        if (g_poison) {
            prng = Rng(mix64(rng.s + 0x5bd1e995u));
            poisonAt = prng.range(0, 2);
        }
    }
    Rng prng;
    uint64_t dig = 1469598103934665603ull;   // digest of everything observed
    void fold(const void* q, size_t k)
    {
#ifdef VK_MT
        for (size_t i = 0; i < k; ++i) dig = (dig ^ ((const unsigned char*)q)[i]) * 1099511628211ull;
#else
        (void)q, (void)k;
#endif
    }
    void fold(double v) { fold(&v, sizeof v); }
#ifdef VK_MT
    Share* share = nullptr;
    size_t nshare = 0;
#endif
    // in poison mode nothing is compared any more: the case ends at the first attempt to judge a value
    void judge()
    {
        ++g_checks;
        if (poisoned) {
            ++g_cnt["poisoned_calls"];
            throw Stop();
        }
    }
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[1200];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        descr += b;
        if (g_st) {
            strncpy(g_st->desc, descr.c_str(), sizeof g_st->desc - 1);
        }
        sigh = hstr(b, sigh ? sigh : 1469598103934665603ull);
        if (g_replay) fprintf(stderr, "case: %s\n", b);
    }
    void nt() { nontrivial = true; }
    void fail(const char* kind, const std::string& key, const char* fmt, ...)
        __attribute__((format(printf, 4, 5)))
    {
        char b[1000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (vio.size() < 8) vio.push_back({kind, key, b});
        fold(b, strlen(b));
        if (g_replay) fprintf(stderr, "FAIL %s %s: %s\n", kind, key.c_str(), b);
    }
    // value must be <= thr * scale * eps
    bool small(const char* key, F value, F scale, double thr)
    {
        judge();
        F den = scale * eps();
        double ratio;
        if (value == 0) ratio = 0;
        else if (!(den > 0)) ratio = (value == value) ? 1e300 : NAN;
        else ratio = (double)(ld(value) / ld(den));
        fold(ratio);
        auto& r = g_ratio[key];
        r.first++;
        double rel = ratio == 0 ? 0 : ratio / thr;
        if (!(rel <= r.second)) r.second = rel;
        if (!(ratio <= thr)) {
            fail(ratio != ratio ? "NAN" : "VALUE", key,
                 "value %.3Le scale %.3Le ratio %.3e (limit %.3g)", ld(value),
                 ld(scale), ratio, thr);
            return false;
        }
        return true;
    }
    // absolute variant: value <= bound
    bool bound(const char* key, F value, F bnd)
    {
        judge();
        fold((double)value);
        auto& r = g_ratio[key];
        r.first++;
        double rel = value == 0 ? 0.0 : (double)(ld(value) / ld(bnd));
        if (!(rel <= r.second)) r.second = rel;
        if (!(value <= bnd)) {
            fail(value != value ? "NAN" : "VALUE", key,
                 "value %.6Le exceeds bound %.6Le", ld(value), ld(bnd));
            return false;
        }
        return true;
    }
    bool ok(const char* key, bool cond, const char* fmt = "", ...)
        __attribute__((format(printf, 4, 5)))
    {
        judge();
        fold(&cond, sizeof cond);
        if (!cond) {
            char b[1000];
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(b, sizeof b, fmt, ap);
            va_end(ap);
            fail("VALUE", key, "%s", b);
        }
        return cond;
    }
    void count(const char* k, int64_t n = 1) { g_cnt[k] += n; }
    void finish();
};

// ----------------------------------------------------------------- canaries
template <class S>
inline void canary_fill(S* p, idx_t k, uint64_t salt)
{
    // every byte pattern is a quiet NaN with an index-dependent payload
    if constexpr (tlapack::is_complex<S>) {
        using RR = typename S::value_type;
        canary_fill(reinterpret_cast<RR*>(p), 2 * k, salt);
        canary_fill(reinterpret_cast<RR*>(p) + 1, 2 * k + 1, salt);
    }
    else {
        unsigned char b[sizeof(S)];
        memset(b, 0, sizeof b);
        uint64_t h = mix64(k * 2654435761u + salt);
        if (g_benign) {
            S z = S(0);
            memcpy(b, &z, sizeof z);
            memcpy((void*)p, b, sizeof b);
            return;
        }
        if constexpr (std::is_same_v<S, float>) {
            uint32_t w = 0x7fc00000u | (uint32_t)(h & 0x3fffff);
            memcpy(b, &w, 4);
        }
        else if constexpr (std::is_same_v<S, double>) {
            uint64_t w = 0x7ff8000000000000ull | (h & 0x7ffffffffffffull);
            memcpy(b, &w, 8);
        }
        else if constexpr (std::is_same_v<S, long double>) {
            uint64_t w = 0xc000000000000000ull | (h & 0x3fffffffffffffffull);
            uint16_t e = 0x7fff;
            memcpy(b, &w, 8);
            memcpy(b + 8, &e, 2);
        }
        else if constexpr (std::is_integral_v<S> || std::is_enum_v<S>) {
            memset(b, 0x5a, sizeof b);
            memcpy(b, &h, std::min<size_t>(sizeof b, 8));
        }
        else if constexpr (sizeof(S) == 2) {  // half, bfloat16
#if VK_TI == 12 || VK_TI == 13
            uint16_t w = 0x7fc0u | (uint16_t)(h & 0x3f);
#else
            uint16_t w = 0x7e00u | (uint16_t)(h & 0x1ff);
#endif
            memcpy(b, &w, 2);
        }
        else if constexpr (sizeof(S) == 16 && std::is_same_v<S, R>) {  // __float128 and the 90-bit type that holds one
            uint16_t e = 0x7fff, m = 0x8000;
            memcpy(b, &h, 8);
            memcpy(b + 12, &m, 2);
            memcpy(b + 14, &e, 2);
        }
        else {
            memset(b, 0x5a, sizeof b);
            memcpy(b, &h, std::min<size_t>(sizeof b, 8));
        }
        memcpy((void*)p, b, sizeof b);
    }
}
template <class S>
constexpr size_t sigbytes()
{
    return std::is_same_v<S, long double> ? 10 : sizeof(S);
}
template <class S>
inline bool same_bits(const S* a, const S* b)
{
    if constexpr (tlapack::is_complex<S>) {
        using RR = typename S::value_type;
        auto x = reinterpret_cast<const RR*>(a);
        auto y = reinterpret_cast<const RR*>(b);
        return same_bits(x, y) && same_bits(x + 1, y + 1);
    }
    else
        return memcmp((const void*)a, (const void*)b, sigbytes<S>()) == 0;
}

enum class Lay { Col = 0, Row = 1, Str = 2, ECol = 3, ERow = 4 };

class MatBase {
   public:
    virtual ~MatBase() {}
    virtual void verify(Case& c) = 0;
    virtual std::pair<const void*, size_t> raw() const { return {nullptr, 0}; }
    virtual const char* label() const { return "?"; }
    virtual void live(std::vector<unsigned char>&) const {}  // bytes of the elements that belong to the operand
};
inline void Case::finish()
{
    for (auto* m : mats) m->verify(*this);
}

// raw exact-size buffer: every gap element carries a canary
template <class S>
class Buf : public MatBase {
   public:
    std::string name;
    S* p = nullptr;
    idx_t len = 0;
    std::vector<uint8_t> st;   // 0 gap (protected), 1 logical, 2 masked
    std::vector<S> snap;       // for const operands
    bool isconst = false;
    uint64_t salt = 0;
    Case* cc = nullptr;

    void alloc(Case& c, const char* nm, idx_t n)
    {
        cc = &c;
        name = nm;
        len = n;
        salt = hstr(nm);
        getmem(n * sizeof(S));
        st.assign(n, 0);
        for (idx_t k = 0; k < n; ++k) canary_fill(p + k, k, salt);
        c.mats.push_back(this);
    }
    void* base = nullptr;
#ifdef VK_MT
    size_t mapped = 0;
    std::shared_ptr<std::vector<unsigned char>> sh;
    void getmem(size_t bytes)
    {
        if (g_ro) {
            // ends at a page boundary
            mapped = (bytes / 4096 + 1) * 4096;
            base = mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (base == MAP_FAILED) { fprintf(stderr, "vk: mmap failed\n"); _exit(3); }
            p = (S*)((unsigned char*)base + mapped - (bytes + 15) / 16 * 16);
        }
        else
            p = (S*)(base = malloc(bytes));
    }
    void dropmem()
    {
        if (mapped) {
            protect(PROT_READ | PROT_WRITE);
            munmap(base, mapped);
        }
        else
            free(base);
    }
    void protect(int mode)
    {
        if (!mapped) return;
        mprotect(base, mapped, mode);
        unsigned char* b = (unsigned char*)base;
        int k = 0;
        while (k < g_nror && g_ror[k].lo != b) ++k;
        if (mode == PROT_READ) {
            if (k == g_nror && g_nror < 64) g_ror[g_nror++] = {b, b + mapped};
            ++g_cnt["write_protected_operands"];
        }
        else if (k < g_nror)
            g_ror[k] = g_ror[--g_nror];
    }
    // hand the buffer over to the group, or take over the one of the thread that came first
    void shareit()
    {
        if (!cc->share || !len) return;
        Share& s = *cc->share;
        std::lock_guard<std::mutex> lk(s.mu);
        size_t k = cc->nshare++;
        auto bytes = std::vector<unsigned char>((unsigned char*)p, (unsigned char*)(p + len));
        if (k == s.bufs.size()) s.bufs.push_back(std::make_shared<std::vector<unsigned char>>(bytes));
        if (k < s.bufs.size() && *s.bufs[k] == bytes) {
            sh = s.bufs[k];
            p = (S*)sh->data();
            ++s.shared;
        }
    }
#else
    void getmem(size_t bytes) { p = (S*)(base = malloc(bytes)); }
    void dropmem() { free(base); }
#endif
    std::pair<const void*, size_t> raw() const override { return {p, len * sizeof(S)}; }
    const char* label() const override { return name.c_str(); }
    void live(std::vector<unsigned char>& o) const override
    {
        for (idx_t k = 0; k < len; ++k)
            if (st[k] == 1) o.insert(o.end(), (const unsigned char*)(p + k), (const unsigned char*)(p + k) + sizeof(S));
    }
    Buf() {}
    Buf(const Buf&) = delete;
    Buf& operator=(const Buf&) = delete;
    ~Buf()
    {
        if (cc) {
            auto& v = cc->mats;
            verify(*cc);
            v.erase(std::remove(v.begin(), v.end(), (MatBase*)this), v.end());
#ifdef VK_MT
            std::vector<unsigned char> o;
            live(o);
            cc->fold(o.data(), o.size());
#endif
        }
        dropmem();
    }
    // poison mode: called whenever a view is handed out
    void poison()
    {
        Case& c = *cc;
        if (!g_poison || std::is_integral_v<S> || c.poisoned || c.poisonAt-- > 0) return;
        auto& g = c.prng;
        int k = g.range(1, 3);
        for (int t = 0; t < 40 && k > 0; ++t) {
            if (!len) return;
            idx_t i = (idx_t)g.range(0, (int)len - 1);
            if (st[i] != 1) continue;
            using RR = tlapack::real_type<S>;
            RR x;
            switch (g.range(0, 4)) {
                case 0: x = std::numeric_limits<RR>::quiet_NaN(); break;
                case 1: x = std::numeric_limits<RR>::infinity(); break;
                case 2: x = -std::numeric_limits<RR>::infinity(); break;
                case 3: x = std::numeric_limits<RR>::max(); break;
                default: x = std::numeric_limits<RR>::denorm_min(); break;
            }
            if constexpr (tlapack::is_complex<S>) {
                S v = p[i];
                p[i] = g.coin(0.3) ? S(x, x) : g.coin() ? S(x, v.imag()) : S(v.real(), x);
            }
            else
                p[i] = x;
            if (isconst) memcpy((void*)&snap[i], (void*)(p + i), sizeof(S));
            c.poisoned = true;
            --k;
        }
    }
    // declare the operand read-only from now on
    void freeze()
    {
        isconst = true;
        snap.assign(len, S());
        if (len) memcpy((void*)snap.data(), (void*)p, len * sizeof(S));
#ifdef VK_MT
        shareit();
        protect(PROT_READ);
#endif
    }
    void thaw()
    {
        isconst = false;
#ifdef VK_MT
        protect(PROT_READ | PROT_WRITE);
        if (sh) {
            p = (S*)base, memcpy((void*)p, sh->data(), len * sizeof(S));
            sh.reset();
        }
#endif
    }
    void verify(Case& c) override
    {
        S t{};
        g_events += len;
        for (idx_t k = 0; k < len; ++k) {
            if (isconst) {
                if (!same_bits(p + k, &snap[k])) {
                    c.fail(st[k] == 1 ? "CONST" : "FOOT",
                           (st[k] == 1 ? "const:" : "foot:") + name,
                           "read-only operand %s modified at buffer offset %zu "
                           "(of %zu)", name.c_str(), k, len);
                    return;
                }
            }
            else if (st[k] != 1) {
                canary_fill(&t, k, salt);
                if (!same_bits(p + k, &t)) {
                    c.fail("FOOT", "foot:" + name,
                           "%s of %s overwritten at buffer offset %zu (of %zu)",
                           st[k] == 0 ? "padding" : "unreferenced part",
                           name.c_str(), k, len);
                    return;
                }
            }
        }
    }
};

inline const char* layname(Lay l)
{
    return l == Lay::Col ? "col" : l == Lay::Row ? "row" : l == Lay::Str ? "str" : l == Lay::ECol ? "eigcol" : "eigrow";
}
constexpr Lay DefLay = (Lay)VK_LI;
// layouts of the second and third operand: those of the first, or (VK_MIX) different ones
#ifndef VK_MIX
constexpr Lay LayB = DefLay, LayC = DefLay;
#elif VK_LI < 2
constexpr Lay LayB = VK_MIX & 1 ? (VK_LI ? Lay::Col : Lay::Row) : DefLay, LayC = VK_MIX & 2 ? (VK_LI ? Lay::Col : Lay::Row) : DefLay;
#elif VK_LI == 2
constexpr Lay LayB = VK_MIX & 1 ? Lay::Col : Lay::Str, LayC = VK_MIX & 2 ? Lay::Row : Lay::Str;
#else
constexpr Lay LayB = VK_MIX & 1 ? (VK_LI == 3 ? Lay::ERow : Lay::ECol) : DefLay, LayC = VK_MIX & 2 ? (VK_LI == 3 ? Lay::ERow : Lay::ECol) : DefLay;
#endif

// reference dense matrix
struct M {
    int m = 0, n = 0;
    std::vector<Z> a;
    M() {}
    M(int m, int n) : m(m), n(n), a((size_t)m * n) {}
    Z& operator()(int i, int j) { return a[i + (size_t)j * m]; }
    const Z& operator()(int i, int j) const { return a[i + (size_t)j * m]; }
    static M eye(int m, int n)
    {
        M e(m, n);
        for (int i = 0; i < std::min(m, n); ++i) e(i, i) = Z(1);
        return e;
    }
};
inline M mul(const M& A, const M& B)
{
    M C(A.m, B.n);
    if (A.n != B.m) { fprintf(stderr, "harness: bad mul shapes %dx%d * %dx%d\n", A.m, A.n, B.m, B.n); _exit(3); }
    for (int j = 0; j < B.n; ++j)
        for (int l = 0; l < A.n; ++l) {
            Z b = B(l, j);
            if (b.re == 0 && b.im == 0) continue;
            Z* c = C.a.data() + (size_t)j * A.m;
            const Z* x = A.a.data() + (size_t)l * A.m;
            if (!IsC)
                for (int i = 0; i < A.m; ++i) c[i].re += x[i].re * b.re;
            else
                for (int i = 0; i < A.m; ++i) c[i] += x[i] * b;
        }
    return C;
}
// complex-capable product even when T is real
inline M cmul(const M& A, const M& B)
{
    M C(A.m, B.n);
    for (int j = 0; j < B.n; ++j)
        for (int l = 0; l < A.n; ++l)
            for (int i = 0; i < A.m; ++i) C(i, j) += A(i, l) * B(l, j);
    return C;
}
inline M ctr(const M& A)
{
    M B(A.n, A.m);
    for (int j = 0; j < A.n; ++j)
        for (int i = 0; i < A.m; ++i) B(j, i) = conj(A(i, j));
    return B;
}
inline M tr(const M& A)
{
    M B(A.n, A.m);
    for (int j = 0; j < A.n; ++j)
        for (int i = 0; i < A.m; ++i) B(j, i) = A(i, j);
    return B;
}
inline M cj(const M& A)
{
    M B = A;
    for (auto& x : B.a) x = conj(x);
    return B;
}
inline M operator-(const M& A, const M& B)
{
    if (A.m != B.m || A.n != B.n) { fprintf(stderr, "harness: bad sub shapes\n"); _exit(3); }
    M C = A;
    for (size_t k = 0; k < C.a.size(); ++k) C.a[k] -= B.a[k];
    return C;
}
inline M operator+(const M& A, const M& B)
{
    M C = A;
    for (size_t k = 0; k < C.a.size(); ++k) C.a[k] += B.a[k];
    return C;
}
inline M scale(Z s, const M& A)
{
    M C = A;
    for (auto& x : C.a) x = s * x;
    return C;
}
inline M sub(const M& A, int i0, int i1, int j0, int j1)
{
    M B(std::max(0, i1 - i0), std::max(0, j1 - j0));
    for (int j = 0; j < B.n; ++j)
        for (int i = 0; i < B.m; ++i) B(i, j) = A(i0 + i, j0 + j);
    return B;
}
inline void put(M& A, int i0, int j0, const M& B)
{
    for (int j = 0; j < B.n; ++j)
        for (int i = 0; i < B.m; ++i) A(i0 + i, j0 + j) = B(i, j);
}
inline F nmax(const M& A)
{
    F r = 0;
    for (auto& x : A.a) {
        F v = absm(x);
        if (v != v) return v;
        if (v > r) r = v;
    }
    return r;
}
// scaled Frobenius
inline F nrm(const M& A)
{
    F s = nmax(A);
    if (s == 0 || !ffinite(s)) return s;
    F t = 0;
    for (auto& x : A.a) {
        Z y(x.re / s, x.im / s);
        t += abs2(y);
    }
    return s * vsqrt(t);
}
inline F nrm1(const M& A)
{
    F r = 0;
    for (int j = 0; j < A.n; ++j) {
        F s = 0;
        for (int i = 0; i < A.m; ++i) s += abs(A(i, j));
        if (!(s <= r)) r = s;
    }
    return r;
}
inline F orth(const M& Q)  // || Q^H Q - I ||
{
    return nrm(mul(ctr(Q), Q) - M::eye(Q.n, Q.n));
}
inline M absM(const M& A)
{
    M B = A;
    for (auto& x : B.a) x = Z(abs(x));
    return B;
}

#if VK_LI == 3 || VK_LI == 4
template <class S, Lay LL>
using EMap = Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, LL == Lay::ECol ? Eigen::ColMajor : Eigen::RowMajor>, Eigen::Unaligned, Eigen::OuterStride<>>;
template <class S>
using EVMap = Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>, Eigen::Unaligned, Eigen::InnerStride<>>;
#endif
// guarded matrix with logical m-by-n contents of scalar S
template <class S, Lay LL = DefLay>
class Mat : public Buf<S> {
   public:
    idx_t m, n;
    std::ptrdiff_t rs, cs;
    idx_t ldim = 0;
    static constexpr Lay lay = LL;
    Mat(Case& c, const char* nm, int m_, int n_, int pad = -1) : m(m_), n(n_)
    {
        if (pad < 0) pad = c.rng.coin(0.6) ? c.rng.range(1, 3) : 0;
        if (LL == Lay::Col || LL == Lay::ECol) {
            ldim = std::max<idx_t>(1, m + pad);
            rs = 1;
            cs = ldim;
        }
        else if (LL == Lay::Row || LL == Lay::ERow) {
            ldim = std::max<idx_t>(1, n + pad);
            rs = ldim;
            cs = 1;
        }
        else {
            int k = 1 + (pad > 1) + (pad > 2);  // inner stride 1..3
            if (c.rng.coin()) {
                rs = k;
                cs = (std::ptrdiff_t)std::max<idx_t>(1, m) * k + pad;
            }
            else {
                cs = k;
                rs = (std::ptrdiff_t)std::max<idx_t>(1, n) * k + pad;
            }
        }
        idx_t len =
            (m == 0 || n == 0) ? 0 : (m - 1) * rs + (n - 1) * cs + 1;
        this->alloc(c, nm, len);
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i) {
                this->st[off(i, j)] = 1;
            }
    }
    idx_t off(idx_t i, idx_t j) const { return i * rs + j * cs; }
    S& operator()(idx_t i, idx_t j) { return this->p[off(i, j)]; }
    const S& operator()(idx_t i, idx_t j) const { return this->p[off(i, j)]; }
    // mark element as "unreferenced": canary now, must stay
    void mask(idx_t i, idx_t j)
    {
        idx_t k = off(i, j);
        this->st[k] = 2;
        canary_fill(this->p + k, k, this->salt);
    }
    template <class Pred>
    void maskif(Pred f)
    {
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i)
                if (f((int)i, (int)j)) mask(i, j);
    }
    void unmask()
    {
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i) this->st[off(i, j)] = 1;
    }
    auto view()
    {
        this->poison();
        if constexpr (LL == Lay::Col)
            return tlapack::LegacyMatrix<S, idx_t, tlapack::Layout::ColMajor>(
                m, n, this->p, ldim);
        else if constexpr (LL == Lay::Row)
            return tlapack::LegacyMatrix<S, idx_t, tlapack::Layout::RowMajor>(
                m, n, this->p, ldim);
#if VK_LI == 3 || VK_LI == 4
        else if constexpr (LL == Lay::ECol || LL == Lay::ERow)
            return EMap<S, LL>(this->p, (Eigen::Index)m, (Eigen::Index)n, Eigen::OuterStride<>((Eigen::Index)ldim));
#endif
        else
            return tlapack::SMat<S>(m, n, this->p, rs, cs);
    }
    M ref() const
    {
        if (this->cc->poisoned) this->cc->judge();
        M A(m, n);
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i) A(i, j) = toZ((*this)(i, j));
        return A;
    }
    void set(const M& A)  // round to S
    {
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i) (*this)(i, j) = fromZ(A(i, j));
    }
    static S fromZ(Z z)
    {
        if constexpr (tlapack::is_complex<S>)
            return S((typename S::value_type)z.re,
                     (typename S::value_type)z.im);
        else
            return (S)z.re;
    }
    void fill(S v)
    {
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i) (*this)(i, j) = v;
    }
    void junk(Case& c)  // arbitrary initial contents for pure outputs
    {
        for (idx_t j = 0; j < n; ++j)
            for (idx_t i = 0; i < m; ++i)
                canary_fill(&(*this)(i, j), off(i, j), 77);
        (void)c;
    }
};

// guarded vector
template <class S, Lay LL = DefLay>
class Vec : public Buf<S> {
   public:
    idx_t n;
    idx_t inc;
    Vec(Case& c, const char* nm, int n_, int inc_ = -1) : n(n_)
    {
        inc = inc_ > 0 ? inc_ : (c.rng.coin(0.6) ? c.rng.range(2, 4) : 1);
        this->alloc(c, nm, n == 0 ? 0 : (n - 1) * inc + 1);
        for (idx_t i = 0; i < n; ++i) this->st[i * inc] = 1;
    }
    S& operator[](idx_t i) { return this->p[i * inc]; }
    const S& operator[](idx_t i) const { return this->p[i * inc]; }
    auto view()
    {
        this->poison();
        if constexpr (LL == Lay::Str)
            return tlapack::SVec<S>(n, this->p, inc);
#if VK_LI == 3 || VK_LI == 4
        else if constexpr (LL == Lay::ECol || LL == Lay::ERow)
            return EVMap<S>(this->p, (Eigen::Index)n, Eigen::InnerStride<>((Eigen::Index)inc));
#endif
        else
            return tlapack::LegacyVector<S, idx_t, idx_t>(n, this->p, inc);
    }
    // contiguous view type (only for inc == 1)
    auto cview()
    {
        this->poison();
#if VK_LI == 3 || VK_LI == 4
        return Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>>(this->p, (Eigen::Index)n);
#else
        return tlapack::LegacyVector<S, idx_t>(n, this->p);
#endif
    }
    M ref() const
    {
        if (this->cc->poisoned) this->cc->judge();
        M A(n, 1);
        for (idx_t i = 0; i < n; ++i) A(i, 0) = toZ((*this)[i]);
        return A;
    }
    void mask(idx_t i)
    {
        this->st[i * inc] = 2;
        canary_fill(this->p + i * inc, i * inc, this->salt);
    }
    void junk()
    {
        for (idx_t i = 0; i < n; ++i) canary_fill(&(*this)[i], i * inc, 77);
    }
    void set(const M& A)
    {
        for (idx_t i = 0; i < n; ++i) (*this)[i] = Mat<S>::fromZ(A.a[i]);
    }
};

// workspace of exactly the queried size, poisoned
template <class S>
class Work : public Buf<S> {
   public:
    idx_t m, n;
    template <class WI>
    Work(Case& c, const WI& wi, int poison = -1) : m(wi.m), n(wi.n)
    {
        this->alloc(c, "work", m * n);
        for (idx_t k = 0; k < m * n; ++k) this->st[k] = 1;
        if (poison < 0) poison = c.rng.range(0, 2);
        for (idx_t k = 0; k < m * n; ++k) {
            if (poison == 0) continue;  // NaN canary
            if (poison == 1) this->p[k] = S(0);
            else this->p[k] = S((R)(1e10 * c.rng.sym()));
        }
        g_cnt["workspaces"]++;
    }
    auto view()
    {
#if VK_LI == 3 || VK_LI == 4
        return EMap<S, Lay::ECol>(this->p, (Eigen::Index)m, (Eigen::Index)n, Eigen::OuterStride<>((Eigen::Index)std::max<idx_t>(m, 1)));
#else
        return tlapack::LegacyMatrix<S, idx_t, tlapack::Layout::ColMajor>(
            m, n, this->p, std::max<idx_t>(m, 1));
#endif
    }
};

// ----------------------------------------------------------------- scalars
inline R rr(Rng& g) { return (R)g.sym(); }
template <class S>
inline S rnd(Rng& g)
{
    if constexpr (tlapack::is_complex<S>) {
        auto a = (typename S::value_type)g.sym();
        auto b = (typename S::value_type)g.sym();
        return S(a, b);
    }
    else
        return (S)g.sym();
}
// full-precision random for types wider than double
template <class S>
inline S rndfull(Rng& g)
{
    if constexpr (tlapack::is_complex<S>) {
        auto a = rndfull<typename S::value_type>(g);
        auto b = rndfull<typename S::value_type>(g);
        return S(a, b);
    }
    else
        return (S)((S)g.sym() + (S)g.sym() * (S)0x1p-53);
}
template <class S>
inline S smallint(Rng& g, int k = 4)
{
    if constexpr (tlapack::is_complex<S>)
        return S(g.range(-k, k), g.range(-k, k));
    else
        return (S)g.range(-k, k);
}
// scalar multipliers: the special values plus random
template <class S>
inline S coef(Rng& g, bool ints = false)
{
    switch (g.range(0, 5)) {
        case 0: return S(0);
        case 1: return S(1);
        case 2: return S(-1);
        default: return ints ? smallint<S>(g, 3) : rndfull<S>(g) * S(2);
    }
}
inline const char* bts(bool b) { return b ? "T" : "F"; }

// ----------------------------------------------------------------- data
enum Data { dRandom, dInt, dZero, dIdent, dSparse, dGradedR, dGradedC, dGradedRC,
            dRankDef, dOnes, dBig, dTiny, dDiag, dNormal, dDupCols, dData_N };
inline const char* dname(int d)
{
    static const char* n[] = {"random", "int", "zero", "ident", "sparse",
        "gradedR", "gradedC", "gradedRC", "rankdef", "ones", "big", "tiny",
        "diag", "normal", "dupcols"};
    return n[d];
}
// exponent scale that keeps m*n*x*x well inside the range
inline R bigS() { return (R)std::ldexp((long double)1, std::numeric_limits<R>::max_exponent / 4); }
inline R tinyS() { return (R)std::ldexp((long double)1, std::numeric_limits<R>::min_exponent / 4); }
template <class S>
inline M gen(Rng& g, int m, int n, int kind)
{
    M A(m, n);
    auto rz = [&]() { return toZ(rndfull<S>(g)); };
    switch (kind) {
        case dInt:
            for (auto& x : A.a) x = toZ(smallint<S>(g));
            break;
        case dZero: break;
        case dIdent: A = M::eye(m, n); break;
        case dSparse:
            for (auto& x : A.a) x = g.coin(0.3) ? rz() : Z(0);
            break;
        case dGradedR:
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i)
                    A(i, j) = rz() * Z((F)std::pow(10.0, -(6.0 * i) / std::max(1, m)));
            break;
        case dGradedC:
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i)
                    A(i, j) = rz() * Z((F)std::pow(10.0, -(6.0 * j) / std::max(1, n)));
            break;
        case dGradedRC:
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i)
                    A(i, j) = rz() * Z((F)std::pow(10.0, -(5.0 * (i + j)) / std::max(1, m + n)));
            break;
        case dRankDef: {
            int r = std::max(0, std::min(m, n) / 2);
            M X(m, r), Y(r, n);
            for (auto& x : X.a) x = rz();
            for (auto& x : Y.a) x = rz();
            for (int j = 0; j < n; ++j)
                for (int l = 0; l < r; ++l)
                    for (int i = 0; i < m; ++i) A(i, j) += X(i, l) * Y(l, j);
            break;
        }
        case dOnes:
            for (auto& x : A.a) x = Z(1);
            break;
        case dBig:
            for (auto& x : A.a) x = rz() * Z((F)bigS());
            break;
        case dTiny:
            for (auto& x : A.a) x = rz() * Z((F)tinyS());
            break;
        case dDiag:
            for (int i = 0; i < std::min(m, n); ++i) A(i, i) = rz();
            break;
        case dNormal:
            for (auto& x : A.a) {
                x.re = (F)g.normal();
                if (tlapack::is_complex<S>) x.im = (F)g.normal();
            }
            break;
        case dDupCols:
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i)
                    A(i, j) = (j > 0 && g.coin(0.0)) ? A(i, j) : rz();
            for (int j = 1; j < n; ++j)
                if (g.coin(0.4))
                    for (int i = 0; i < m; ++i) A(i, j) = A(i, j - 1);
            break;
        default:
            for (auto& x : A.a) x = rz();
    }
    return A;
}
template <class MT>
inline void load(MT& A, const M& X) { A.set(X); }

// ----------------------------------------------------------------- families
using FamFn = void (*)(Case&);
struct Fam {
    const char* name;
    FamFn fn;
    int64_t nq, nt;
};
inline std::vector<Fam>& fams()
{
    static std::vector<Fam> f;
    return f;
}
struct Reg {
    Reg(const char* n, FamFn f, int64_t q, int64_t t) { fams().push_back({n, f, q, t}); }
};
// the body is a template over the scalar type T so that if constexpr discards
#define FAMILY(name, q, t)                                            \
    template <class T> static void fam_##name(vk::Case& c);           \
    static vk::Reg reg_##name(#name, fam_##name<vk::T>, q, t);        \
    template <class T> static void fam_##name(vk::Case& c)

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if ((unsigned char)ch < 32) r += ' ';
        else r += ch;
    }
    return r;
}
inline double g_cpu_limit = 40;
inline void arm(double secs)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)secs;
    it.it_value.tv_usec = (long)((secs - (long)secs) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline void on_prof(int)
{
    if (g_st) g_st->hang = 1;
    static const char m[] = "vk: CPU limit for one case exceeded\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
inline void run_case(const Fam& f, int64_t i, Case& c)
{
    try {
        f.fn(c);
    }
    catch (Stop&) {
    }
    catch (std::exception& e) {
        c.fail("EXC", "exc:" + c.fam, "unexpected exception: %s", e.what());
    }
    catch (...) {
        c.fail("EXC", "exc:" + c.fam, "unexpected unknown exception");
    }
    (void)i;
}
#ifdef VK_MT
inline void on_segv(int, siginfo_t* si, void*)
{
    unsigned char* a = (unsigned char*)si->si_addr;
    bool ro = false;
    for (int k = 0; k < g_nror; ++k) ro |= a >= g_ror[k].lo && a < g_ror[k].hi;
    static const char m[] = "vk: write to a read-only operand\n", e[] = "vk: segmentation fault\n";
    if (ro ? write(2, m, sizeof m - 1) : write(2, e, sizeof e - 1)) {}
    _exit(ro ? 96 : 95);
}
struct Job {
    const Fam* f;
    int64_t i;
    uint64_t dig;
};
struct Mismatch {
    const Fam* f;
    int64_t i;
    const char* phase;
    std::string desc;
};
// every case alone (read-only operands write-protected), then all cases twice from 8 threads in random order, then groups of 4 threads running the same
// case at the same time on shared read-only operands: the digests of everything observed must not differ
inline int mt_run(std::vector<Job>& jobs, std::map<std::string, int64_t>& famcnt, std::vector<std::string>& samples, int64_t& evals, int64_t& nontriv, std::vector<Mismatch>& bad)
{
    g_ro = true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    std::map<const Fam*, int> seen;
    for (auto& j : jobs) {
        strncpy(g_st->fam, j.f->name, sizeof g_st->fam - 1);
        g_st->idx = j.i;
        g_st->desc[0] = 0;
        arm(g_cpu_limit * 8);
        g_nror = 0;
        Case c(j.f->name, j.i);
        run_case(*j.f, j.i, c);
        j.dig = c.dig;
        ++evals;
        famcnt[j.f->name]++;
        if (c.nontrivial && g_sigs.insert(mix64(c.sigh ^ hstr(j.f->name))).second) ++nontriv;
        if (seen[j.f]++ < 2 && samples.size() < 12) samples.push_back(std::string(j.f->name) + "[" + std::to_string(j.i) + "]: " + c.descr);
    }
    arm(0);
    g_ro = false;
    strcpy(g_st->fam, "threads");
    strcpy(g_st->desc, "8 threads run the cases of this module");
    g_st->idx = 0;
    const int NT = 8;
    std::mutex mu;
    // disjoint operands
    std::vector<uint32_t> order;
    for (size_t k = 0; k < 2 * jobs.size(); ++k) order.push_back((uint32_t)(k % jobs.size()));
    Rng g(mix64(g_seed + 4711));
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[g.range(0, (int)k - 1)]);
    std::atomic<size_t> next{0};
    std::atomic<long> ev{0}, ck{0};
    auto once = [&](const Job& j, Share* sh, const char* ph) {
        Case c(j.f->name, j.i);
        c.share = sh;
        run_case(*j.f, j.i, c);
        if (c.dig != j.dig) {
            std::lock_guard<std::mutex> lk(mu);
            bad.push_back({j.f, j.i, ph, c.descr});
        }
    };
    auto body = [&](auto fn) {
        std::vector<std::thread> th;
        for (int t = 0; t < NT; ++t)
            th.emplace_back([&, t] {
                Status mine;
                memset((void*)&mine, 0, sizeof mine);
                g_st = &mine;
                fn(t);
                ev += g_events, ck += g_checks;
            });
        for (auto& t : th) t.join();
    };
    body([&](int) {
        for (;;) {
            // relaxed: the work queue must not order the accesses of one case before those of another
            size_t k = next.fetch_add(1, std::memory_order_relaxed);
            if (k >= order.size()) break;
            once(jobs[order[k]], nullptr, "run concurrently with other cases");
        }
    });
    g_cnt["concurrent_runs"] += (long)order.size();
    // shared read-only operands: groups of 4
    strcpy(g_st->desc, "groups of 4 threads run one case on shared read-only operands");
    std::vector<Share> shares(jobs.size());
    body([&](int t) {
        int grp = t / 4;
        for (size_t k = grp; k < jobs.size(); k += 2) once(jobs[k], &shares[k], "run concurrently with itself on shared read-only operands");
    });
    long nsh = 0;
    for (auto& s : shares) nsh += s.shared;
    g_cnt["runs_with_shared_inputs"] += 4 * (long)jobs.size();
    g_cnt["shared_operand_uses"] += nsh;
    g_events += ev, g_checks += ck;
    return 0;
}
#endif
inline int vk_main(int argc, char** argv)
{
    std::string out, fam, stf;
    int64_t only = -1, from = 0;
    std::string fromfam;
    int shard = 0, nsh = 1;
    double mult = 1;
    int maxvio = 12;
    std::string famre;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = nx();
        else if (a == "--status") stf = nx();
        else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--fam") fam = nx();
        else if (a == "--famprefix") famre = nx();
        else if (a == "--case") only = atoll(nx().c_str());
        else if (a == "--fromfam") fromfam = nx();
        else if (a == "--from") from = atoll(nx().c_str());
        else if (a == "--shard") shard = atoi(nx().c_str());
        else if (a == "--nshards") nsh = atoi(nx().c_str());
        else if (a == "--mult") mult = atof(nx().c_str());
        else if (a == "--cpu") g_cpu_limit = atof(nx().c_str());
        else if (a == "--replay") g_replay = true;
        else if (a == "--list") {
            for (auto& f : fams()) printf("%s %ld %ld\n", f.name, (long)f.nq, (long)f.nt);
            return 0;
        }
        else { fprintf(stderr, "vk: bad arg %s\n", a.c_str()); return 2; }
    }
    g_out = out.empty() ? stdout : fopen(out.c_str(), "a");
    if (!g_out) return 2;
    static Status dummy;
    g_st = &dummy;
    if (!stf.empty()) {
        int fd = open(stf.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status))) return 2;
        void* q = mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (q == MAP_FAILED) return 2;
        g_st = (Status*)q;
        memset((void*)g_st, 0, sizeof(Status));
    }
    signal(SIGPROF, on_prof);
    g_poison = getenv("VK_POISON") != nullptr;
    int64_t evals = 0, nontriv = 0;
    int printed = 0;
    std::map<std::string, int> perkey;
    std::vector<std::string> samples;
    std::map<std::string, int64_t> famcnt;
    bool skipping = !fromfam.empty();
#ifdef VK_MT
    std::vector<Job> jobs;
    if (fam == "threads") fam = "", only = -1;
#endif
    for (auto& f : fams()) {
        int64_t start = 0;
        if (skipping) {
            if (fromfam != f.name) continue;
            skipping = false;
            start = from;
        }
        if (!fam.empty() && fam != f.name) continue;
        if (!famre.empty() && strncmp(f.name, famre.c_str(), famre.size())) continue;
        int64_t cnt = g_thorough ? f.nt : f.nq;
        cnt = (int64_t)std::max(1.0, cnt * mult);
        for (int64_t i = start; i < cnt; ++i) {
            if (only >= 0) { i = only; }
            else if (nsh > 1 && (int)(i % nsh) != shard) continue;
#ifdef VK_MT
            jobs.push_back({&f, i, 0});
            if (only >= 0) break;
            continue;
#endif
            strncpy(g_st->fam, f.name, sizeof g_st->fam - 1);
            g_st->idx = i;
            g_st->desc[0] = 0;
            g_st->counter = g_st->counter + 1;
            arm(g_cpu_limit);
            Case c(f.name, i);
            run_case(f, i, c);
            if (!c.vio.empty() && !g_replay) {
                // does unreferenced memory matter?
                bool nanv = false;
                for (auto& v : c.vio) nanv |= v.kind == "NAN";
                if (nanv) {
                    g_benign = true;
                    Case c2(f.name, i);
                    run_case(f, i, c2);
                    g_benign = false;
                    if (c2.vio.empty())
                        for (auto& v : c.vio)
                            if (v.kind == "NAN") {
                                v.kind = "UNREF";
                                v.msg += " [unreferenced or uninitialised memory influences the result]";
                            }
                }
            }
            arm(0);
            ++evals;
            famcnt[f.name]++;
            if (c.nontrivial) {
                uint64_t h = mix64(c.sigh ^ hstr(f.name));
                if (g_sigs.insert(h).second) ++nontriv;
            }
            if (i < 2 + start && samples.size() < 12)
                samples.push_back(std::string(f.name) + "[" + std::to_string(i) + "]: " + c.descr);
            for (auto& v : c.vio) {
                std::string k = v.kind + "|" + c.fam + "|" + v.key;
                int& pk = perkey[k];
                if (pk >= 3 || printed >= 20 * maxvio) { pk++; continue; }
                pk++;
                printed++;
                fprintf(g_out,
                        "{\"t\":\"vio\",\"kind\":\"%s\",\"key\":\"%s\",\"fam\":\"%s\",\"idx\":%ld,"
                        "\"msg\":\"%s\",\"desc\":\"%s\"}\n",
                        v.kind.c_str(), jesc(v.key).c_str(), f.name, (long)i,
                        jesc(v.msg).c_str(), jesc(c.descr).c_str());
                fflush(g_out);
            }
            if (only >= 0) break;
        }
    }
#ifdef VK_MT
    std::vector<Mismatch> bad;
    if (!jobs.empty()) mt_run(jobs, famcnt, samples, evals, nontriv, bad);
    for (auto& b : bad) {
        std::string k = std::string("NONDET|") + b.f->name;
        if (++perkey[k] > 2 || ++printed > 60) continue;
        fprintf(g_out, "{\"t\":\"vio\",\"kind\":\"NONDET\",\"key\":\"nondet:%s\",\"fam\":\"%s\",\"idx\":%ld,\"msg\":\"results differ bitwise from those of the same call made alone when %s\",\"desc\":\"%s\"}\n",
                b.f->name, b.f->name, (long)b.i, b.phase, jesc(b.desc).c_str());
    }
#endif
    fprintf(g_out, "{\"t\":\"stats\",\"evals\":%ld,\"nontriv\":%ld,\"events\":%ld,\"checks\":%ld,\"ratios\":{",
            (long)evals, (long)nontriv, (long)g_events, (long)g_checks);
    bool first = true;
    for (auto& r : g_ratio) {
        double v = r.second.second;
        if (!(v < 1e300)) v = 1e300;
        fprintf(g_out, "%s\"%s\":[%ld,%.3g]", first ? "" : ",", jesc(r.first).c_str(), (long)r.second.first, v);
        first = false;
    }
    fprintf(g_out, "},\"counts\":{");
    first = true;
    for (auto& r : g_cnt) {
        fprintf(g_out, "%s\"%s\":%ld", first ? "" : ",", jesc(r.first).c_str(), (long)r.second);
        first = false;
    }
    fprintf(g_out, "},\"fams\":{");
    first = true;
    for (auto& r : famcnt) {
        fprintf(g_out, "%s\"%s\":%ld", first ? "" : ",", r.first.c_str(), (long)r.second);
        first = false;
    }
    fprintf(g_out, "},\"perkey\":{");
    first = true;
    for (auto& r : perkey) {
        fprintf(g_out, "%s\"%s\":%d", first ? "" : ",", jesc(r.first).c_str(), r.second);
        first = false;
    }
    fprintf(g_out, "},\"samples\":[");
    first = true;
    for (auto& s : samples) {
        fprintf(g_out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
        first = false;
    }
    fprintf(g_out, "]}\n");
    if (g_out != stdout) fclose(g_out);
    return 0;
}
}  // namespace vk
#define VK_MAIN \
    int main(int argc, char** argv) { return vk::vk_main(argc, argv); }
