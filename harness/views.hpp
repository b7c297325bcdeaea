// view operations against an explicit model of the addressed elements
#pragma once
#include "ops.hpp"
#include <sstream>
#include <map>
#include <tlapack/base/constants.hpp>
#include <climits>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/plugins/debugutils.hpp>
using namespace vk;
using tlapack::Layout;
using tlapack::Direction;
using tlapack::LegacyMatrix;
using tlapack::LegacyVector;
using tlapack::LegacyBandedMatrix;

template <class P>
struct VV { P* base; std::vector<long> o; };
template <class P>
struct MM {
    P* base;
    long m, n;
    std::vector<long> o;  // column major offsets
    long at(long i, long j) const { return o[i + j * m]; }
    static MM make(P* b, long m, long n) { return MM{b, m, n, std::vector<long>(m * n)}; }
};
template <class T>
static MM<T> sub(const MM<T>& A, long r0, long r1, long c0, long c1)
{
    auto B = MM<T>::make(A.base, r1 - r0, c1 - c0);
    for (long j = c0; j < c1; ++j)
        for (long i = r0; i < r1; ++i) B.o[(i - r0) + (j - c0) * B.m] = A.at(i, j);
    return B;
}
template <class T>
static VV<T> vsub(const VV<T>& v, long a, long b)
{
    return VV<T>{v.base, std::vector<long>(v.o.begin() + a, v.o.begin() + b)};
}
static void rng2(Rng& g, long n, long& a, long& b)
{
    a = g.range(0, n);
    b = g.range(0, n);
    if (a > b) std::swap(a, b);
    if (g.coin(0.15)) a = 0;
    if (g.coin(0.15)) b = n;
}
template <class V> struct vdir { static constexpr bool legacy = false; static constexpr bool fwd = true; };
#if VK_LI == 3 || VK_LI == 4
template <class V> constexpr bool eig_t = tlapack::traits::is_eigen_type<V>;
template <class V> std::true_type eig_map_f(const Eigen::MapBase<V, Eigen::ReadOnlyAccessors>*);
std::false_type eig_map_f(const void*);
template <class V> constexpr bool eig_legacy = decltype(eig_map_f((V*)0))::value;  // has data(), hence a legacy descriptor
#else
template <class V> constexpr bool eig_t = false;
template <class V> constexpr bool eig_legacy = false;
#endif
template <class T, class I, class J, Direction D> struct vdir<LegacyVector<T, I, J, D>> { static constexpr bool legacy = true; static constexpr bool fwd = D == Direction::Forward; };

template <class V, class T>
static void checkV(Case& c, const char* key, V& v, const VV<T>& w)
{
    if (!c.ok(key, (long)tlapack::size(v) == (long)w.o.size(), "size %ld want %ld", (long)tlapack::size(v), (long)w.o.size())) return;
    for (long i = 0; i < (long)w.o.size(); ++i) {
        const auto& cv = v;
        if constexpr (std::is_lvalue_reference_v<decltype(v[i])>) {
            auto* p = &v[i];
            if (!c.ok(key, (const T*)p == w.base + w.o[i], "element %ld is at offset %ld, want %ld", i, (long)((const T*)p - w.base), w.o[i])) return;
        }
        else if (!c.ok(key, v[i] == w.base[w.o[i]], "element %ld is another one", i)) return;
        if constexpr (std::is_lvalue_reference_v<decltype(cv[i])>) {
            if (!c.ok(key, (const T*)&cv[i] == w.base + w.o[i], "const element %ld elsewhere", i)) return;
        }
        else if (!c.ok(key, cv[i] == w.base[w.o[i]], "const element %ld is another one", i)) return;
        if constexpr (std::is_lvalue_reference_v<decltype(v[i])> && !std::is_const_v<std::remove_reference_t<decltype(v[i])>>) {
            T old = v[i];
            v[i] = T(-7);
            bool good = w.base[w.o[i]] == T(-7);
            v[i] = old;
            if (!c.ok(key, good, "write to element %ld not seen through the parent", i)) return;
        }
    }
}
template <class A, class T>
static void checkM(Case& c, const char* key, A& a, const MM<T>& w)
{
    if (!c.ok(key, (long)tlapack::nrows(a) == w.m && (long)tlapack::ncols(a) == w.n && (long)tlapack::size(a) == w.m * w.n, "is %ld x %ld, want %ld x %ld",
              (long)tlapack::nrows(a), (long)tlapack::ncols(a), w.m, w.n)) return;
    for (long j = 0; j < w.n; ++j)
        for (long i = 0; i < w.m; ++i) {
            const auto& ca = a;
            if constexpr (std::is_lvalue_reference_v<decltype(a(i, j))>) {
                auto* p = &a(i, j);
                if (!c.ok(key, (const T*)p == w.base + w.at(i, j), "element (%ld,%ld) is at offset %ld, want %ld", i, j, (long)((const T*)p - w.base), w.at(i, j))) return;
            }
            else if (!c.ok(key, a(i, j) == w.base[w.at(i, j)], "element (%ld,%ld) is another one", i, j)) return;
            if constexpr (std::is_lvalue_reference_v<decltype(ca(i, j))>) {
                if (!c.ok(key, (const T*)&ca(i, j) == w.base + w.at(i, j), "const element (%ld,%ld) elsewhere", i, j)) return;
            }
            else if (!c.ok(key, ca(i, j) == w.base[w.at(i, j)], "const element (%ld,%ld) is another one", i, j)) return;
            if constexpr (std::is_lvalue_reference_v<decltype(a(i, j))> && !std::is_const_v<std::remove_reference_t<decltype(a(i, j))>>) {
                T old = a(i, j);
                a(i, j) = T(-7);
                bool good = w.base[w.at(i, j)] == T(-7);
                a(i, j) = old;
                if (!c.ok(key, good, "write to (%ld,%ld) not seen through the parent", i, j)) return;
            }
        }
}
// two pieces of a reshape must be disjoint and partition the elements of the source
template <class T>
static void addOff(std::map<long, int>& s, T* base, const T* p) { ++s[p - base]; }
template <class A, class T>
static void collectM(std::map<long, int>& s, const A& a, T* base)
{
    for (long j = 0; j < (long)tlapack::ncols(a); ++j)
        for (long i = 0; i < (long)tlapack::nrows(a); ++i) ++s[(const T*)&a(i, j) - base];
}
template <class V, class T>
static void collectV(std::map<long, int>& s, const V& v, T* base)
{
    for (long i = 0; i < (long)tlapack::size(v); ++i) ++s[(const T*)&v[i] - base];
}
static bool partition(const std::map<long, int>& s, const std::vector<long>& o)
{
    if (s.size() != o.size()) return false;
    for (auto& e : s)
        if (e.second != 1) return false;
    for (long x : o)
        if (!s.count(x)) return false;
    return true;
}
template <class V, class T> static void exploreV(Case& c, V& v, const VV<T>& w, int depth);
template <class A, class T> static void exploreM(Case& c, A& a, const MM<T>& w, int depth);

template <class V, class T>
static void convV(Case& c, V& v, const VV<T>& w)
{
    using B = std::remove_const_t<V>;
    if constexpr (vdir<B>::legacy) {
        using I = std::decay_t<decltype(v.n)>;
        if constexpr (vdir<B>::fwd || std::is_signed_v<I>) {
            auto l = tlapack::legacy_vector(v);
            bool good = (long)l.n == (long)w.o.size();
            for (long i = 0; i < (long)w.o.size() && good; ++i) {
                long inc = (long)l.inc, off;
                if constexpr (vdir<B>::fwd) off = i * inc;  // a forward view's descriptor walks from its own pointer
                else off = inc >= 0 ? i * inc : (i + 1 - (long)l.n) * inc;
                if ((const T*)l.ptr + off != w.base + w.o[i]) good = false;
            }
            c.ok("legacy_vector", good, "descriptor does not address the view (n=%ld inc=%ld)", (long)l.n, (long)l.inc);
        }
        if constexpr (vdir<B>::fwd) {
            auto l = tlapack::legacy_matrix(v);
            bool good = l.layout == Layout::ColMajor && (long)l.m == 1 && (long)l.n == (long)w.o.size();
            for (long i = 0; i < (long)w.o.size() && good; ++i) good = (const T*)l.ptr + i * (long)l.ldim == w.base + w.o[i];
            c.ok("legacy_matrix-vec", good, "1-by-n descriptor does not address the view");
        }
    }
}
template <class V, class T>
static void exploreV(Case& c, V& v, const VV<T>& w, int depth)
{
    c.nt();
    c.count("views");
    auto& g = c.rng;
    checkV(c, "vector", v, w);
    convV(c, v, w);
    if (!c.vio.empty() || depth <= 0) return;
    long n = (long)w.o.size(), a, b;
    rng2(g, n, a, b);
    using B = std::remove_const_t<V>;
    switch (g.range(0, 4)) {
        case 0: {
            auto s = tlapack::slice(v, std::pair<int, int>((int)a, (int)b));
            return exploreV(c, s, vsub(w, a, b), depth - 1);
        }
        case 1: {
            auto s = tlapack::slice(v, std::pair<std::size_t, std::size_t>(a, b));
            return exploreV(c, s, vsub(w, a, b), depth - 1);
        }
        case 2: {
            const V& cv = v;
            auto s = tlapack::slice(cv, std::pair<long, long>(a, b));
            return exploreV(c, s, vsub(w, a, b), depth - 1);
        }
        case 3:
            if constexpr ((vdir<B>::legacy || eig_legacy<B>) && !std::is_const_v<V>) {
                long k = g.coin(0.1) ? n + g.range(1, 3) : a;
                bool thrown = false;
                try {
                    auto pr = tlapack::reshape(v, k);
                    auto& p1 = pr.first;
                    auto& p2 = pr.second;
                    c.ok("reshape-vec", k <= n, "reshape to %ld of a vector of size %ld accepted", k, n);
                    if (!c.vio.empty()) return;
                    exploreV(c, p1, vsub(w, 0, k), depth - 1);
                    exploreV(c, p2, vsub(w, k, n), depth - 1);
                }
                catch (const std::domain_error&) {
                    thrown = true;
                }
                c.ok("reshape-vec", !thrown || k > n, "reshape to %ld of a vector of size %ld rejected", k, n);
            }
            return;
        case 4:
            if constexpr ((vdir<B>::legacy || eig_legacy<B>) && !std::is_const_v<V>) {
                bool contig = n <= 1;
                if (n > 1) {
                    contig = true;
                    for (long i = 1; i < n; ++i) contig &= w.o[i] == w.o[i - 1] + 1;
                }
                long m = g.coin(0.3) ? 1 : g.range(0, 4), k = m ? n / m : g.range(0, 3);
                if (k && g.coin()) k = g.range(0, k);
                if (g.coin(0.1)) k += g.range(1, 3);
                bool thrown = false;
                try {
                    auto pr = tlapack::reshape(v, m, k);
                    auto& p1 = pr.first;
                    auto& p2 = pr.second;
                    c.ok("reshape-vm", m * k <= n, "reshape to %ld x %ld of a vector of size %ld accepted", m, k, n);
                    if (!c.vio.empty()) return;
                    c.ok("reshape-vm", (long)tlapack::nrows(p1) == m && (long)tlapack::ncols(p1) == k, "first part is %ld x %ld, want %ld x %ld", (long)tlapack::nrows(p1),
                         (long)tlapack::ncols(p1), m, k);
                    std::map<long, int> s;
                    collectM(s, p1, w.base);
                    collectV(s, p2, w.base);
                    c.ok("reshape-vm", partition(s, w.o), "parts of reshape(%ld,%ld) do not partition a vector of size %ld", m, k, n);
                }
                catch (const std::domain_error&) {
                    thrown = true;
                }
                // a strided or reversed vector may be refused
                c.ok("reshape-vm", !thrown || m * k > n || !contig, "reshape to %ld x %ld of a contiguous vector of size %ld rejected", m, k, n);
            }
            return;
    }
}
template <class A, class T>
static void reshapeM(Case& c, A& a, const MM<T>& w, int depth)
{
    auto& g = c.rng;
    long sz = w.m * w.n;
    bool contig = sz <= 1;
    if (sz > 1) {
        auto o = w.o;
        std::sort(o.begin(), o.end());
        contig = o.back() - o.front() == sz - 1;
    }
    if (g.coin()) {
        long k = g.coin(0.25) ? w.m : g.coin(0.3) ? w.n : g.coin(0.2) ? 0 : g.coin(0.1) ? sz + g.range(1, 3) : g.range(0, (int)sz);
        bool must = k <= sz && (contig || k == 0 || k == w.m || k == w.n);
        bool thrown = false;
        try {
            auto pr = tlapack::reshape(a, k);
            auto& p1 = pr.first;
            auto& p2 = pr.second;
            c.ok("reshape-mv", k <= sz, "reshape of %ld x %ld to size %ld accepted", w.m, w.n, k);
            if (!c.vio.empty()) return;
            c.ok("reshape-mv", (long)tlapack::size(p1) == k, "first part has size %ld, want %ld", (long)tlapack::size(p1), k);
            std::map<long, int> s;
            collectV(s, p1, w.base);
            collectM(s, p2, w.base);
            c.ok("reshape-mv", partition(s, w.o), "parts of reshape(%ld) do not partition a %ld x %ld matrix", k, w.m, w.n);
        }
        catch (const std::domain_error&) {
            thrown = true;
        }
        c.ok("reshape-mv", !thrown || !must, "reshape of %ld x %ld (contiguous %d) to size %ld rejected", w.m, w.n, (int)contig, k);
    }
    else {
        long m = g.coin(0.4) ? w.m : g.range(0, (int)w.m + 3);
        long n = g.coin(0.4) ? w.n : m ? g.range(0, (int)(sz / m)) : g.range(0, 4);
        if (g.coin(0.1)) n += g.range(1, 3);
        bool must = m * n <= sz && (contig || m == w.m || n == w.n || m == 0 || n == 0);
        bool thrown = false;
        try {
            auto pr = tlapack::reshape(a, m, n);
            auto& p1 = pr.first;
            auto& p2 = pr.second;
            c.ok("reshape-mm", m * n <= sz, "reshape of %ld x %ld to %ld x %ld accepted", w.m, w.n, m, n);
            if (!c.vio.empty()) return;
            c.ok("reshape-mm", (long)tlapack::nrows(p1) == m && (long)tlapack::ncols(p1) == n, "first part is %ld x %ld, want %ld x %ld", (long)tlapack::nrows(p1),
                 (long)tlapack::ncols(p1), m, n);
            std::map<long, int> s;
            collectM(s, p1, w.base);
            collectM(s, p2, w.base);
            c.ok("reshape-mm", partition(s, w.o), "parts of reshape(%ld,%ld) do not partition a %ld x %ld matrix", m, n, w.m, w.n);
        }
        catch (const std::domain_error&) {
            thrown = true;
        }
        c.ok("reshape-mm", !thrown || !must, "reshape of %ld x %ld (contiguous %d) to %ld x %ld rejected", w.m, w.n, (int)contig, m, n);
    }
}
template <class A, class T>
static void exploreM(Case& c, A& a, const MM<T>& w, int depth)
{
    c.nt();
    c.count("views");
    auto& g = c.rng;
    checkM(c, "matrix", a, w);
    if constexpr (!eig_t<std::remove_const_t<A>> || eig_legacy<std::remove_const_t<A>>) {
        auto l = tlapack::legacy_matrix(a);
        bool good = (long)l.m == w.m && (long)l.n == w.n;
        for (long j = 0; j < w.n && good; ++j)
            for (long i = 0; i < w.m && good; ++i)
                good = (const T*)l.ptr + (l.layout == Layout::ColMajor ? i + j * (long)l.ldim : i * (long)l.ldim + j) == w.base + w.at(i, j);
        c.ok("legacy_matrix", good, "descriptor does not address the view");
    }
    if (!c.vio.empty() || depth <= 0) return;
    long r0, r1, c0, c1;
    rng2(g, w.m, r0, r1);
    rng2(g, w.n, c0, c1);
    auto ops = [&](auto& x) {
        switch (g.range(0, 7)) {
            case 0: {
                auto s = g.coin() ? tlapack::slice(x, std::pair<int, int>((int)r0, (int)r1), std::pair<int, int>((int)c0, (int)c1))
                                  : tlapack::slice(x, std::pair<std::size_t, std::size_t>(r0, r1), std::pair<std::size_t, std::size_t>(c0, c1));
                return exploreM(c, s, sub(w, r0, r1, c0, c1), depth - 1);
            }
            case 1: {
                auto s = tlapack::rows(x, std::pair<long, long>(r0, r1));
                return exploreM(c, s, sub(w, r0, r1, 0, w.n), depth - 1);
            }
            case 2: {
                auto s = tlapack::cols(x, std::pair<long, long>(c0, c1));
                return exploreM(c, s, sub(w, 0, w.m, c0, c1), depth - 1);
            }
            case 3: {
                if (!w.m) return;
                long i = g.range(0, (int)w.m - 1);
                if (g.coin()) {
                    auto s = tlapack::row(x, i);
                    return exploreV(c, s, VV<T>{w.base, sub(w, i, i + 1, 0, w.n).o}, depth - 1);
                }
                auto s = tlapack::slice(x, i, std::pair<long, long>(c0, c1));
                return exploreV(c, s, VV<T>{w.base, sub(w, i, i + 1, c0, c1).o}, depth - 1);
            }
            case 4: {
                if (!w.n) return;
                long j = g.range(0, (int)w.n - 1);
                if (g.coin()) {
                    auto s = tlapack::col(x, j);
                    return exploreV(c, s, VV<T>{w.base, sub(w, 0, w.m, j, j + 1).o}, depth - 1);
                }
                auto s = tlapack::slice(x, std::pair<long, long>(r0, r1), j);
                return exploreV(c, s, VV<T>{w.base, sub(w, r0, r1, j, j + 1).o}, depth - 1);
            }
            case 5: {
                long d = g.coin(0.3) ? 0 : g.range(-(int)std::max<long>(w.m - 1, 0), (int)std::max<long>(w.n - 1, 0));
                VV<T> e{w.base, {}};
                for (long i = 0; i < w.m; ++i)
                    if (i + d >= 0 && i + d < w.n) e.o.push_back(w.at(i, i + d));
                if (eig_t<std::remove_const_t<A>> && e.o.empty()) return;  // Eigen itself forms the address of A(0,0) for an empty diagonal
                if (d == 0 && g.coin()) {
                    auto s = tlapack::diag(x);
                    return exploreV(c, s, e, depth - 1);
                }
                auto s = tlapack::diag(x, (int)d);
                return exploreV(c, s, e, depth - 1);
            }
            case 6: {
                auto s = tlapack::transpose_view(x);
                auto e = MM<T>::make(w.base, w.n, w.m);
                for (long j = 0; j < w.n; ++j)
                    for (long i = 0; i < w.m; ++i) e.o[j + i * w.n] = w.at(i, j);
                return exploreM(c, s, e, depth - 1);
            }
            case 7:
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) reshapeM(c, x, w, depth);
                return;
        }
    };
    if (g.coin(0.25)) {
        const A& ca = a;
        ops(ca);
    }
    else
        ops(a);
}
template <class T>
struct Pool {
    std::vector<T> buf;
    Pool(long n) : buf(n)
    {
        for (long i = 0; i < n; ++i) buf[i] = T((double)i);
    }
    bool intact() const
    {
        for (long i = 0; i < (long)buf.size(); ++i)
            if (!(buf[i] == T((double)i))) return false;
        return true;
    }
};

