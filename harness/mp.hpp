// A user-defined real scalar type with a 90-bit significand and the exponent range of binary128.
// It converts implicitly only from built-in types, like mpfr::mpreal, and never to them.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <iostream>
#include <limits>
#include <type_traits>
namespace vk {
using Q = __float128;
struct Mp {
    Q v = 0;
    static Q rnd(Q x)
    {
        // Veltkamp: round to 113 - 23 = 90 bits; exact powers of two keep huge arguments in range
        if (!((x - x) == 0) || x == 0) return x;
        Q s = 1;
        if (x > Q(1e300L) * Q(1e300L) || x < -Q(1e300L) * Q(1e300L)) s = 1 / Q(1ull << 40);
        Q y = x * s, t = y * Q((1 << 23) + 1), r = t - (t - y);
        return r / s;
    }
    Mp() {}
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>
    Mp(I x) : v(Q(x)) {}
    explicit Mp(Q x) : v(rnd(x)) {}
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>
    explicit operator I() const { return (I)v; }
    explicit operator Q() const { return v; }
    Mp& operator+=(const Mp& b) { v = rnd(v + b.v); return *this; }
    Mp& operator-=(const Mp& b) { v = rnd(v - b.v); return *this; }
    Mp& operator*=(const Mp& b) { v = rnd(v * b.v); return *this; }
    Mp& operator/=(const Mp& b) { v = rnd(v / b.v); return *this; }
    Mp operator-() const { Mp r; r.v = -v; return r; }
    Mp operator+() const { return *this; }
    friend Mp operator+(Mp a, const Mp& b) { return a += b; }
    friend Mp operator-(Mp a, const Mp& b) { return a -= b; }
    friend Mp operator*(Mp a, const Mp& b) { return a *= b; }
    friend Mp operator/(Mp a, const Mp& b) { return a /= b; }
    friend bool operator==(const Mp& a, const Mp& b) { return a.v == b.v; }
    friend bool operator!=(const Mp& a, const Mp& b) { return a.v != b.v; }
    friend bool operator<(const Mp& a, const Mp& b) { return a.v < b.v; }
    friend bool operator>(const Mp& a, const Mp& b) { return a.v > b.v; }
    friend bool operator<=(const Mp& a, const Mp& b) { return a.v <= b.v; }
    friend bool operator>=(const Mp& a, const Mp& b) { return a.v >= b.v; }
    friend std::ostream& operator<<(std::ostream& o, const Mp& a) { return o << (long double)a.v; }
};
inline Q qsqrt(Q x)
{
    if (!(x > 0) || !((x - x) == 0)) return x == 0 ? x : (x > 0 ? x : (x - x) / Q(0));
    Q s = 1;
    while (x > Q(1e600L)) x *= 1 / (Q(1ull << 62) * Q(1ull << 62)), s *= Q(1ull << 62);
    while (x < Q(1e-600L)) x *= Q(1ull << 62) * Q(1ull << 62), s /= Q(1ull << 62);
    Q r = (Q)std::sqrt((long double)x);
    r = (r + x / r) / 2;
    r = (r + x / r) / 2;
    return r * s;
}
inline Mp abs(const Mp& a) { return a.v < 0 ? -a : a; }
inline Mp fabs(const Mp& a) { return abs(a); }
inline Mp sqrt(const Mp& a) { return Mp(qsqrt(a.v)); }
inline bool isnan(const Mp& a) { return a.v != a.v; }
inline bool isinf(const Mp& a) { return a.v == a.v && !((a.v - a.v) == 0); }
inline bool isfinite(const Mp& a) { return (a.v - a.v) == 0; }
inline bool signbit(const Mp& a) { return __builtin_signbit((long double)a.v); }
inline Mp copysign(const Mp& a, const Mp& b) { Mp r = abs(a); return signbit(b) ? -r : r; }
inline Mp floor(const Mp& a)
{
    Q f = (Q)std::floor((long double)a.v);  // |a| below 2^63 in every use
    while (f > a.v) f -= 1;
    while (f + 1 <= a.v) f += 1;
    return Mp(f);
}
inline Mp ceil(const Mp& a) { return -floor(-a); }
inline Mp ldexp(const Mp& a, int e)
{
    Q x = a.v;
    while (e > 0) { int k = e > 60 ? 60 : e; x *= Q(1ull << k); e -= k; }
    while (e < 0) { int k = -e > 60 ? 60 : -e; x /= Q(1ull << k); e += k; }
    return Mp(x);
}
// two correction steps bring the long double values to full accuracy
inline Mp log(const Mp& a)
{
    Q y = (Q)std::log((long double)a.v);
    return Mp(y);
}
inline Mp log2(const Mp& a)
{
    Q x = a.v;
    int e = 0;
    if (x > 0 && (x - x) == 0) {
        while (x >= 2) x /= 2, ++e;
        while (x < 1) x *= 2, --e;
        if (x == 1) return Mp(e);
        return Mp(Q(e) + (Q)std::log2((long double)x));
    }
    return Mp((Q)std::log2((long double)x));
}
inline Mp pow(const Mp& a, int e)
{
    Q r = 1, b = e < 0 ? 1 / a.v : a.v;
    for (unsigned k = e < 0 ? -e : e; k; k >>= 1) {
        if (k & 1) r *= b;
        b *= b;
    }
    return Mp(r);
}
inline Mp pow(int a, const Mp& e)
{
    int k = (int)(long double)e.v;
    if (Q(k) == e.v) return pow(Mp(a), k);
    return Mp((Q)std::pow((long double)a, (long double)e.v));
}
inline Mp pow(const Mp& a, const Mp& e)
{
    int k = (int)(long double)e.v;
    if (Q(k) == e.v) return pow(a, k);
    return Mp((Q)std::pow((long double)a.v, (long double)e.v));
}
// sin and cos by Taylor series after halving the argument
inline void sincosQ(Q x, Q& s, Q& c)
{
    int h = 0;
    Q y = x;
    while (y > Q(0.01) || y < -Q(0.01)) y /= 2, ++h;
    Q t = y, ss = 0, cc = 0, u = 1;
    for (int k = 1; k < 20; k += 2) ss += t, t *= -y * y / ((k + 1) * (k + 2));
    for (int k = 0; k < 20; k += 2) cc += u, u *= -y * y / ((k + 1) * (k + 2));
    for (; h > 0; --h) { Q s2 = 2 * ss * cc, c2 = cc * cc - ss * ss; ss = s2; cc = c2; }
    s = ss; c = cc;
}
inline Mp sin(const Mp& a) { Q s, c; sincosQ(a.v, s, c); return Mp(s); }
inline Mp cos(const Mp& a) { Q s, c; sincosQ(a.v, s, c); return Mp(c); }
}  // namespace vk
namespace std {
template <>
struct numeric_limits<vk::Mp> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true, has_quiet_NaN = true, is_bounded = true, is_iec559 = false;
    static constexpr int digits = 90, digits10 = 26, max_digits10 = 29, radix = 2, min_exponent = -16381 + 160, max_exponent = 16384 - 64;
    static constexpr int min_exponent10 = -4880, max_exponent10 = 4900;
    static vk::Mp min() noexcept { return vk::ldexp(vk::Mp(1), min_exponent - 1); }
    static vk::Mp max() noexcept { return vk::ldexp(vk::Mp(1) - epsilon(), max_exponent); }
    static vk::Mp lowest() noexcept { return -max(); }
    static vk::Mp epsilon() noexcept { return vk::ldexp(vk::Mp(1), 1 - digits); }
    static vk::Mp round_error() noexcept { return vk::Mp(0.5); }
    static vk::Mp infinity() noexcept { vk::Mp r; r.v = __builtin_huge_val(); return r; }
    static vk::Mp quiet_NaN() noexcept { vk::Mp r; r.v = __builtin_nan(""); return r; }
    static vk::Mp signaling_NaN() noexcept { return quiet_NaN(); }
    static vk::Mp denorm_min() noexcept { return min(); }
};
}  // namespace std
#include <tlapack/base/types.hpp>
namespace tlapack {
namespace traits {
    template <>
    struct real_type_traits<vk::Mp, int> {
        using type = vk::Mp;
        constexpr static bool is_real = true;
    };
    template <>
    struct complex_type_traits<vk::Mp, int> {
        using type = std::complex<vk::Mp>;
        constexpr static bool is_complex = false;
    };
}  // namespace traits
}  // namespace tlapack
