// __float128 through tlapack/plugins/gnuquad.hpp (g++, -std=gnu++20), and a double-quad type for the reference computations.
#pragma once
#include <quadmath.h>
#include <type_traits>
#include <tlapack/plugins/gnuquad.hpp>
namespace vk {
using Q = __float128;
// value = h + l with |l| <= ulp(h)/2: about 226 significant bits
struct DQ {
    Q h = 0, l = 0;
    DQ() {}
    template <class I, std::enable_if_t<std::is_arithmetic_v<I> || std::is_same_v<I, Q>, int> = 0>
    DQ(I x) : h((Q)x) {}
    DQ(Q a, Q b) : h(a), l(b) {}
    template <class I, std::enable_if_t<std::is_arithmetic_v<I> || std::is_same_v<I, Q>, int> = 0>
    explicit operator I() const { return (I)h; }
    static DQ two(Q a, Q b)
    {
        Q s = a + b;
        if (!((s - s) == 0)) return DQ(s);
        Q t = s - a;
        return DQ(s, (a - (s - t)) + (b - t));
    }
    static DQ fast(Q a, Q b)
    {
        Q s = a + b;
        if (!((s - s) == 0)) return DQ(s);
        return DQ(s, b - (s - a));
    }
    static void split(Q a, Q& x, Q& y)
    {
        Q t = a * Q((1ull << 57) + 1);
        x = t - (t - a);
        y = a - x;
    }
    static DQ prod(Q a, Q b)
    {
        Q p = a * b;
        if (p == 0 || !((p - p) == 0)) return DQ(p);
        const Q big = 0x1p+8000Q;
        if (a > big || a < -big || b > big || b < -big) return DQ(p);  // no room to split
        Q a1, a2, b1, b2;
        split(a, a1, a2), split(b, b1, b2);
        return DQ(p, ((a1 * b1 - p) + a1 * b2 + a2 * b1) + a2 * b2);
    }
    DQ operator-() const { return DQ(-h, -l); }
    DQ operator+() const { return *this; }
    friend DQ operator+(const DQ& a, const DQ& b)
    {
        DQ s = two(a.h, b.h);
        return fast(s.h, s.l + (a.l + b.l));
    }
    friend DQ operator-(const DQ& a, const DQ& b) { return a + (-b); }
    friend DQ operator*(const DQ& a, const DQ& b)
    {
        DQ p = prod(a.h, b.h);
        return fast(p.h, p.l + (a.h * b.l + a.l * b.h));
    }
    friend DQ operator/(const DQ& a, const DQ& b)
    {
        Q q = a.h / b.h;
        if (q == 0 || !((q - q) == 0)) return DQ(q);
        DQ r = a - DQ(q) * b;
        if (!((r.h - r.h) == 0)) return DQ(q);
        return fast(q, r.h / b.h);
    }
    DQ& operator+=(const DQ& b) { return *this = *this + b; }
    DQ& operator-=(const DQ& b) { return *this = *this - b; }
    DQ& operator*=(const DQ& b) { return *this = *this * b; }
    DQ& operator/=(const DQ& b) { return *this = *this / b; }
    friend bool operator==(const DQ& a, const DQ& b) { return a.h == b.h && a.l == b.l; }
    friend bool operator!=(const DQ& a, const DQ& b) { return !(a == b); }
    friend bool operator<(const DQ& a, const DQ& b) { return a.h < b.h || (a.h == b.h && a.l < b.l); }
    friend bool operator>(const DQ& a, const DQ& b) { return b < a; }
    friend bool operator<=(const DQ& a, const DQ& b) { return a.h < b.h || (a.h == b.h && a.l <= b.l); }
    friend bool operator>=(const DQ& a, const DQ& b) { return b <= a; }
};
inline DQ dqsqrt(const DQ& x)
{
    if (!(x.h > 0) || !((x.h - x.h) == 0)) return DQ(sqrtq(x.h));
    DQ r(sqrtq(x.h));
    return (r + x / r) / DQ(2);
}
}  // namespace vk
