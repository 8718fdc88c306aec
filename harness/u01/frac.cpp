// Fractions of unity: exact reference in __int128 / long double.
#include <cmath>
#include <cstdint>
#include <limits>

#include "vf.hpp"
#include <archon/core/integer.hpp>
#include <archon/util/unit_frac.hpp>

using namespace archon;
namespace uf = util::unit_frac;

namespace {
using u128 = unsigned __int128;

template<class I> I pick_max(vf::Case& c)
{
    int w = std::numeric_limits<I>::digits;
    I top = std::numeric_limits<I>::max();
    switch (c.rng.below(4)) {
        case 0: return top;
        case 1: return I(top >> c.rng.below(w)); // 2^k - 1
        case 2: return I(1 + c.rng.below(std::min<std::uint64_t>(300, std::uint64_t(top))));
        default: {
            I v = I(c.rng.next() & std::uint64_t(top));
            v = I(v >> c.rng.below(w));
            return v == 0 ? I(1) : v;
        }
    }
}
template<class I> I pick_val(vf::Case& c, I max)
{
    std::uint64_t m = std::uint64_t(max);
    switch (c.rng.below(6)) {
        case 0: return 0;
        case 1: return max;
        case 2: return I(m / 2);
        case 3: return I(m - c.rng.below(std::min<std::uint64_t>(m, 3) + 1));
        default: return I(m == ~std::uint64_t(0) ? c.rng.next() : c.rng.below(m + 1));
    }
}

// Multiplier is up to 2^64, fraction is a long double: floor and relative slack
template<class I, class F> void flt(vf::Case& c)
{
    I max = pick_max<I>(c);
    I i = pick_val<I>(c, max);
    long double eps = std::numeric_limits<F>::epsilon();
    F f = uf::int_to_flt<F>(i, max);
    auto info = [&](std::ostream& out) {
        out.precision(25);
        out << "int=" << std::uint64_t(i) << " max=" << std::uint64_t(max) << " flt=" << (long double)(f)
            << " F digits=" << std::numeric_limits<F>::digits << " I digits=" << std::numeric_limits<I>::digits;
    };
    long double exact = (long double)(std::uint64_t(i)) / (long double)(std::uint64_t(max));
    VF_REQUIRE(std::fabs((long double)(f) - exact) <= 2 * eps * exact && f >= 0 && f <= 1, "int-to-float", info);
    if (i == 0 || i == max) {
        VF_REQUIRE(f == F(i == 0 ? 0 : 1), "int-to-float-boundary", info);
        c.event("frac.boundary");
    }
    // Round trip is exact when precision suffices
    int prec = std::numeric_limits<F>::digits;
    bool fits = (std::uint64_t(max) >> std::min(63, prec - 3)) == 0;
    if (fits) {
        I a = uf::flt_to_int<I>(f, max), b = uf::flt_to_int_a<I>(f, max);
        // The default model leaves a margin of 1/max only
        if ((std::uint64_t(max) >> ((prec - 2) / 2)) == 0)
            VF_REQUIRE(a == i, "round-trip-default", [&](std::ostream& out) { info(out); out << " got " << std::uint64_t(a); });
        VF_REQUIRE(b == i, "round-trip-alternate", [&](std::ostream& out) { info(out); out << " got " << std::uint64_t(b); });
        c.event("frac.round-trip");
    }
    if (max == core::int_max<I>())
        VF_REQUIRE(uf::int_to_flt<F>(i) == f, "default-max", info);
    // Float to int
    F g;
    switch (c.rng.below(8)) {
        case 0: g = -F(c.rng.unit() * 10); break;
        case 1: g = F(1 + c.rng.unit() * 10); break;
        case 2: g = std::numeric_limits<F>::quiet_NaN(); break;
        case 3: g = (c.rng.chance(1, 2) ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity()); break;
        case 4: g = (c.rng.chance(1, 2) ? std::numeric_limits<F>::max() : -std::numeric_limits<F>::max()); break;
        case 5: g = (c.rng.chance(1, 3) ? std::nextafter(F(1), F(0)) : c.rng.chance(1, 2) ? std::nextafter(F(0), F(1)) : F(1)); break;
        default: g = F(c.rng.unit()); break;
    }
    I a = uf::flt_to_int<I>(g, max), b = uf::flt_to_int_a<I>(g, max);
    auto info2 = [&](std::ostream& out) {
        out.precision(25);
        out << "flt=" << (long double)(g) << " max=" << std::uint64_t(max) << " default=" << std::uint64_t(a)
            << " alternate=" << std::uint64_t(b);
    };
    VF_REQUIRE(a >= 0 && a <= max && b >= 0 && b <= max, "float-to-int-range", info2);
    if (std::isnan(g) || g <= 0) {
        VF_REQUIRE(a == 0 && b == 0, "float-to-int-low", info2);
        c.event(std::isnan(g) ? "frac.nan" : "frac.negative");
    }
    else if (g >= 1) {
        VF_REQUIRE(a == max && b == max, "float-to-int-high", info2);
        c.event("frac.above-one");
    }
    else {
        auto within = [&](long double x, I got, bool round) {
            // Allow the relative rounding error of type F on the scaled value
            long double lo = x - 2 * eps * (x + 1), hi = x + 2 * eps * (x + 1);
            if (round) {
                lo += 0.5L;
                hi += 0.5L;
            }
            long double l = std::floor(lo), h = std::floor(hi), top = (long double)(std::uint64_t(max));
            long double v = (long double)(std::uint64_t(got));
            return v >= std::min(std::max(l, 0.0L), top) && v <= std::min(h, top);
        };
        long double m = (long double)(std::uint64_t(max));
        VF_REQUIRE(within((long double)(g) * (m + 1), a, false), "float-to-int-default", info2);
        VF_REQUIRE(within((long double)(g) * m, b, true), "float-to-int-alternate", info2);
        // Monotone
        F g2 = F(c.rng.unit());
        if (c.rng.chance(1, 2))
            g2 = std::nextafter(g, F(c.rng.below(2)));
        I a2 = uf::flt_to_int<I>(g2, max), b2 = uf::flt_to_int_a<I>(g2, max);
        VF_REQUIRE(g == g2 || ((g < g2) ? (a <= a2 && b <= b2) : (a >= a2 && b >= b2)), "float-to-int-monotone", info2);
        c.event("frac.inside");
    }
    c.nontrivial(vf::Hash().add(std::uint64_t(i)).add(std::uint64_t(max)).get());
}

template<class T> void width(vf::Case& c)
{
    int w = std::numeric_limits<T>::digits;
    int m = int(c.rng.range(1, w)), n = int(c.rng.range(1, w));
    std::uint64_t mm = (m == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << m) - 1);
    T v = pick_val<T>(c, T(mm));
    T r = uf::change_bit_width(v, m, n);
    // flt_to_int(int_to_flt(v, 2^m - 1), 2^n - 1) = min(floor(v * 2^n / (2^m - 1)), 2^n - 1)
    u128 e;
    if (m + n <= 127) {
        e = (u128(std::uint64_t(v)) << n) / mm;
    }
    else {
        e = std::uint64_t(v); // m = n = 64
    }
    u128 top = (n == 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << n) - 1);
    if (e > top)
        e = top;
    auto info = [&](std::ostream& out) {
        out << std::uint64_t(v) << " from " << m << " to " << n << " bits gave " << std::uint64_t(r) << " expected "
            << std::uint64_t(e);
    };
    VF_REQUIRE(u128(std::uint64_t(r)) == e && r >= 0, "change-bit-width", info);
    c.event(n > m ? "width.expand" : n < m ? "width.shrink" : "width.same");
    if (n > m) {
        T back = uf::change_bit_width(r, n, m);
        VF_REQUIRE(back == v, "change-bit-width-round-trip", info);
    }
    c.nontrivial(vf::Hash().add(m).add(n).add(std::uint64_t(v)).get());
}

template<int N, int M, class I, class J> void int_int(vf::Case& c)
{
    auto lim = [&](int bits, auto top) {
        std::uint64_t m = (bits >= 64 ? ~std::uint64_t(0) : (std::uint64_t(1) << bits) - 1);
        return std::min<std::uint64_t>(m, std::uint64_t(top));
    };
    auto pick = [&](std::uint64_t top) {
        std::uint64_t v = c.rng.chance(1, 3) ? top : c.rng.chance(1, 2) ? c.rng.next() & top : 1 + c.rng.below(300);
        v = std::min(v >> (c.rng.chance(1, 2) ? 0 : c.rng.below(8)), top);
        return v == 0 ? std::uint64_t(1) : v;
    };
    I max_1 = I(pick(lim(N, std::numeric_limits<I>::max())));
    J max_2 = J(pick(lim(M, std::numeric_limits<J>::max())));
    I v = pick_val<I>(c, max_1);
    J r = uf::int_to_int_a<N, M>(v, max_1, max_2);
    u128 num = u128(std::uint64_t(v)) * std::uint64_t(max_2), den = std::uint64_t(max_1);
    u128 q = num / den, rem = num % den;
    auto info = [&](std::ostream& out) {
        out << std::uint64_t(v) << "/" << std::uint64_t(max_1) << " to max " << std::uint64_t(max_2) << " gave "
            << std::uint64_t(r);
    };
    bool tie = (rem * 2 == den);
    u128 e = q + (rem * 2 > den ? 1 : 0);
    VF_REQUIRE(u128(std::uint64_t(r)) == e || (tie && u128(std::uint64_t(r)) == e + 1), "int-to-int", info);
    c.event(tie ? "int-int.tie" : "int-int");
    if (v == 0 || v == max_1)
        VF_REQUIRE(r == (v == 0 ? J(0) : max_2), "int-to-int-boundary", info);
    if (std::uint64_t(max_2) >= std::uint64_t(max_1)) {
        I back = uf::int_to_int_a<M, N>(r, max_2, max_1);
        VF_REQUIRE(back == v, "int-to-int-round-trip", info);
        c.event("int-int.round-trip");
    }
    c.nontrivial(vf::Hash().add(std::uint64_t(max_1)).add(std::uint64_t(max_2)).add(std::uint64_t(v)).get());
}
} // unnamed namespace

VF_MONITOR(u01_fractions, 150000, 5000000)
{
    switch (c.rng.below(24)) {
        case 0: flt<std::uint8_t, float>(c); break;
        case 1: flt<std::uint8_t, double>(c); break;
        case 2: flt<std::int8_t, float>(c); break;
        case 3: flt<std::uint16_t, float>(c); break;
        case 4: flt<std::int16_t, double>(c); break;
        case 5: flt<std::uint32_t, float>(c); break;
        case 6: flt<std::uint32_t, double>(c); break;
        case 7: flt<std::int32_t, double>(c); break;
        case 8: flt<std::uint64_t, float>(c); break;
        case 9: flt<std::uint64_t, double>(c); break;
        case 10: flt<std::int64_t, double>(c); break;
        case 11: flt<std::uint64_t, long double>(c); break;
        case 12: width<std::uint8_t>(c); break;
        case 13: width<std::uint16_t>(c); break;
        case 14: width<std::uint32_t>(c); break;
        case 15: width<std::uint64_t>(c); break;
        case 16: width<std::int32_t>(c); break;
        case 17: width<std::int8_t>(c); break;
        case 18: int_int<8, 8, std::uint8_t, std::uint8_t>(c); break;
        case 19: int_int<8, 16, std::uint8_t, std::uint16_t>(c); break;
        case 20: int_int<16, 8, std::uint16_t, std::uint8_t>(c); break;
        case 21: int_int<32, 32, std::uint32_t, std::uint32_t>(c); break;
        case 22: int_int<31, 63, std::int32_t, std::int64_t>(c); break;
        default: int_int<64, 64, std::uint64_t, std::uint64_t>(c); break;
    }
}
