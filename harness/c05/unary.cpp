// C05: unary functions, exhaustive 8-bit pairs, and mixed integer/floating-point operations
#include <cmath>
#include <archon/core/float.hpp>
#include <archon/core/math.hpp>
#include "pair.hpp"

VF_MONITOR(exhaust_ss, 128, 256) { exhaust_case<signed char, signed char>(c); }
VF_MONITOR(exhaust_su, 128, 256) { exhaust_case<signed char, unsigned char>(c); }
VF_MONITOR(exhaust_us, 128, 256) { exhaust_case<unsigned char, signed char>(c); }
VF_MONITOR(exhaust_uu, 128, 256) { exhaust_case<unsigned char, unsigned char>(c); }

#define CTX "(" << tname<T>() << ") " << Z(v)

template<class T> void unary(vf::Case& c, T v)
{
    using lim = std::numeric_limits<T>;
    Z z(v);
    int msb = -1;
    for (U128 m = z.mag; m != 0; m >>= 1) ++msb;
    if (z.neg) msb = lim::digits;
    VF_EQ(core::int_find_msb_pos(v), msb, "msb_pos", CTX);
    for (int base : { 2, 3, 7, 8, 10, 16, 36, int(c.rng.range(2, 300)), int(c.rng.range(2, 2147483647)) }) {
        int d = 0;
        for (U128 m = z.mag; m != 0; m /= U128(base)) ++d;
        VF_EQ(core::int_find_msd_pos(v, base), d - 1, "msd_pos", CTX << " base " << base);
        VF_EQ(core::int_num_digits(v, base), d, "num_digits", CTX << " base " << base);
        int dm = 0, dx = 0;
        for (U128 m = Z(lim::min()).mag; m != 0; m /= U128(base)) ++dm;
        for (U128 m = Z(lim::max()).mag; m != 0; m /= U128(base)) ++dx;
        VF_EQ(core::int_max_digits<T>(base), std::max(dm, dx), "max_digits", tname<T>() << " base " << base);
    }
    VF_EQ(core::int_is_power_of_two(v), !z.neg && z.mag != 0 && (z.mag & (z.mag - 1)) == 0, "power_of_two", CTX);
    VF_EQ(core::is_zero(v), z.mag == 0, "is_zero", CTX);
    VF_EQ(core::is_negative(v), z.neg, "is_negative", CTX);
    VF_EQ(core::int_is_even(v), (z.mag & 1) == 0, "parity", CTX);
    VF_EQ(core::int_is_odd(v), (z.mag & 1) != 0, "parity", CTX);
    VF_EQ(core::int_is_min(v), v == lim::min(), "is_min", CTX);
    VF_EQ(core::int_is_max(v), v == lim::max(), "is_max", CTX);
    VF_REQUIRE(core::int_min<T>() == lim::min() && core::int_max<T>() == lim::max() && core::num_value_bits<T>() == lim::digits &&
               core::int_width<T>() == lim::digits + lim::is_signed && core::is_signed<T>() == lim::is_signed, "limits", tname<T>());
    auto pv = core::promote(v);
    VF_REQUIRE(cmp(Z(pv), z) == 0, "promote", CTX);
    auto sv = core::promote_strongly(v);
    VF_REQUIRE(cmp(Z(sv), z) == 0, "promote", CTX);
    auto uv = core::to_unsigned(v);
    VF_REQUIRE(uv == wrap<decltype(uv)>(z), "to_unsigned", CTX);
    if (!std::is_signed_v<decltype(+v)> || cmp(z, Z(std::numeric_limits<decltype(+v)>::min())) != 0) {
        auto nv = core::int_neg(v);
        VF_REQUIRE(nv == wrap<decltype(nv)>(neg(z)), "neg", CTX);
    }
    for (int bits : { 0, 1, lim::digits - 1, lim::digits, lim::digits + 1, int(c.rng.range(0, 70)), 1000 }) {
        if (bits < 0) continue;
        int nb = std::min(bits, int(lim::digits));
        T e = wrap<T>(Z(false, (U128(1) << nb) - 1));
        VF_EQ(core::int_mask<T>(bits), e, "mask", tname<T>() << " " << bits);
        if (!z.neg) {
            bool ok = z.mag == 0 || (bits < 64 && (z.mag << bits) <= U128(lim::max()));
            T x = v;
            bool r = core::try_int_arith_shift_left(x, bits);
            VF_REQUIRE(r == ok && x == (ok ? wrap<T>(Z(false, z.mag == 0 ? 0 : z.mag << bits)) : v), "arith_shl", CTX << " << " << bits << " gave " << r << " " << Z(x));
            x = v;
            bool thrown = false;
            try { core::int_arith_shift_left(x, bits); } catch (const std::overflow_error&) { thrown = true; }
            VF_REQUIRE(thrown == !ok && x == (ok ? wrap<T>(Z(false, z.mag == 0 ? 0 : z.mag << bits)) : v), "arith_shl", CTX << " << " << bits);
            x = v;
            core::int_logic_shift_right(x, bits);
            VF_REQUIRE(cmp(Z(x), Z(false, bits >= 128 ? 0 : z.mag >> bits)) == 0, "logic_shr", CTX << " >> " << bits << " gave " << Z(x));
        }
        if constexpr (std::is_unsigned_v<T>) {
            T x = v;
            core::int_logic_shift_left(x, bits);
            VF_REQUIRE(x == wrap<T>(Z(false, bits >= lim::digits ? 0 : z.mag << bits)), "logic_shl", CTX << " << " << bits << " gave " << Z(x));
        }
        if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, bool>) {
            if (bits >= 1) {
                U128 m = z.mag;
                if (bits < lim::digits && ((m >> (bits - 1)) & 1))
                    m |= ~((U128(1) << bits) - 1);
                // When the value has higher bits set, only the case of a set sign bit is fully specified
                bool high = bits < lim::digits && (z.mag >> bits) != 0;
                if (!high) {
                    T r = core::twos_compl_sign_extend(v, bits);
                    VF_REQUIRE(r == wrap<T>(Z(false, m)), "sign_extend", CTX << " from " << bits << " gave " << Z(r));
                }
            }
        }
    }
    if (!z.neg) {
        T r = core::int_sqrt(v);
        U128 s = Z(r).mag;
        VF_REQUIRE(!Z(r).neg && s * s <= z.mag && (s + 1) * (s + 1) > z.mag, "sqrt", CTX << " gave " << Z(r));
        c.event("sqrt");
    }
    {
        T w = interesting<T>(c.rng);
        bool ovf = std::is_signed_v<decltype(v / w)> && cmp(z, Z(std::numeric_limits<decltype(+v)>::min())) == 0 && cmp(Z(w), Z(true, 1)) == 0;
        if (Z(w).mag != 0 && !ovf) {
            auto dm = core::int_divmod(v, w);
            Z zw(w);
            Z q(z.neg != zw.neg, z.mag / zw.mag), rem(z.neg, z.mag % zw.mag);
            VF_REQUIRE(T(dm.quot) == wrap<T>(q) && T(dm.rem) == wrap<T>(rem), "divmod", CTX << " by " << Z(w));
        }
    }
}

template<class T> void unary_case(vf::Case& c)
{
    T v;
    if (std::numeric_limits<T>::digits <= 16 && c.rng.chance(1, 2))
        v = wrap<T>(Z(false, c.rng.below(65536)));
    else
        v = interesting<T>(c.rng);
    // Perfect squares and their neighbours
    if (c.rng.chance(1, 4)) {
        U128 s = c.rng.next() >> (c.rng.chance(1, 2) ? 32 : 32 + c.rng.below(30));
        v = wrap<T>(Z(false, s * s + c.rng.below(3) - 1));
    }
    unary<T>(c, v);
    vf::Hash h;
    h.add(v).add(std::string_view(tname<T>()));
    c.nontrivial(h.get());
}

template<class... T> void unary_all(vf::Case& c)
{
    for (int i = 0; i < 4; ++i)
        (unary_case<T>(c), ...);
    c.event("values", 4 * sizeof...(T));
}
VF_MONITOR(unary, 2500, 100000) { unary_all<ALL_B, char, long long, unsigned long long, wchar_t>(c); }
VF_MONITOR(unary_8bit, 256, 256)
{
    unary<unsigned char>(c, (unsigned char)(c.index));
    unary<signed char>(c, (signed char)(c.index));
    unary<char>(c, char(c.index));
    unary<bool>(c, bool(c.index & 1));
    c.nontrivial(c.index);
}

// Floating-point against integer

template<class F> std::string show_f(F f)
{
    char b[64];
    std::snprintf(b, sizeof b, "%La", (long double)f);
    return b;
}

template<class F, class I> void float_int(vf::Case& c, F f, I i)
{
    // Every value involved is exactly representable in long double (64-bit significand).
    long double x = f, y = i;
    bool nan = std::isnan(f);
    VF_REQUIRE(core::float_equal_int(f, i) == (x == y) && core::float_less_int(f, i) == (x < y) &&
               core::float_greater_int(f, i) == (x > y) && core::float_less_equal_int(f, i) == (x <= y) &&
               core::float_greater_equal_int(f, i) == (x >= y), "float_compare",
               show_f(f) << " vs (" << tname<I>() << ") " << Z(i));
    long double lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    I e = nan ? I(0) : x < lo ? std::numeric_limits<I>::min() : x > hi ? std::numeric_limits<I>::max() : I(std::trunc(x));
    I r = core::clamped_float_to_int<I>(f);
    VF_REQUIRE(r == e, "float_clamp", show_f(f) << " to " << tname<I>() << " gave " << Z(r));
    bool ok = !nan && x >= lo && x <= hi;
    I t = I(1);
    bool a = core::try_float_to_int(f, t);
    VF_REQUIRE(a == ok && t == (ok ? e : I(1)), "float_try", show_f(f) << " to " << tname<I>() << " gave " << a << " " << Z(t));
    bool thrown = false;
    I u = I(1);
    try { core::float_to_int(f, u); } catch (const std::overflow_error&) { thrown = true; }
    VF_REQUIRE(thrown == !ok && u == t, "float_checked", show_f(f) << " to " << tname<I>());
    thrown = false;
    try { u = core::float_to_int<I>(f); } catch (const std::overflow_error&) { thrown = true; }
    VF_REQUIRE(thrown == !ok && u == t, "float_checked", show_f(f) << " to " << tname<I>());
    if (ok)
        VF_REQUIRE(core::float_to_int_a<I>(f) == e, "float_to_int_a", show_f(f) << " to " << tname<I>());
    F mn = core::min_float_for_int<F, I>(), mx = core::max_float_for_int<F, I>();
    F inf = std::numeric_limits<F>::infinity();
    VF_REQUIRE((long double)mn >= lo && (long double)std::nextafter(mn, -inf) < lo, "min_float", tname<I>() << " " << show_f(mn));
    VF_REQUIRE((long double)mx <= hi && (long double)std::nextafter(mx, inf) > hi, "max_float", tname<I>() << " " << show_f(mx));
    if (y <= 0) {
        F g = core::min_float_not_below_nonpos_int<F>(i);
        VF_REQUIRE((long double)g >= y && (long double)std::nextafter(g, -inf) < y, "float_not_below", tname<I>() << " " << Z(i) << " gave " << show_f(g));
    }
    if (y >= 0) {
        F g = core::max_float_not_above_nonneg_int<F>(i);
        VF_REQUIRE((long double)g <= y && (long double)std::nextafter(g, inf) > y, "float_not_above", tname<I>() << " " << Z(i) << " gave " << show_f(g));
    }
}

template<class F, class I> void float_case(vf::Case& c)
{
    I i = interesting<I>(c.rng);
    F f;
    switch (c.rng.below(8)) {
        case 0: f = c.rng.pick<F>({ F(0), -F(0), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(),
            std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), std::numeric_limits<F>::denorm_min() }); break;
        case 1: f = F(c.rng.real(-300, 300)); break;
        case 2: f = std::ldexp(F(c.rng.real(-1, 1)), int(c.rng.range(-10, 70))); break;
        case 3: f = F(interesting<I>(c.rng)); break;
        default: f = F(i); break;
    }
    int k = int(c.rng.range(-3, 3));
    for (; k > 0; --k) f = std::nextafter(f, std::numeric_limits<F>::infinity());
    for (; k < 0; ++k) f = std::nextafter(f, -std::numeric_limits<F>::infinity());
    if (c.rng.chance(1, 4))
        f += c.rng.pick<F>({ F(0.5), F(-0.5), F(1), F(-1), F(0.999) });
    float_int<F, I>(c, f, i);
    vf::Hash h;
    h.add(double(f)).add(i).add(std::string_view(tname<I>()));
    c.nontrivial(h.get());
}
template<class F, class... I> void float_all(vf::Case& c)
{
    for (int i = 0; i < 4; ++i)
        (float_case<F, I>(c), ...);
    c.event("float_values", 4 * sizeof...(I));
}
VF_MONITOR(float_f, 2000, 60000) { float_all<float, ALL_B>(c); }
VF_MONITOR(float_d, 2000, 60000) { float_all<double, ALL_B>(c); }
VF_MONITOR(float_l, 2000, 60000) { float_all<long double, ALL_B>(c); }

template<class F> void fmod_case(vf::Case& c)
{
    F b = std::ldexp(F(c.rng.real(-1, 1)), int(c.rng.range(-20, 20)));
    F a = std::ldexp(F(c.rng.real(-1, 1)), int(c.rng.range(-60, 40)));
    if (c.rng.chance(1, 3)) b = F(c.rng.range(-9, 9));
    if (c.rng.chance(1, 3)) a = F(c.rng.range(-40, 40)) * b;
    if (b == 0) return;
    F r = core::periodic_mod(a, b);
    VF_REQUIRE(b > 0 ? (r >= 0 && r < b) : (r <= 0 && r > b), "fmod_range", show_f(a) << " mod " << show_f(b) << " gave " << show_f(r));
    long double e = std::fmod((long double)a, (long double)b);
    if (e != 0 && (e < 0) != (b < 0)) e += b;
    long double d = std::fabs((long double)r - e);
    d = std::min(d, std::fabs(std::fabs((long double)b) - d));
    VF_REQUIRE(d <= std::fabs((long double)b) * std::numeric_limits<F>::epsilon(), "fmod_value", show_f(a) << " mod " << show_f(b) << " gave " << show_f(r));
    vf::Hash h;
    h.add(double(a)).add(double(b));
    c.nontrivial(h.get());
    F t = F(c.rng.real(-0.5, 1.5));
    F x = core::lerp(a, b, t);
    VF_REQUIRE(std::fabs((long double)x - ((1 - (long double)t) * a + (long double)t * b)) <= 4 * std::numeric_limits<F>::epsilon() * (std::fabs((long double)a) + std::fabs((long double)b)), "lerp", show_f(a));
    VF_REQUIRE(core::lerp(a, b, F(0)) == a && core::lerp(a, b, F(1)) == b, "lerp", show_f(a));
    VF_REQUIRE(core::abs(a) == std::fabs(a) && core::square(a) == a * a, "abs", show_f(a));
    VF_REQUIRE(std::fabs(core::rad_to_deg(core::deg_to_rad(a)) - a) <= 4 * std::numeric_limits<F>::epsilon() * std::fabs(a), "degrees", show_f(a));
}
VF_MONITOR(float_math, 20000, 400000) { fmod_case<float>(c); fmod_case<double>(c); fmod_case<long double>(c); }
