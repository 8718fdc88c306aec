#pragma once
#include <stdexcept>
#include <archon/core/integer.hpp>
#include "wide.hpp"

using namespace archon;

#define CTX "(" << tname<A>() << ") " << Z(a) << ", (" << tname<B>() << ") " << Z(b)

template<class A, class B, class C, class D> void one(const char* key, C&& checked, D&& attempt, bool can, A a, B b, Z exact)
{
    bool ok = fits<A>(exact);
    A x = a;
    bool r = attempt(x);
    VF_REQUIRE(r == ok, key, "try returned " << r << " for " << CTX << ", exact " << exact);
    VF_REQUIRE(Z(x).mag == Z(ok ? wrap<A>(exact) : a).mag && Z(x).neg == Z(ok ? wrap<A>(exact) : a).neg, key,
               "try gave " << Z(x) << " for " << CTX << ", exact " << exact);
    VF_REQUIRE(can == ok, key, "can returned " << can << " for " << CTX << ", exact " << exact);
    x = a;
    bool thrown = false;
    try { checked(x); }
    catch (const std::overflow_error&) { thrown = true; }
    VF_REQUIRE(thrown == !ok, key, "throwing form for " << CTX << ", exact " << exact);
    if (!thrown)
        VF_REQUIRE(cmp(Z(x), exact) == 0, key, "throwing form gave " << Z(x) << " for " << CTX);
    else
        VF_REQUIRE(cmp(Z(x), Z(a)) == 0, key, "operand changed: " << CTX);
}

template<class A, class B> void pair_arith(A a, B b)
{
    Z za(a), zb(b);
    int c = cmp(za, zb);
    VF_REQUIRE(core::int_equal(a, b) == (c == 0) && core::int_not_equal(a, b) == (c != 0) &&
               core::int_less(a, b) == (c < 0) && core::int_less_equal(a, b) == (c <= 0) &&
               core::int_greater(a, b) == (c > 0) && core::int_greater_equal(a, b) == (c >= 0),
               "compare", CTX);
    one<A, B>("add", [&](A& x) { core::int_add(x, b); }, [&](A& x) { return core::try_int_add(x, b); },
              core::can_int_add(a, b), a, b, add(za, zb));
    one<A, B>("sub", [&](A& x) { core::int_sub(x, b); }, [&](A& x) { return core::try_int_sub(x, b); },
              core::can_int_sub(a, b), a, b, sub(za, zb));
    one<A, B>("mul", [&](A& x) { core::int_mul(x, b); }, [&](A& x) { return core::try_int_mul(x, b); },
              core::can_int_mul(a, b), a, b, mul(za, zb));
    // Power
    {
        Z p(false, 1);
        if (!zb.neg) {
            if (za.mag <= 1) {
                if (zb.mag != 0)
                    p = Z(za.neg && (zb.mag & 1) != 0, za.mag);
            }
            else {
                for (U128 i = 0; i < zb.mag && !p.huge; ++i) {
                    p = mul(p, za);
                    if (p.mag > (U128(1) << 66))
                        p.huge = true;
                }
            }
        }
        else {
            if (za.mag == 0)
                p.huge = true;
            else if (za.mag == 1)
                p = Z(za.neg && (zb.mag & 1) != 0, 1);
            else
                p = Z(false, 0);
        }
        bool ok = fits<A>(p);
        one<A, B>("pow", [&](A& x) { core::int_pow(x, b); }, [&](A& x) { return core::try_int_pow(x, b); },
                  ok, a, b, p);
    }
    // Periodic modulo
    if (zb.mag != 0) {
        U128 m = za.mag % zb.mag;
        Z e(za.neg, m);
        // e has the sign of a
        if (m != 0 && za.neg != zb.neg)
            e = add(e, zb);
        B r = core::int_periodic_mod(a, b);
        VF_REQUIRE(cmp(Z(r), e) == 0, "periodic_mod", CTX << " gave " << Z(r) << ", exact " << e);
    }
    if (!za.neg && !zb.neg && zb.mag != 0) {
        U128 q = za.mag / zb.mag, m = za.mag % zb.mag;
        Z up(false, q + (m != 0));
        Z half(false, q + (2 * m > zb.mag));
        A r1 = core::int_div_round_up(a, b);
        VF_REQUIRE(cmp(Z(r1), up) == 0, "div_round_up", CTX << " gave " << Z(r1));
        A r2 = core::int_div_round_half_down(a, b);
        VF_REQUIRE(cmp(Z(r2), half) == 0, "div_round_half_down", CTX << " gave " << Z(r2));
    }
}

#undef CTX
#define CTX "(" << tname<F>() << ") " << Z(a) << " to " << tname<T>()

template<int sel, class T, class F> void cast_family(const char* key, F a, bool ok, T expect)
{
    T x = T(3);
    bool can, attempt;
    T x_a;
    bool thrown = false;
    T y = {};
    try {
        if constexpr (sel == 0) y = core::int_cast<T>(a);
        else if constexpr (sel == 1) y = core::cast_to_twos_compl<T>(a);
        else if constexpr (sel == 2) y = core::cast_from_twos_compl<T>(a);
        else y = core::twos_compl_cast<T>(a);
    }
    catch (const std::overflow_error&) { thrown = true; }
    if constexpr (sel == 0) {
        can = core::can_int_cast<T>(a); attempt = core::try_int_cast<T>(a, x); x_a = core::int_cast_a<T>(a);
    }
    else if constexpr (sel == 1) {
        can = core::can_cast_to_twos_compl<T>(a); attempt = core::try_cast_to_twos_compl<T>(a, x);
        x_a = core::cast_to_twos_compl_a<T>(a);
    }
    else if constexpr (sel == 2) {
        can = core::can_cast_from_twos_compl<T>(a); attempt = core::try_cast_from_twos_compl<T>(a, x);
        x_a = core::cast_from_twos_compl_a<T>(a);
    }
    else {
        can = core::can_twos_compl_cast<T>(a); attempt = core::try_twos_compl_cast<T>(a, x);
        x_a = core::twos_compl_cast_a<T>(a);
    }
    VF_REQUIRE(can == ok && attempt == ok && thrown == !ok, key, "sel " << sel << ": " << CTX << ": can " << can << " try " << attempt << " thrown " << thrown << ", should succeed " << ok);
    if (ok) {
        VF_REQUIRE(x == expect && y == expect && x_a == expect, key, "sel " << sel << ": " << CTX << " gave " << Z(x) << " " << Z(y) << " " << Z(x_a) << ", exact " << Z(expect));
        if (sel == 0) {
            T z = {};
            core::int_cast(a, z);
            VF_REQUIRE(z == expect, key, CTX);
        }
    }
    else {
        VF_REQUIRE(x == T(3), key, "target changed: " << CTX);
    }
}

template<class F> Z as_twos(F a)
{
    // Interpret bits of unsigned value as two's complement
    if constexpr (std::is_unsigned_v<F>) {
        int w = std::numeric_limits<F>::digits;
        U128 m = U128(a);
        if ((m >> (w - 1)) & 1)
            return Z(true, (U128(1) << w) - m);
        return Z(false, m);
    }
    else {
        return Z(a);
    }
}
template<class T> bool fits_twos(const Z& v)
{
    if constexpr (std::is_unsigned_v<T>) {
        int w = std::numeric_limits<T>::digits;
        U128 lim = U128(1) << (w - 1);
        return v.neg ? v.mag <= lim : v.mag < lim;
    }
    else {
        return fits<T>(v);
    }
}

template<class F, class T> void pair_cast(F a, T lo, T hi)
{
    Z z(a);
    cast_family<0, T, F>("int_cast", a, fits<T>(z), wrap<T>(z));
    if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<F, bool>) {
        cast_family<1, T, F>("to_twos_compl", a, fits_twos<T>(z), wrap<T>(z));
        Z s = as_twos(a);
        cast_family<2, T, F>("from_twos_compl", a, fits<T>(s), wrap<T>(s));
        cast_family<3, T, F>("twos_compl", a, fits_twos<T>(s), wrap<T>(s));
    }
    // Casts without check: modulo 2**N when the target is unsigned
    if constexpr (std::is_unsigned_v<T>)
        VF_REQUIRE(core::int_cast_a<T>(a) == wrap<T>(z), "int_cast_a", CTX << " gave " << Z(core::int_cast_a<T>(a)));
    if (hi < lo)
        std::swap(lo, hi);
    T e = cmp(z, Z(lo)) < 0 ? lo : cmp(z, Z(hi)) > 0 ? hi : wrap<T>(z);
    T r = core::int_cast_clamp<T>(a, lo, hi);
    VF_REQUIRE(r == e, "int_cast_clamp", CTX << " in " << Z(lo) << ".." << Z(hi) << " gave " << Z(r));
    T r2 = {};
    core::int_cast_clamp(a, r2, lo, hi);
    VF_REQUIRE(r2 == e, "int_cast_clamp", CTX);
    core::int_cast_clamp(a, r2);
    e = fits<T>(z) ? wrap<T>(z) : z.neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    VF_REQUIRE(r2 == e, "int_cast_clamp", CTX << " gave " << Z(r2));
}
#undef CTX

// 8-bit types are enumerated, other values are drawn around the limits.
template<class A, class B> void pair_case(vf::Case& c, int n)
{
    vf::Hash h;
    for (int i = 0; i < n; ++i) {
        A a = interesting<A>(c.rng);
        B b = interesting<B>(c.rng);
        if (c.rng.chance(1, 4))
            b = wrap<B>(c.rng.chance(1, 2) ? Z(a) : sub(Z(c.rng.chance(1, 2) ? std::numeric_limits<A>::max() : std::numeric_limits<A>::min()), Z(a)));
        if (c.rng.chance(1, 8) && Z(a).mag > 1) {
            // Around the largest factor
            Z f(c.rng.chance(1, 2), Z(c.rng.chance(1, 2) ? std::numeric_limits<A>::max() : std::numeric_limits<A>::min()).mag / Z(a).mag + c.rng.below(3) - 1);
            b = wrap<B>(f);
        }
        if (c.rng.chance(1, 8)) // Exponents
            b = wrap<B>(Z(c.rng.chance(1, 4), c.rng.below(70)));
        pair_arith(a, b);
        pair_cast<A, B>(a, interesting<B>(c.rng), b);
        h.add(a).add(b);
    }
    c.event("pairs", std::uint64_t(n));
    c.nontrivial(h.get());
    c.sample([&] { return std::string(tname<A>()) + " op " + tname<B>(); });
}

template<class A, class... B> void all_b(vf::Case& c, int n) { (pair_case<A, B>(c, n), ...); }

template<class A, class B> void exhaust_case(vf::Case& c)
{
    // case index selects a, all b
    long lo = long(std::numeric_limits<A>::min());
    long span = long(std::numeric_limits<A>::max()) - lo + 1;
    A a = A(lo + long((c.total >= 256 ? c.index : 2 * c.index + c.rng.below(2)) % std::uint64_t(span)));
    for (long b = long(std::numeric_limits<B>::min()); b <= long(std::numeric_limits<B>::max()); ++b) {
        pair_arith(a, B(b));
        pair_cast<A, B>(a, interesting<B>(c.rng), B(b));
    }
    c.event("pairs", 256);
    vf::Hash h;
    h.add(a).add(std::string_view(tname<A>())).add(std::string_view(tname<B>()));
    c.nontrivial(h.get());
}

#define ALL_B bool, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long
