// C06: fixed-width multi-precision integers against boost::multiprecision::cpp_int
#pragma once
#include <array>
#include <limits>
#include <locale>
#include <sstream>
#include <stdexcept>
#include <string>
#include <boost/multiprecision/cpp_int.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/mul_prec_int.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/as_int.hpp>
#include <vf.hpp>

using namespace archon;
using Big = boost::multiprecision::cpp_int;

inline Big pow2(int n) { return Big(1) << unsigned(n); }
inline std::string str(const Big& b) { return b.str(); }

template<class T> struct Tr {
    static constexpr bool sgn = std::numeric_limits<T>::is_signed;
    static constexpr int width = std::numeric_limits<T>::digits + sgn;
    static constexpr bool mp = false;
    static Big to(T v) { return Big(v); }
    static T from_bits(const Big& m) // m in [0, 2**width)
    {
        if constexpr (width == 1)
            return m != 0;
        else
            return T(m.convert_to<unsigned long long>());
    }
};
template<class P, int N, bool S> struct Tr<core::MulPrecInt<P, N, S>> {
    using T = core::MulPrecInt<P, N, S>;
    static constexpr bool sgn = S;
    static constexpr int pw = std::numeric_limits<P>::digits;
    static constexpr int width = pw * N;
    static constexpr bool mp = true;
    static Big to(T v)
    {
        Big r = 0;
        auto parts = v.get_parts();
        for (int i = N; i-- > 0;)
            r = (r << pw) | Big(parts[i]);
        if (S && bit_test(r, width - 1))
            r -= pow2(width);
        return r;
    }
    static T from_bits(const Big& m)
    {
        typename T::parts_type parts = {};
        for (int i = 0; i < N; ++i)
            parts[i] = P(((m >> (pw * i)) & (pow2(pw) - 1)).template convert_to<unsigned long long>());
        return T(parts);
    }
};
template<class T> Big wrapb(Big v)
{
    Big m = pow2(Tr<T>::width);
    v %= m;
    if (v < 0) v += m;
    if (Tr<T>::sgn && v >= m / 2) v -= m;
    return v;
}
template<class T> T make(Big v)
{
    Big m = pow2(Tr<T>::width);
    v %= m;
    if (v < 0) v += m;
    return Tr<T>::from_bits(v);
}
template<class T> Big minb() { return Tr<T>::sgn ? Big(-pow2(Tr<T>::width - 1)) : Big(0); }
template<class T> Big maxb() { return pow2(Tr<T>::width - Tr<T>::sgn) - 1; }
template<class T> bool fitsb(const Big& v) { return v >= minb<T>() && v <= maxb<T>(); }

template<class T> Big rnd(vf::Rng& r)
{
    constexpr int w = Tr<T>::width;
    Big v = 0;
    switch (r.below(7)) {
        case 0: v = r.range(-6, 6); break;
        case 1: v = pow2(int(r.below(w + 1))) + r.range(-2, 2); break;
        case 2: v = pow2(int(r.below(w + 1))) - pow2(int(r.below(w + 1))); break;
        case 3: v = (r.chance(1, 2) ? minb<T>() : maxb<T>()) + r.range(-2, 2); break;
        default: {
            for (int i = 0; i < w; i += 32)
                v = (v << 32) | Big(std::uint32_t(r.chance(1, 4) ? (r.chance(1, 2) ? 0 : -1) : r.next()));
            v >>= unsigned(r.below(w));
            break;
        }
    }
    if (r.chance(1, 2)) v = -v;
    return wrapb<T>(v);
}

template<class T> std::string tn() { return std::string(Tr<T>::sgn ? "s" : "u") + (Tr<T>::mp ? "mp" : "") + std::to_string(Tr<T>::width); }

#define IS(expr, exact, key, ...) VF_REQUIRE(Tr<T>::to(expr) == (exact), key, tn<T>() << ": " << __VA_ARGS__ << " gave " << str(Tr<T>::to(expr)) << ", exact " << str(exact))
#define AB "a " << str(x) << " b " << str(y)

template<class T> void mp_ops(vf::Case& c)
{
    constexpr int w = Tr<T>::width;
    Big x = rnd<T>(c.rng), y = rnd<T>(c.rng);
    if (c.rng.chance(1, 6)) y = x + c.rng.range(-1, 1);
    if (c.rng.chance(1, 6) && y != 0) x = y * rnd<T>(c.rng) + c.rng.range(-1, 1);
    x = wrapb<T>(x); y = wrapb<T>(y);
    T a = make<T>(x), b = make<T>(y);
    IS(a, x, "value", AB);
    IS(+a, x, "plus", AB);
    IS(-a, wrapb<T>(-x), "neg", AB);
    IS(~a, wrapb<T>(-x - 1), "not", AB);
    IS(a + b, wrapb<T>(x + y), "add", AB);
    IS(a - b, wrapb<T>(x - y), "sub", AB);
    IS(a * b, wrapb<T>(x * y), "mul", AB);
    Big m = pow2(w), ux = x < 0 ? Big(x + m) : x, uy = y < 0 ? Big(y + m) : y;
    IS(a & b, wrapb<T>(ux & uy), "and", AB);
    IS(a | b, wrapb<T>(ux | uy), "or", AB);
    IS(a ^ b, wrapb<T>(ux ^ uy), "xor", AB);
    if (y != 0) {
        Big q = x / y, r = x % y; // Truncates toward zero
        IS(a / b, wrapb<T>(q), "div", AB);
        IS(a % b, wrapb<T>(r), "rem", AB);
        auto dm = a.divmod(b);
        IS(dm.quot, wrapb<T>(q), "divmod", AB);
        IS(dm.rem, wrapb<T>(r), "divmod", AB);
        auto dm2 = core::int_divmod(a, b);
        IS(dm2.quot, wrapb<T>(q), "divmod", AB);
        IS(dm2.rem, wrapb<T>(r), "divmod", AB);
        T t = a; t /= b; IS(t, wrapb<T>(q), "div_assign", AB);
        t = a; t %= b; IS(t, wrapb<T>(r), "rem_assign", AB);
        c.event("divisions");
    }
    for (int n : { 0, 1, w - 1, int(c.rng.below(w)), int(c.rng.below(w)) }) {
        if (n >= w) continue;
        IS(a << n, wrapb<T>(ux << unsigned(n)), "shl", AB << " n " << n);
        // Right shift works on the bits of the representation
        IS(a >> n, wrapb<T>(ux >> unsigned(n)), "shr", AB << " n " << n);
        T t = a; t <<= n; IS(t, wrapb<T>(ux << unsigned(n)), "shl_assign", AB);
        t = a; t >>= n; IS(t, wrapb<T>(ux >> unsigned(n)), "shr_assign", AB);
    }
    { T t = a; t += b; IS(t, wrapb<T>(x + y), "add_assign", AB); }
    { T t = a; t -= b; IS(t, wrapb<T>(x - y), "sub_assign", AB); }
    { T t = a; t *= b; IS(t, wrapb<T>(x * y), "mul_assign", AB); }
    { T t = a; t &= b; IS(t, wrapb<T>(ux & uy), "and_assign", AB); }
    { T t = a; t |= b; IS(t, wrapb<T>(ux | uy), "or_assign", AB); }
    { T t = a; t ^= b; IS(t, wrapb<T>(ux ^ uy), "xor_assign", AB); }
    { T t = a; t -= t; IS(t, Big(0), "alias", AB); t = a; t += t; IS(t, wrapb<T>(2 * x), "alias", AB); t = a; t *= t; IS(t, wrapb<T>(x * x), "alias", AB); }
    VF_REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) &&
               (a > b) == (x > y) && (a >= b) == (x >= y), "compare", tn<T>() << ": " << AB);
    VF_REQUIRE(a.is_nonneg() == (x >= 0), "nonneg", AB);
    IS(T::min(), minb<T>(), "min", "");
    IS(T::max(), maxb<T>(), "max", "");
    int msb = x == 0 ? -1 : int(boost::multiprecision::msb(ux));
    VF_EQ(a.find_msb_pos(), msb, "msb", tn<T>() << ": " << AB);
    VF_EQ(core::int_find_msb_pos(a), msb, "msb", tn<T>() << ": " << AB);
    // Generic integer functions
    {
        bool r;
        T t = a;
        r = core::try_int_add(t, b);
        VF_EQ(r, fitsb<T>(x + y), "try_add", tn<T>() << ": " << AB);
        IS(t, (r ? Big(x + y) : x), "try_add", AB);
        t = a;
        r = core::try_int_sub(t, b);
        VF_EQ(r, fitsb<T>(x - y), "try_sub", tn<T>() << ": " << AB);
        IS(t, (r ? Big(x - y) : x), "try_sub", AB);
        t = a;
        r = core::try_int_mul(t, b);
        VF_EQ(r, fitsb<T>(x * y), "try_mul", tn<T>() << ": " << AB);
        IS(t, (r ? Big(x * y) : x), "try_mul", AB);
    }
    vf::Hash h;
    h.add(std::string_view(str(x))).add(std::string_view(str(y))).add(std::string_view(tn<T>()));
    c.nontrivial(h.get());
    c.event("operand_pairs");
    c.sample([&] { return tn<T>() + ": " + str(x) + " op " + str(y); });
}

// Heterogeneous operations and conversions
template<class T, class F> void mp_mixed(vf::Case& c)
{
    Big x = rnd<F>(c.rng), y = rnd<T>(c.rng);
    if (c.rng.chance(1, 3) && fitsb<T>(x)) y = x + c.rng.range(-1, 1);
    if (c.rng.chance(1, 4)) y = maxb<T>() - x;
    y = wrapb<T>(y);
    F a = make<F>(x);
    T b = make<T>(y);
    auto where = [&] { return tn<F>() + " " + str(x) + " and " + tn<T>() + " " + str(y); };
    T t = b;
    bool ok = core::try_int_cast<T>(a, t);
    VF_EQ(ok, fitsb<T>(x), "int_cast", where());
    VF_EQ(core::can_int_cast<T>(a), ok, "int_cast", where());
    IS(t, (ok ? x : y), "int_cast", where());
    bool thrown = false;
    try { t = core::int_cast<T>(a); } catch (const std::overflow_error&) { thrown = true; }
    VF_EQ(thrown, !ok, "int_cast", where());
    IS(core::int_cast_a<T>(a), wrapb<T>(x), "int_cast_a", where());
    if constexpr (Tr<T>::mp && !Tr<F>::mp) {
        IS(T(a), wrapb<T>(x), "construct", where());
        if (ok || !Tr<F>::sgn)
            VF_REQUIRE(Tr<F>::to(F(b)) == wrapb<F>(y), "convert", where());
    }
    if constexpr (!Tr<F>::sgn && Tr<T>::sgn && Tr<F>::width > 1) {
        Big s = bit_test(x, Tr<F>::width - 1) ? Big(x - pow2(Tr<F>::width)) : x;
        if (fitsb<T>(s))
            IS(core::cast_from_twos_compl_a<T>(a), s, "from_twos_compl", where());
    }
    int cm = x < y ? -1 : x > y ? 1 : 0;
    VF_REQUIRE(core::int_equal(a, b) == (cm == 0) && core::int_less(a, b) == (cm < 0) && core::int_less_equal(a, b) == (cm <= 0) &&
               core::int_greater(a, b) == (cm > 0) && core::int_greater_equal(a, b) == (cm >= 0) && core::int_not_equal(a, b) == (cm != 0), "compare_mixed", where());
    t = b;
    bool r = core::try_int_add(t, a);
    VF_EQ(r, fitsb<T>(y + x), "try_add", where());
    IS(t, (r ? Big(y + x) : y), "try_add", where());
    t = b;
    r = core::try_int_sub(t, a);
    VF_EQ(r, fitsb<T>(y - x), "try_sub", where());
    IS(t, (r ? Big(y - x) : y), "try_sub", where());
    t = b;
    r = core::try_int_mul(t, a);
    VF_EQ(r, fitsb<T>(y * x), "try_mul", where());
    IS(t, (r ? Big(y * x) : y), "try_mul", where());
    c.event("mixed");
}

template<class T> void mp_text(vf::Case& c)
{
    Big x = rnd<T>(c.rng);
    T a = make<T>(x);
    std::ostringstream out;
    out.imbue(std::locale::classic());
    out << a;
    VF_EQ(out.str(), str(x), "output", tn<T>());
    std::istringstream in(str(x));
    in.imbue(std::locale::classic());
    T t = {};
    in >> t;
    VF_REQUIRE(!in.fail() && Tr<T>::to(t) == x, "input", tn<T>() << " " << str(x));
    core::ValueFormatter formatter(std::locale::classic());
    VF_EQ(std::string(formatter.format(a)), str(x), "output", tn<T>());
    core::ValueParser parser(std::locale::classic());
    // Values around and outside the limits
    Big y = x;
    switch (c.rng.below(4)) {
        case 0: y = maxb<T>() + c.rng.range(-2, 2); break;
        case 1: y = minb<T>() + c.rng.range(-2, 2); break;
        case 2: y = x * Big(c.rng.range(1, 1000)); break;
        default: break;
    }
    bool representable = fitsb<T>(y);
    t = make<T>(Big(1));
    bool r = parser.parse(str(y), t);
    VF_EQ(r, representable, "parse", tn<T>() << " " << str(y));
    IS(t, (r ? y : Big(1)), "parse", str(y));
    int base = int(c.rng.range(2, 36));
    std::string digits;
    Big ax = x < 0 ? Big(-x) : x;
    while (ax != 0) {
        digits.insert(digits.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(ax % base).convert_to<int>()]);
        ax /= base;
    }
    int nd = int(digits.size());
    VF_EQ(core::int_num_digits(a, base), nd, "num_digits", tn<T>() << " " << str(x) << " base " << base);
    if (digits.empty()) digits = "0";
    if (x < 0) digits.insert(0, "-");
    VF_EQ(std::string(formatter.format(core::as_int_a(a, base))), digits, "format_base", tn<T>() << " " << str(x) << " base " << base);
    t = make<T>(Big(1));
    VF_REQUIRE(parser.parse(digits, core::as_int_a(t, base)) && Tr<T>::to(t) == x, "parse_base", tn<T>() << " " << digits << " base " << base);
    if (x >= 0) {
        Big s = sqrt(x);
        if (Tr<T>::width > 8 || x > 3)
            IS(core::int_sqrt(a), s, "sqrt", str(x));
    }
    c.event("text");
    c.nontrivial(vf::hash_bytes(digits.data(), digits.size(), base));
}

template<class P, int N> void all(vf::Case& c)
{
    mp_ops<core::MulPrecInt<P, N, false>>(c);
    mp_ops<core::MulPrecInt<P, N, true>>(c);
}
template<class P> void parts(vf::Case& c) { all<P, 1>(c); all<P, 2>(c); all<P, 5>(c); }
