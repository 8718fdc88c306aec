#include <archon/core/super_int.hpp>
#include <archon/core/ext_int_type.hpp>
#include "mp.hpp"
using A = core::MulPrecInt<unsigned char, 1, true>;
using A2 = core::MulPrecInt<unsigned char, 5, false>;
using B = core::MulPrecInt<unsigned short, 3, true>;
using D = core::MulPrecInt<unsigned long, 2, false>;
using E = core::MulPrecInt<unsigned, 3, true>;
template<class T, class... F> void mixed(vf::Case& c) { (mp_mixed<T, F>(c), ...); }
VF_MONITOR(mixed_mp, 1500, 50000, VF_NO_LEAK_CHECK)
{
    mixed<A, A2, B, D, E>(c);
    mixed<D, A, B, E>(c);
    mixed<E, A2, D>(c);
    c.nontrivial(c.rng.next());
}

// 65-bit two's complement integers
using core::SuperInt;
static Big sup(SuperInt s) { return s.get_sign_bit() ? Big(Big(s.get_value()) - pow2(64)) : Big(s.get_value()); }
static Big wrap65(Big v)
{
    Big m = pow2(65);
    v %= m;
    if (v < 0) v += m;
    if (v >= pow2(64)) v -= m;
    return v;
}
static SuperInt mk(const Big& v) { return SuperInt((unsigned long)(v < 0 ? Big(v + pow2(64)) : v), v < 0); }
#define SIS(expr, exact, key) VF_REQUIRE(sup(expr) == (exact), key, "SuperInt a " << str(x) << " b " << str(y) << " gave " << str(sup(expr)) << " exact " << str(exact))
template<class T> static void sup_cast(const Big& x)
{
    T t = T(1);
    SuperInt a = mk(x);
    bool ok = fitsb<T>(x);
    VF_EQ(a.get_as(t), ok, "super_get_as", str(x) << " " << tn<T>());
    VF_REQUIRE(t == (ok ? make<T>(x) : T(1)), "super_get_as", str(x) << " " << tn<T>());
    VF_EQ(a.cast_has_overflow<T>(), !ok, "super_get_as", str(x) << " " << tn<T>());
    T u = make<T>(x);
    VF_REQUIRE(sup(SuperInt(u)) == Tr<T>::to(u), "super_construct", str(x) << " " << tn<T>());
}
VF_MONITOR(super_int, 12000, 300000, VF_NO_LEAK_CHECK)
{
    auto gen = [&] {
        Big v;
        switch (c.rng.below(5)) {
            case 0: v = c.rng.range(-5, 5); break;
            case 1: v = pow2(int(c.rng.below(65))) + c.rng.range(-2, 2); break;
            case 2: v = pow2(64) + c.rng.range(-3, 3); break;
            default: v = Big(c.rng.next()) >> unsigned(c.rng.below(64)); break;
        }
        if (c.rng.chance(1, 2)) v = -v;
        return wrap65(v);
    };
    Big x = gen(), y = gen();
    if (c.rng.chance(1, 5) && y != 0) x = wrap65(pow2(64) / y + c.rng.range(-2, 2));
    SuperInt a = mk(x), b = mk(y);
    SIS(a, x, "super_value");
    SIS(-a, wrap65(-x), "super_neg");
    SIS(~a, wrap65(-x - 1), "super_not");
    SIS(a + b, wrap65(x + y), "super_add");
    SIS(a - b, wrap65(x - y), "super_sub");
    SIS(a * b, wrap65(x * y), "super_mul");
    if (y != 0) {
        SIS(a / b, wrap65(x / y), "super_div");
        SIS(a % b, wrap65(x % y), "super_rem");
        SuperInt t = a;
        bool o = t.divide_with_overflow_detect(b);
        Big q = x / y;
        VF_EQ(o, wrap65(q) != q, "super_div_overflow", str(x) << " " << str(y));
        SIS(t, (o ? x : q), "super_div_overflow");
    }
    auto ov = [&](const char* key, bool (SuperInt::*f)(SuperInt) noexcept, const Big& e) {
        SuperInt t = a;
        bool o = (t.*f)(b);
        VF_EQ(o, wrap65(e) != e, key, str(x) << " " << str(y));
        SIS(t, (o ? x : e), key);
    };
    ov("super_add_overflow", &SuperInt::add_with_overflow_detect, x + y);
    ov("super_sub_overflow", &SuperInt::subtract_with_overflow_detect, x - y);
    ov("super_mul_overflow", &SuperInt::multiply_with_overflow_detect, x * y);
    Big m = pow2(65), ux = x < 0 ? Big(x + m) : x, uy = y < 0 ? Big(y + m) : y;
    SIS(a & b, wrap65(ux & uy), "super_and");
    SIS(a | b, wrap65(ux | uy), "super_or");
    SIS(a ^ b, wrap65(ux ^ uy), "super_xor");
    int n = int(c.rng.below(64));
    SIS(a << n, wrap65(ux << unsigned(n)), "super_shl");
    SIS(a >> n, wrap65(ux >> unsigned(n)), "super_shr");
    VF_REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) &&
               (a > b) == (x > y) && (a >= b) == (x >= y), "super_compare", str(x) << " " << str(y));
    std::ostringstream out;
    out << a;
    VF_EQ(out.str(), str(x), "super_output", "");
    sup_cast<bool>(x); sup_cast<signed char>(x); sup_cast<unsigned char>(x); sup_cast<short>(x); sup_cast<unsigned short>(x);
    sup_cast<int>(x); sup_cast<unsigned>(x); sup_cast<long>(x); sup_cast<unsigned long>(x);
    SIS(SuperInt::max(), Big(pow2(64) - 1), "super_max");
    SIS(SuperInt::min(), Big(-pow2(64)), "super_min");
    vf::Hash h;
    h.add(std::string_view(str(x))).add(std::string_view(str(y)));
    c.nontrivial(h.get());
}

// Types by width
template<int N> static void ext(vf::Case& c)
{
    using S = core::least_signed_ext_int_type<N>;
    using U = core::least_unsigned_ext_int_type<N>;
    using FS = core::fast_signed_ext_int_type<N>;
    using FU = core::fast_unsigned_ext_int_type<N>;
    static_assert(core::int_width<S>() >= N && core::int_width<U>() >= N && core::int_width<FS>() >= N && core::int_width<FU>() >= N);
    static_assert(core::is_signed<S>() && core::is_signed<FS>() && !core::is_signed<U>() && !core::is_signed<FU>());
    Big v = Big(c.rng.next());
    for (int i = 0; i < N / 32; ++i)
        v = v * Big(c.rng.next()) + Big(c.rng.next());
    v %= pow2(N - 1);
    S s = make<S>(-v - 1);
    VF_REQUIRE(Tr<S>::to(s) == -v - 1, "ext_int", N);
    VF_REQUIRE(Tr<S>::to(S(~s)) == v, "ext_int", N);
    U u = make<U>(v);
    VF_REQUIRE(Tr<U>::to(U(u + U(u))) == 2 * v, "ext_int", N);
    FS fs = make<FS>(-v - 1);
    FU fu = make<FU>(v);
    VF_REQUIRE(Tr<FS>::to(fs) == -v - 1 && Tr<FU>::to(fu) == v, "ext_int", N);
    VF_REQUIRE(core::int_cast<S>(fs) == s && core::int_cast<U>(fu) == u, "ext_int", N);
}
VF_MONITOR(ext_int, 200, 2000, VF_NO_LEAK_CHECK)
{
    ext<1>(c); ext<2>(c); ext<7>(c); ext<8>(c); ext<9>(c); ext<16>(c); ext<17>(c); ext<31>(c); ext<32>(c); ext<33>(c); ext<63>(c); ext<64>(c);
    ext<65>(c); ext<128>(c); ext<129>(c); ext<200>(c);
    c.nontrivial(c.rng.next());
}
