// C05: exact oracle for integer arithmetic (sign and 128-bit magnitude), independent of Archon
#pragma once
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>
#include <vf.hpp>

using U128 = unsigned __int128;

struct Z {
    bool neg = false;
    U128 mag = 0;
    bool huge = false; // Magnitude does not fit
    Z() = default;
    Z(bool n, U128 m) : neg(n && m != 0), mag(m) {}
    template<class T> requires std::is_integral_v<T> Z(T v)
    {
        if constexpr (std::is_same_v<T, bool>) {
            mag = v ? 1 : 0;
        }
        else {
            neg = v < T(0);
            mag = neg ? U128(-__int128(v)) : U128(v);
        }
    }
};

inline Z neg(Z a) { Z r(!a.neg, a.mag); r.huge = a.huge; return r; }
inline int cmp(const Z& a, const Z& b)
{
    if (a.neg != b.neg)
        return a.neg ? -1 : 1;
    int m = a.mag < b.mag ? -1 : a.mag > b.mag ? 1 : 0;
    return a.neg ? -m : m;
}
inline Z add(const Z& a, const Z& b)
{
    if (a.neg == b.neg)
        return Z(a.neg, a.mag + b.mag);
    return a.mag >= b.mag ? Z(a.neg, a.mag - b.mag) : Z(b.neg, b.mag - a.mag);
}
inline Z sub(const Z& a, const Z& b) { return add(a, neg(b)); }
inline Z mul(const Z& a, const Z& b)
{
    Z r(a.neg != b.neg, a.mag * b.mag);
    if (a.mag != 0 && (a.mag * b.mag) / a.mag != b.mag)
        r.huge = true;
    if ((a.mag >> 64) != 0 && (b.mag >> 64) != 0)
        r.huge = true;
    return r;
}
template<class T> bool fits(const Z& a)
{
    if (a.huge)
        return false;
    return cmp(a, Z(std::numeric_limits<T>::min())) >= 0 && cmp(a, Z(std::numeric_limits<T>::max())) <= 0;
}
// Value modulo 2**digits, or two's complement for signed.
template<class T> T wrap(const Z& a)
{
    U128 m = a.neg ? -a.mag : a.mag;
    if constexpr (std::is_same_v<T, bool>)
        return (m & 1) != 0;
    else
        return T(m);
}
inline std::string show_z(const Z& a)
{
    std::string s;
    U128 m = a.mag;
    do { s.insert(s.begin(), char('0' + int(m % 10))); m /= 10; } while (m != 0);
    if (a.huge) s = "huge";
    return (a.neg ? "-" : "") + s;
}
inline std::ostream& operator<<(std::ostream& o, const Z& a) { return o << show_z(a); }

template<class T> const char* tname()
{
    if constexpr (std::is_same_v<T, bool>) return "bool";
    else if constexpr (std::is_same_v<T, char>) return "char";
    else if constexpr (std::is_same_v<T, signed char>) return "schar";
    else if constexpr (std::is_same_v<T, unsigned char>) return "uchar";
    else if constexpr (std::is_same_v<T, short>) return "short";
    else if constexpr (std::is_same_v<T, unsigned short>) return "ushort";
    else if constexpr (std::is_same_v<T, int>) return "int";
    else if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
    else if constexpr (std::is_same_v<T, long>) return "long";
    else if constexpr (std::is_same_v<T, unsigned long>) return "ulong";
    else if constexpr (std::is_same_v<T, long long>) return "llong";
    else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
    else if constexpr (std::is_same_v<T, wchar_t>) return "wchar";
    else if constexpr (std::is_same_v<T, char8_t>) return "char8";
    else if constexpr (std::is_same_v<T, char16_t>) return "char16";
    else return "other";
}

// A value with emphasis on the limits of this and other types.
template<class T> T interesting(vf::Rng& r)
{
    U128 m;
    switch (r.below(6)) {
        case 0: m = U128(r.below(12)); break;
        case 1: {
            m = (U128(1) << r.below(65)) + U128(r.below(5)) - 2;
            break;
        }
        case 2: {
            std::uint64_t x = r.next();
            m = x >> r.below(64);
            break;
        }
        case 3: {
            m = U128(std::numeric_limits<T>::max()) - U128(r.below(4));
            break;
        }
        case 4: {
            m = U128(__int128(std::numeric_limits<T>::min())) + U128(r.below(4));
            break;
        }
        default: {
            // Close to a square root of a limit
            long double s = __builtin_sqrtl((long double)(std::numeric_limits<T>::max()) * (r.chance(1, 2) ? 1.0L : 2.0L));
            m = U128(s) + U128(r.below(5)) - 2;
            break;
        }
    }
    if (r.chance(1, 2))
        m = -m;
    return wrap<T>(Z(false, m));
}
