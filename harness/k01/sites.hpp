#pragma once
#include "k.hpp"

#include <cmath>
#include <limits>
#include <type_traits>

namespace k {

template<class T> std::string fmt(const T& v)
{
    if constexpr (std::is_same_v<T, bool>) {
        return v ? "1" : "0";
    }
    else if constexpr (std::is_same_v<T, char>) {
        return std::to_string(int(v)); // Characters are treated as integers
    }
    else if constexpr (std::is_integral_v<T>) {
        return std::to_string(v);
    }
    else if constexpr (std::is_floating_point_v<T>) {
        std::ostringstream o;
        o.precision(std::numeric_limits<T>::digits10 + 1);
        o << v;
        return o.str();
    }
    else if constexpr (std::is_convertible_v<T, std::string_view>) {
        return "\"" + std::string(std::string_view(v)) + "\"";
    }
    else {
        return "?";
    }
}

// Exact comparison of mixed arithmetic values
template<class A, class B> int cmp(const A& a, const B& b)
{
    // -1, 0, 1, or 2 if unordered
    if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) {
        __int128 x = a, y = b;
        return (x < y ? -1 : x > y ? 1 : 0);
    }
    else if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) {
        long double x = a, y = b; // Exact (64 bit mantissa)
        if (std::isnan(x) || std::isnan(y))
            return 2;
        return (x < y ? -1 : x > y ? 1 : 0);
    }
    else {
        std::string x(a), y(b);
        return (x < y ? -1 : x > y ? 1 : 0);
    }
}

template<class T> T draw(Gen& g)
{
    if constexpr (std::is_same_v<T, bool>) {
        return g.chance(1, 2);
    }
    else if constexpr (std::is_same_v<T, char>) {
        return char('a' + g.below(3));
    }
    else if constexpr (std::is_integral_v<T>) {
        using L = std::numeric_limits<T>;
        switch (g.below(6)) {
            case 0:
                return T(L::max() - T(g.below(3)));
            case 1:
                return T(L::min() + T(g.below(3)));
            case 2:
                return T(g.next());
            default:
                return T(std::int64_t(g.below(7)) - (std::is_signed_v<T> ? 3 : 0));
        }
    }
    else if constexpr (std::is_floating_point_v<T>) {
        switch (g.below(8)) {
            case 0:
                return T(9223372036854775808.0);
            case 1:
                return T(-9223372036854775808.0);
            case 2:
                return std::numeric_limits<T>::infinity();
            case 3:
                return T(4294967295.0);
            default:
                return T(double(std::int64_t(g.below(17)) - 8) / 4);
        }
    }
    else {
        static const char* const pool[] = { "", "a", "ab", "b", "foo", "foO" };
        return T(pool[g.below(6)]);
    }
}

template<class... T> Fail special(const char* macro, const char* args, const T&... v)
{
    std::string vals;
    ((vals += (vals.empty() ? "" : ", ") + fmt(v)), ...);
    Fail f;
    f.prefix = std::string(macro) + "(" + args + ") failed with (" + vals + ")";
    f.exact = true;
    return f;
}

inline Fail loose(std::string prefix, std::vector<std::string> parts = {})
{
    Fail f;
    f.prefix = std::move(prefix);
    f.parts = std::move(parts);
    return f;
}

inline Fail exact(std::string s)
{
    Fail f;
    f.prefix = std::move(s);
    f.exact = true;
    return f;
}

} // namespace k
