#pragma once
#include <locale>
#include <sstream>
#include <string>
#include <string_view>
#include <vf.hpp>

template<class C> using Str = std::basic_string<C>;

template<class C> Str<C> W(std::string_view s)
{
    return Str<C>(s.begin(), s.end());
}

template<class C> std::string shw(const Str<C>& s)
{
    std::ostringstream o;
    o << "\"";
    for (C ch : s) {
        auto v = static_cast<unsigned long>(std::make_unsigned_t<C>(ch));
        if (v >= 32 && v < 127 && v != '"' && v != '\\')
            o << char(v);
        else
            o << "\\{" << std::hex << v << std::dec << "}";
    }
    o << "\"";
    return o.str();
}

// A randomly configured stream: width, fill, adjustment
template<class C> struct Stream {
    std::basic_ostringstream<C> out;
    std::size_t width = 0;
    C fill = C(' ');
    bool left = false;

    explicit Stream(vf::Case& c, bool with_width = true)
    {
        out.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        if (with_width && c.rng.chance(1, 3)) {
            width = c.rng.below(40);
            out.width(std::streamsize(width));
        }
        if (c.rng.chance(1, 2)) {
            fill = C('*');
            out.fill(fill);
        }
        if (c.rng.chance(1, 2)) {
            left = true;
            out.setf(std::ios_base::left, std::ios_base::adjustfield);
        }
        else if (c.rng.chance(1, 2)) {
            out.setf(std::ios_base::right, std::ios_base::adjustfield);
        }
    }

    Str<C> pad(const Str<C>& s) const
    {
        if (s.size() >= width)
            return s;
        Str<C> p(width - s.size(), fill);
        return left ? s + p : p + s;
    }
};
