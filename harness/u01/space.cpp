// Color spaces, against reference formulas evaluated in extended precision.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>

#include "vf.hpp"
#include <archon/math/vector.hpp>
#include <archon/util/color.hpp>
#include <archon/util/color_space.hpp>

using namespace archon;

namespace {
using ld = long double;
using RV = std::array<ld, 3>;

RV ref_hue(ld h) // pure hue, h in turns
{
    h = (h - std::floor(h)) * 6;
    int i = int(h) % 6;
    ld f = h - std::floor(h);
    switch (i) {
        case 0: return { 1, f, 0 };
        case 1: return { 1 - f, 1, 0 };
        case 2: return { 0, 1, f };
        case 3: return { 0, 1 - f, 1 };
        case 4: return { f, 0, 1 };
        default: return { 1, 0, 1 - f };
    }
}
RV ref_hsl(const RV& x)
{
    RV p = ref_hue(x[0]);
    ld c = (1 - std::fabs(2 * x[2] - 1)) * x[1];
    RV r;
    for (int i = 0; i < 3; ++i)
        r[i] = (p[i] - 0.5L) * c + x[2];
    return r;
}
RV ref_hsv(const RV& x)
{
    RV p = ref_hue(x[0]);
    RV r;
    for (int i = 0; i < 3; ++i)
        r[i] = x[2] * (1 - x[1] * (1 - p[i]));
    return r;
}
ld dec(ld v) { return v <= 0.04045L ? v / 12.92L : std::pow((v + 0.055L) / 1.055L, 2.4L); }
RV ref_xyz(const RV& s)
{
    ld r = dec(s[0]), g = dec(s[1]), b = dec(s[2]);
    return {
        0.4124L * r + 0.3576L * g + 0.1805L * b,
        0.2126L * r + 0.7152L * g + 0.0722L * b,
        0.0193L * r + 0.1192L * g + 0.9505L * b,
    };
}
std::ostream& operator<<(std::ostream& out, const RV& v)
{
    out.precision(20);
    return out << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")";
}
template<class T> RV ref(const math::Vector<3, T>& v) { return { ld(v.components()[0]), ld(v.components()[1]), ld(v.components()[2]) }; }
ld dist(const RV& a, const RV& b)
{
    return std::max({ std::fabs(a[0] - b[0]), std::fabs(a[1] - b[1]), std::fabs(a[2] - b[2]) });
}
double unit(vf::Case& c)
{
    switch (c.rng.below(8)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return 0.5;
        case 3: return double(c.rng.below(256)) / 255;
        case 4: return c.rng.unit() * std::pow(10.0, -double(c.rng.below(12)));
        case 5: return 0.0031308 + (c.rng.unit() - 0.5) * 0.08; // around the knees of the gamma curve
        default: return c.rng.unit();
    }
}

template<class T> void spaces(vf::Case& c)
{
    using V = math::Vector<3, T>;
    ld eps = std::numeric_limits<T>::epsilon();
    V x(T(std::max(0.0, unit(c))), T(std::max(0.0, unit(c))), T(std::max(0.0, unit(c))));
    if (c.rng.chance(1, 5))
        x[int(c.rng.below(3))] = x[int(c.rng.below(3))];
    if (c.rng.chance(1, 12))
        x[2] = x[1] = x[0];
    if (c.rng.chance(1, 6))
        x[int(c.rng.below(3))] = std::nextafter(x[int(c.rng.below(3))], T(1));
    for (int i = 0; i < 3; ++i)
        x[i] = std::min(std::max(x[i], T(0)), T(1));
    RV rx = ref(x);
    auto info = [&](std::ostream& out) { out << "in=" << rx << " digits=" << std::numeric_limits<T>::digits; };
    auto gamut = [&](const V& v, const char* key, ld slack = 1) {
        for (int i = 0; i < 3; ++i)
            VF_REQUIRE(ld(v.components()[i]) >= -8 * eps * slack && ld(v.components()[i]) <= 1 + 8 * eps * slack, key,
                       [&](std::ostream& out) { info(out); out << " out=" << ref(v); });
    };
    ld mn = std::min({ rx[0], rx[1], rx[2] }), mx = std::max({ rx[0], rx[1], rx[2] });
    {
        V hsl = util::cvt_sRGB_to_HSL(x);
        auto i2 = [&](std::ostream& out) { info(out); out << " hsl=" << ref(hsl); };
        // Saturation is sensitive near black and white
        gamut(hsl, "hsl-gamut", 1 / std::max(eps, 1 - std::fabs(mn + mx - 1)));
        VF_REQUIRE(std::fabs(ld(hsl[2]) - (mn + mx) / 2) <= 4 * eps, "hsl-lightness", i2);
        ld e = 1 - std::fabs(mn + mx - 1);
        if (e > 0) {
            ld s = (mx - mn) / e;
            VF_REQUIRE(std::fabs(ld(hsl[1]) - s) <= 8 * eps / std::min(1.0L, std::max(e, eps)), "hsl-saturation", i2);
        }
        V back = util::cvt_HSL_to_sRGB(hsl);
        VF_REQUIRE(dist(ref(back), rx) <= 64 * eps, "hsl-round-trip",
                   [&](std::ostream& out) { i2(out); out << " back=" << ref(back); });
        V hsv = util::cvt_sRGB_to_HSV(x);
        auto i3 = [&](std::ostream& out) { info(out); out << " hsv=" << ref(hsv); };
        gamut(hsv, "hsv-gamut");
        VF_REQUIRE(ld(hsv[2]) == mx, "hsv-value", i3);
        if (mx > 0)
            VF_REQUIRE(std::fabs(ld(hsv[1]) - (mx - mn) / mx) <= 8 * eps, "hsv-saturation", i3);
        VF_REQUIRE(hsv[0] == hsl[0], "hsv-hue-equals-hsl-hue", i3);
        V back2 = util::cvt_HSV_to_sRGB(hsv);
        VF_REQUIRE(dist(ref(back2), rx) <= 64 * eps, "hsv-round-trip",
                   [&](std::ostream& out) { i3(out); out << " back=" << ref(back2); });
        if (mn == mx)
            VF_REQUIRE(hsl[0] == 0 && hsl[1] == 0 && hsv[1] == 0, "achromatic", i2);
        c.event(mn == mx ? "achromatic" : mx == rx[0] ? "max.red" : mx == rx[1] ? "max.green" : "max.blue");
    }
    {
        // Arbitrary hue, including outside of nominal range
        V y = x;
        bool wild = c.rng.chance(1, 3);
        if (wild)
            y[0] = T(double(c.rng.range(-3, 3)) + c.rng.unit());
        RV ry = ref(y);
        ld tol = 64 * eps * (1 + 8 * std::fabs(ry[0]));
        V a = util::cvt_HSL_to_sRGB(y), b = util::cvt_HSV_to_sRGB(y);
        VF_REQUIRE(dist(ref(a), ref_hsl(ry)) <= tol, "hsl-to-srgb",
                   [&](std::ostream& out) { out << "hsl=" << ry << " got " << ref(a) << " expected " << ref_hsl(ry); });
        VF_REQUIRE(dist(ref(b), ref_hsv(ry)) <= tol, "hsv-to-srgb",
                   [&](std::ostream& out) { out << "hsv=" << ry << " got " << ref(b) << " expected " << ref_hsv(ry); });
        gamut(a, "hsl-to-srgb-gamut");
        gamut(b, "hsv-to-srgb-gamut");
        if (wild)
            c.event("hue.periodic");
    }
    {
        V xyz = util::cvt_sRGB_to_XYZ(x);
        auto i4 = [&](std::ostream& out) { info(out); out << " xyz=" << ref(xyz); };
        VF_REQUIRE(dist(ref(xyz), ref_xyz(rx)) <= 2e-4L, "srgb-to-xyz",
                   [&](std::ostream& out) { i4(out); out << " expected " << ref_xyz(rx); });
        V back = util::cvt_XYZ_to_sRGB(xyz);
        VF_REQUIRE(dist(ref(back), rx) <= 512 * eps, "xyz-round-trip",
                   [&](std::ostream& out) { i4(out); out << " back=" << ref(back); });
        // Luminance is Y
        V lin(T(dec(rx[0])), T(dec(rx[1])), T(dec(rx[2])));
        T lum = util::cvt_RGB_to_Lum(lin);
        VF_REQUIRE(std::fabs(ld(lum) - ref_xyz(rx)[1]) <= 1e-4L, "luminance", info);
        V gray = util::cvt_Lum_to_RGB(lum);
        VF_REQUIRE(gray[0] == lum && gray[1] == lum && gray[2] == lum, "lum-to-rgb", info);
        VF_REQUIRE(std::fabs(ld(util::cvt_RGB_to_Lum(gray)) - ld(lum)) <= 8 * std::max(eps, 2.3e-16L), "lum-round-trip", info);
        // Components are monotone in each sRGB channel
        int k = int(c.rng.below(3));
        V x2 = x;
        x2[k] = T(c.rng.unit());
        V xyz2 = util::cvt_sRGB_to_XYZ(x2);
        for (int i = 0; i < 3; ++i)
            VF_REQUIRE(x2[k] == x[k] || (x2[k] > x[k] ? ld(xyz2[i]) >= ld(xyz[i]) - 16 * eps : ld(xyz2[i]) <= ld(xyz[i]) + 16 * eps),
                       "xyz-monotone", i4);
        c.event("xyz");
    }
    c.nontrivial(vf::Hash().add(double(x[0])).add(double(x[1])).add(double(x[2])).get());
}
} // unnamed namespace

VF_MONITOR(u01_spaces, 60000, 2000000)
{
    switch (c.rng.below(3)) {
        case 0: spaces<float>(c); break;
        case 1: spaces<double>(c); break;
        default: spaces<long double>(c); break;
    }
}

VF_MONITOR(u01_color, 40000, 1000000)
{
    std::uint32_t v = std::uint32_t(c.rng.next());
    if (c.rng.chance(1, 4))
        v |= 0xFF;
    if (c.rng.chance(1, 4))
        v = (v & 0xFF) | (v >> 24) * 0x01010100u;
    int r = v >> 24, g = (v >> 16) & 255, b = (v >> 8) & 255, a = v & 255;
    auto info = [&](std::ostream& out) { out << r << " " << g << " " << b << " " << a; };
    util::Color x { std::uint8_t(r), std::uint8_t(g), std::uint8_t(b), std::uint8_t(a) };
    auto is = [&](const util::Color& y) {
        return y.red() == r && y.green() == g && y.blue() == b && y.alpha() == a && y[0] == r && y[1] == g && y[2] == b &&
            y[3] == a && y.data()[2] == b;
    };
    VF_REQUIRE(is(x), "color-components", info);
    VF_REQUIRE(x.to_rgba() == v && is(util::Color::from_rgba(v)), "color-rgba", info);
    std::uint32_t trgb = (std::uint32_t(255 - a) << 24) | (v >> 8);
    VF_REQUIRE(x.to_trgb() == trgb && is(util::Color::from_trgb(trgb)), "color-trgb", info);
    VF_REQUIRE(x.is_opaque() == (a == 255) && x.is_gray() == (r == g && g == b), "color-predicates", info);
    if (x.is_gray())
        c.event("gray");
    if (x.is_opaque())
        c.event("opaque");
    auto vec = [&](auto t) {
        using T = decltype(t);
        math::Vector<4, T> w;
        x.to_vec(w);
        int e[4] = { r, g, b, a };
        for (int i = 0; i < 4; ++i)
            VF_REQUIRE(std::fabs(ld(w[i]) - e[i] / 255.0L) <= 2 * std::numeric_limits<T>::epsilon(), "color-to-vector", info);
        VF_REQUIRE(is(util::Color::from_vec(w)), "color-vector-round-trip", info);
        util::Color y = util::Color::from_vec(math::Vector<3, T>(w[0], w[1], w[2]), w[3]);
        VF_REQUIRE(is(y), "color-vector3-round-trip", info);
        util::Color z = util::Color::from_vec(math::Vector<3, T>(w[0], w[1], w[2]));
        VF_REQUIRE(z.alpha() == 255 && z.red() == r && z.blue() == b, "color-vector3-opaque", info);
    };
    vec(float());
    vec(double());
    VF_REQUIRE(util::Color().to_rgba() == 0 && util::Color::size() == 4, "color-default", info);
    c.nontrivial(v);
}
