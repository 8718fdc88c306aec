// Pixel positions, sizes, and boxes against 128-bit arithmetic over the entire integer range.
#include <array>
#include <limits>
#include <locale>
#include <sstream>
#include <string>

#include "vf.hpp"
#include <archon/core/value_parser.hpp>
#include <archon/util/pixel_box.hpp>
#include <archon/util/pixel_pos.hpp>
#include <archon/util/pixel_size.hpp>

using namespace archon;
namespace px = archon::util::pixel;

namespace {
using i64 = long long;
constexpr int imin = std::numeric_limits<int>::min();
constexpr int imax = std::numeric_limits<int>::max();

bool fits(i64 v)
{
    return v >= imin && v <= imax;
}

int coord(vf::Case& c, int small = 12)
{
    switch (c.rng.below(7)) {
        case 0: return imin + int(c.rng.below(small));
        case 1: return imax - int(c.rng.below(small));
        case 2: return int(c.rng.range(imin, imax));
        case 3: return int(c.rng.range(-1000000000, 1000000000));
        default: return int(c.rng.range(-small, small));
    }
}

int extent(vf::Case& c, int small = 12)
{
    switch (c.rng.below(8)) {
        case 0: return imax - int(c.rng.below(small));
        case 1: return int(c.rng.range(0, imax));
        case 2: return 0;
        default: return int(c.rng.below(small));
    }
}

struct B { i64 x, y, w, h; };

template<class T> std::string fmt(const T& v)
{
    std::ostringstream out;
    out << v;
    return std::move(out).str();
}

std::string fmt_pos(px::Pos p)
{
    return std::to_string(p.x) + "," + std::to_string(p.y);
}

std::string fmt_size(px::Size s)
{
    return s.width == s.height ? std::to_string(s.width) : std::to_string(s.width) + "," + std::to_string(s.height);
}
} // namespace

VF_MONITOR(pixel_boxes, 60000, 2000000)
{
    px::Box a({ coord(c), coord(c) }, { extent(c), extent(c) });
    px::Box b({ coord(c), coord(c) }, { extent(c), extent(c) });
    auto relate = [&](int px, int pw, int& x, int& w) {
        // Make edges coincide, or almost
        i64 e = c.rng.chance(1, 2) ? i64(px) : i64(px) + pw;
        i64 v = e + i64(c.rng.below(3)) - 1 - (c.rng.chance(1, 2) ? w : 0);
        if (fits(v))
            x = int(v);
        if (c.rng.chance(1, 3)) {
            i64 nw = i64(px) + pw - x + i64(c.rng.below(3)) - 1;
            if (nw >= 0 && nw <= imax)
                w = int(nw);
        }
    };
    if (c.rng.chance(2, 3))
        relate(a.pos.x, a.size.width, b.pos.x, b.size.width);
    if (c.rng.chance(2, 3))
        relate(a.pos.y, a.size.height, b.pos.y, b.size.height);
    auto info = [&](std::ostream& out) {
        out << "a=" << a.pos.x << "," << a.pos.y << ";" << a.size.width << "x" << a.size.height << " b=" << b.pos.x
            << "," << b.pos.y << ";" << b.size.width << "x" << b.size.height;
    };
    i64 x0 = std::max<i64>(a.pos.x, b.pos.x), y0 = std::max<i64>(a.pos.y, b.pos.y);
    i64 x1 = std::min<i64>(i64(a.pos.x) + a.size.width, i64(b.pos.x) + b.size.width);
    i64 y1 = std::min<i64>(i64(a.pos.y) + a.size.height, i64(b.pos.y) + b.size.height);
    bool inter = (x0 < x1 && y0 < y1);
    VF_EQ(a.intersects(b), inter, "intersects", info);
    VF_EQ(b.intersects(a), inter, "intersects", info);
    bool inside = (b.pos.x >= a.pos.x && b.pos.y >= a.pos.y &&
                   i64(b.pos.x) + b.size.width <= i64(a.pos.x) + a.size.width &&
                   i64(b.pos.y) + b.size.height <= i64(a.pos.y) + a.size.height);
    VF_EQ(a.contains(b), inside, "contains", info);
    VF_EQ(b.contained_in(a), inside, "contained-in", info);
    px::Box d = b;
    bool clipped = a.clip(d);
    VF_EQ(clipped, inter, "clip-result", info);
    if (clipped) {
        VF_REQUIRE(d.pos.x == x0 && d.pos.y == y0 && d.size.width == x1 - x0 && d.size.height == y1 - y0, "clip-box",
                   info << " got " << d.pos.x << "," << d.pos.y << ";" << d.size.width << "x" << d.size.height);
        c.event("clipped");
    }
    else {
        VF_REQUIRE(d.pos.x == b.pos.x && d.pos.y == b.pos.y && d.size.width == b.size.width &&
                   d.size.height == b.size.height, "clip-unchanged", info);
        c.event("clipped-away");
    }
    bool pixel_in = (b.pos.x >= a.pos.x && b.pos.y >= a.pos.y && b.pos.x < i64(a.pos.x) + a.size.width &&
                     b.pos.y < i64(a.pos.y) + a.size.height);
    VF_EQ(a.contains_pixel_at(b.pos), pixel_in, "contains-pixel-at", info);
    if (pixel_in)
        c.event("pixel-inside");
    if (inside)
        c.event("inside");
    bool valid = (fits(i64(a.pos.x) + a.size.width) && fits(i64(a.pos.y) + a.size.height));
    VF_EQ(a.is_valid(), valid, "box-valid", info);
    VF_EQ(a.is_empty(), (a.size.width == 0 || a.size.height == 0), "box-empty", info);
    if (c.rng.chance(1, 3)) {
        b.pos = a.pos;
        if (c.rng.chance(1, 2))
            b.size = a.size;
    }
    std::array<int, 4> ta = { a.pos.x, a.pos.y, a.size.width, a.size.height };
    std::array<int, 4> tb = { b.pos.x, b.pos.y, b.size.width, b.size.height };
    VF_REQUIRE((a == b) == (ta == tb) && (a != b) == (ta != tb) && (a < b) == (ta < tb) && (a <= b) == (ta <= tb) &&
               (a > b) == (ta > tb) && (a >= b) == (ta >= tb), "box-comparison", info);
    px::Box s = splice(a, b);
    VF_REQUIRE(s.pos.x == a.pos.x && s.size.width == a.size.width && s.pos.y == b.pos.y &&
               s.size.height == b.size.height, "box-splice", info);
    if (c.rng.chance(1, 8))
        VF_EQ(fmt(a), fmt_pos(a.pos) + ";" + fmt_size(a.size), "box-format", info);
    if (!valid)
        c.event("extends-beyond-integer-range");
    if (!fits(i64(a.pos.x) - b.pos.x) || !fits(i64(a.pos.y) - b.pos.y))
        c.event("distance-beyond-integer-range");
    c.nontrivial(vf::Hash().add(a.pos.x).add(a.size.width).add(b.pos.x).get());
}

VF_MONITOR(pixel_arithmetic, 30000, 1000000)
{
    px::Pos p(coord(c), coord(c)), q(coord(c), coord(c));
    px::Size s(coord(c), coord(c)), t(coord(c), coord(c));
    if (c.rng.chance(1, 4))
        t.width = s.width;
    if (c.rng.chance(1, 4))
        q.x = p.x;
    if (c.rng.chance(1, 6))
        q = p;
    if (c.rng.chance(1, 6))
        t = s;
    if (c.rng.chance(1, 4))
        s = { int(c.rng.range(-2, 2)), int(c.rng.range(-2, 2)) };
    auto info = [&](std::ostream& out) {
        out << "p=" << p.x << "," << p.y << " q=" << q.x << "," << q.y << " s=" << s.width << "x" << s.height << " t="
            << t.width << "x" << t.height;
    };
    auto is = [](px::Pos v, i64 x, i64 y) { return v.x == x && v.y == y; };
    auto iz = [](px::Size v, i64 x, i64 y) { return v.width == x && v.height == y; };
    bool can_add = fits(i64(p.x) + s.width) && fits(i64(p.y) + s.height);
    bool can_sub = fits(i64(p.x) - s.width) && fits(i64(p.y) - s.height);
    VF_EQ(p.can_add(s), can_add, "can-add", info);
    VF_EQ(p.can_sub(s), can_sub, "can-sub", info);
    VF_EQ(px::Box(p, s).is_valid(), (s.width >= 0 && s.height >= 0 && can_add), "box-valid", info);
    if (can_add) {
        VF_REQUIRE(is(p + s, i64(p.x) + s.width, i64(p.y) + s.height), "pos-add", info);
        px::Pos r = p;
        px::Pos& rr = (r += s);
        VF_REQUIRE(&rr == &r && r == p + s, "pos-add-assign", info);
        VF_REQUIRE((p + s) - s == p, "pos-add-sub", info);
        c.event("additions");
    }
    if (can_sub) {
        VF_REQUIRE(is(p - s, i64(p.x) - s.width, i64(p.y) - s.height), "pos-sub", info);
        px::Pos r = p;
        px::Pos& rr = (r -= s);
        VF_REQUIRE(&rr == &r && r == p - s, "pos-sub-assign", info);
        c.event("subtractions");
    }
    if (fits(i64(p.x) - q.x) && fits(i64(p.y) - q.y)) {
        VF_REQUIRE(iz(p - q, i64(p.x) - q.x, i64(p.y) - q.y), "pos-difference", info);
        VF_REQUIRE(q + (p - q) == p, "pos-difference-inverse", info);
    }
    VF_REQUIRE(p.is_zero() == (p.x == 0 && p.y == 0) && px::Pos().is_zero(), "pos-zero", info);
    VF_REQUIRE(is(p.proj_x(), p.x, 0) && is(p.proj_y(), 0, p.y) && is(p.with_x(q.x), q.x, p.y) &&
               is(p.with_y(q.y), p.x, q.y) && is(splice(p, q), p.x, q.y), "pos-projection", info);
    std::array<int, 2> tp = { p.x, p.y }, tq = { q.x, q.y };
    VF_REQUIRE((p == q) == (tp == tq) && (p != q) == (tp != tq) && (p < q) == (tp < tq) && (p <= q) == (tp <= tq) &&
               (p > q) == (tp > tq) && (p >= q) == (tp >= tq), "pos-comparison", info);

    // Sizes
    if (fits(i64(s.width) + t.width) && fits(i64(s.height) + t.height)) {
        VF_REQUIRE(iz(s + t, i64(s.width) + t.width, i64(s.height) + t.height), "size-add", info);
        px::Size r = s;
        px::Size& rr = (r += t);
        VF_REQUIRE(&rr == &r && r == s + t, "size-add-assign", info);
    }
    if (fits(i64(s.width) - t.width) && fits(i64(s.height) - t.height)) {
        VF_REQUIRE(iz(s - t, i64(s.width) - t.width, i64(s.height) - t.height), "size-sub", info);
        px::Size r = s;
        px::Size& rr = (r -= t);
        VF_REQUIRE(&rr == &r && r == s - t, "size-sub-assign", info);
    }
    int f = c.rng.chance(1, 2) ? int(c.rng.range(-5, 5)) : coord(c);
    if (fits(i64(s.width) * f) && fits(i64(s.height) * f)) {
        VF_REQUIRE(iz(s * f, i64(s.width) * f, i64(s.height) * f) && f * s == s * f, "size-mul", info << " f=" << f);
        c.event("multiplications");
    }
    if (f != 0 && s.width >= 0 && s.height >= 0 && f > 0)
        VF_REQUIRE(iz(s / f, s.width / f, s.height / f), "size-div", info << " f=" << f);
    VF_REQUIRE(iz(min(s, t), std::min(s.width, t.width), std::min(s.height, t.height)) &&
               iz(max(s, t), std::max(s.width, t.width), std::max(s.height, t.height)), "size-min-max", info);
    VF_REQUIRE(s.is_valid() == (s.width >= 0 && s.height >= 0) && s.is_zero() == (s.width == 0 && s.height == 0) &&
               s.is_empty() == (s.width == 0 || s.height == 0), "size-predicates", info);
    VF_REQUIRE(s.contains(t) == (s.width >= t.width && s.height >= t.height) &&
               s.contained_in(t) == (s.width <= t.width && s.height <= t.height), "size-containment", info);
    VF_REQUIRE(iz(s.proj_x(), s.width, 0) && iz(s.proj_y(), 0, s.height) && iz(s.with_width(f), f, s.height) &&
               iz(s.with_height(f), s.width, f) && iz(splice(s, t), s.width, t.height), "size-projection", info);
    std::array<int, 2> ts = { s.width, s.height }, tt = { t.width, t.height };
    VF_REQUIRE((s == t) == (ts == tt) && (s != t) == (ts != tt) && (s < t) == (ts < tt) && (s <= t) == (ts <= tt) &&
               (s > t) == (ts > tt) && (s >= t) == (ts >= tt), "size-comparison", info);
    c.nontrivial(vf::Hash().add(p.x).add(s.width).get());
}

VF_MONITOR(pixel_text, 3000, 60000)
{
    core::ValueParser parser(std::locale::classic());
    core::WideValueParser wparser(std::locale::classic());
    px::Pos p(coord(c), coord(c));
    px::Size s(coord(c), coord(c));
    if (c.rng.chance(1, 3))
        s.height = s.width;
    auto info = [&](std::ostream& out) { out << "p=" << p.x << "," << p.y << " s=" << s.width << "x" << s.height; };
    VF_EQ(fmt(p), fmt_pos(p), "pos-format", info);
    VF_EQ(fmt(s), fmt_size(s), "size-format", info);
    px::Pos p2(-1, -2);
    VF_REQUIRE(parser.parse(std::string_view(fmt_pos(p)), p2) && p2 == p, "pos-round-trip", info);
    px::Size s2(-1, -2);
    VF_REQUIRE(parser.parse(std::string_view(fmt_size(s)), s2) && s2 == s, "size-round-trip", info);
    c.event("round-trips");
    {
        std::wostringstream out;
        out << p << L"|" << s;
        std::string e = fmt_pos(p) + "|" + fmt_size(s);
        VF_REQUIRE(out.str() == std::wstring(e.begin(), e.end()), "wide-format", info);
        std::string ps = fmt_pos(p), ss = fmt_size(s);
        px::Pos p3;
        px::Size s3;
        VF_REQUIRE(wparser.parse(std::wstring_view(std::wstring(ps.begin(), ps.end())), p3) && p3 == p,
                   "wide-pos-round-trip", info);
        VF_REQUIRE(wparser.parse(std::wstring_view(std::wstring(ss.begin(), ss.end())), s3) && s3 == s,
                   "wide-size-round-trip", info);
    }
    // Space after comma
    std::string spaced = std::to_string(p.x) + ", " + std::to_string(p.y);
    VF_REQUIRE(parser.parse(std::string_view(spaced), p2) && p2 == p, "pos-space", info);
    spaced = std::to_string(s.width) + ",  " + std::to_string(s.height);
    VF_REQUIRE(parser.parse(std::string_view(spaced), s2) && s2 == s, "size-space", info);
    // Both components can be given even when they are equal
    std::string both = std::to_string(s.width) + "," + std::to_string(s.width);
    VF_REQUIRE(parser.parse(std::string_view(both), s2) && s2 == px::Size(s.width), "size-both", info);
    // Malformed text is rejected, and the destination is not changed
    std::string sx = std::to_string(p.x), sy = std::to_string(p.y);
    std::string over = c.rng.chance(1, 2) ? std::to_string(i64(imax) + 1 + i64(c.rng.below(1000))) :
        std::to_string(i64(imin) - 1 - i64(c.rng.below(1000)));
    std::string bad[] = { "", ",", sx + ",", "," + sy, sx + "," + sy + ",", sx + "," + sy + ",1", sx + ";" + sy,
                          sx + " " + sy, "x", sx + ",x", sx + "x," + sy, over + "," + sy, sx + "," + over };
    const std::string& text = bad[c.rng.below(std::size(bad))];
    px::Pos p4(11, 22);
    VF_REQUIRE(!parser.parse(std::string_view(text), p4) && p4 == px::Pos(11, 22), "pos-malformed",
               "text=" << vf::show(text));
    px::Size s4(11, 22);
    VF_REQUIRE(!parser.parse(std::string_view(text), s4) && s4 == px::Size(11, 22), "size-malformed",
               "text=" << vf::show(text));
    VF_REQUIRE(!parser.parse(std::string_view(sx), p4) && p4 == px::Pos(11, 22), "pos-one-component",
               "text=" << vf::show(sx));
    c.event("rejections", 3);
    c.nontrivial(vf::Hash().add(p.x).add(s.width).get());
}
