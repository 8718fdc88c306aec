// CSS colors: grammar-directed generation against the CSS Color Level 3 definition.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <set>
#include <sstream>
#include <string>

#include "vf.hpp"
#include "css_names.hpp"
#include <archon/core/buffer.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/util/as_css_color.hpp>
#include <archon/util/color.hpp>
#include <archon/util/css_color.hpp>

using namespace archon;
using Css = util::CssColor;
using ld = long double;

namespace {

// Components in [0, 255] (real numbers) that the text denotes, and tolerance
struct Expect {
    ld c[4];
    bool exact; // Components are integers
};

ld clip(ld v, ld lo, ld hi) { return v < lo ? lo : v > hi ? hi : v; }

bool hex_ok(const Css::Hex& h, const Expect& e)
{
    int g[4] = { h.r, h.g, h.b, h.a };
    for (int i = 0; i < 4; ++i) {
        ld x = e.c[i];
        ld d = std::fabs(g[i] - x);
        if (e.exact ? d != 0 : d > 1.0001L)
            return false;
        if ((x <= 0 && g[i] != 0) || (x >= 255 && g[i] != 255))
            return false;
    }
    return true;
}
std::string str(const Css::Hex& h)
{
    char b[32];
    std::snprintf(b, sizeof b, "#%02X%02X%02X%02X", h.r, h.g, h.b, h.a);
    return b;
}
// Reference HSL algorithm from the CSS Color Level 3 specification
ld hue2rgb(ld m1, ld m2, ld h)
{
    if (h < 0)
        h += 1;
    if (h > 1)
        h -= 1;
    if (h * 6 < 1)
        return m1 + (m2 - m1) * h * 6;
    if (h * 2 < 1)
        return m2;
    if (h * 3 < 2)
        return m1 + (m2 - m1) * (2.0L / 3 - h) * 6;
    return m1;
}
void hsl2rgb(ld h, ld s, ld l, ld* out)
{
    h = std::fmod(std::fmod(h, 360) + 360, 360) / 360;
    s = clip(s, 0, 100) / 100;
    l = clip(l, 0, 100) / 100;
    ld m2 = (l <= 0.5L ? l * (s + 1) : l + s - l * s);
    ld m1 = l * 2 - m2;
    out[0] = 255 * hue2rgb(m1, m2, h + 1.0L / 3);
    out[1] = 255 * hue2rgb(m1, m2, h);
    out[2] = 255 * hue2rgb(m1, m2, h - 1.0L / 3);
}

// A decimal number with few digits; returns text and value
std::string number(vf::Case& c, int lo, int hi, ld& v, bool& integer)
{
    long i = long(c.rng.range(lo, hi));
    std::string s;
    integer = true;
    v = ld(i);
    s = std::to_string(i);
    if (c.rng.chance(1, 3)) {
        int d = int(c.rng.range(1, 99));
        char b[8];
        std::snprintf(b, sizeof b, ".%02d", d);
        s += b;
        bool neg = (s[0] == '-');
        v = ld(i) + (neg ? -d : d) / 100.0L;
        integer = false;
        if (i == 0 && c.rng.chance(1, 3)) {
            s = s.substr(s.find('.')); // ".25"
        }
    }
    return s;
}
std::string ws(vf::Case& c, bool any)
{
    if (!any)
        return {};
    static const char* w[] = { "", " ", "  ", "\t", "\n", " \r\n" };
    return w[c.rng.below(6)];
}
std::string recase(vf::Case& c, std::string s, bool any)
{
    if (any)
        for (auto& ch : s)
            if (c.rng.chance(1, 2) && ch >= 'a' && ch <= 'z')
                ch = char(ch - 32);
    return s;
}

struct Text {
    std::string s;
    Expect e;
    Css::Form form;
};

Text generate(vf::Case& c)
{
    Text t;
    bool spaces = c.rng.chance(1, 3), cases = c.rng.chance(1, 4);
    switch (c.rng.below(5)) {
        case 0: { // hex
            t.form = Css::Form::hex;
            static const char* digits = "0123456789abcdefABCDEF";
            static const int lens[] = { 3, 4, 6, 8 };
            int n = lens[c.rng.below(4)];
            int v[8];
            t.s = "#";
            for (int i = 0; i < n; ++i) {
                int d = int(c.rng.below(22));
                t.s += digits[d];
                v[i] = (d < 16 ? d : d - 6);
            }
            t.e.exact = true;
            for (int i = 0; i < 4; ++i) {
                if (n <= 4)
                    t.e.c[i] = (i < n ? v[i] * 17 : 255);
                else
                    t.e.c[i] = (2 * i < n ? v[2 * i] * 16 + v[2 * i + 1] : 255);
            }
            c.event((std::string("css.hex") + std::to_string(n)).c_str());
            return t;
        }
        case 1: { // name
            t.form = Css::Form::name;
            t.e.exact = true;
            std::size_t n = std::size(css_names), k = c.rng.below(n + 1);
            if (k == n) {
                t.s = "transparent";
                for (auto& x : t.e.c)
                    x = 0;
            }
            else {
                t.s = css_names[k].name;
                t.e.c[0] = css_names[k].r;
                t.e.c[1] = css_names[k].g;
                t.e.c[2] = css_names[k].b;
                t.e.c[3] = 255;
            }
            t.s = recase(c, t.s, cases);
            c.event(cases ? "css.name.cased" : "css.name");
            return t;
        }
        default:
            break;
    }
    int kind = int(c.rng.below(3)); // rgb, rgb percent, hsl
    bool alpha = c.rng.chance(1, 2), wild = c.rng.chance(1, 4);
    std::string args[4];
    ld v[4] = { 0, 0, 0, 1 };
    bool ints = true;
    for (int i = 0; i < 3; ++i) {
        bool in;
        int lo = 0, hi = (kind == 0 ? 255 : kind == 2 && i == 0 ? 359 : 99);
        if (c.rng.chance(1, 6)) {
            hi = (kind == 0 ? 255 : kind == 2 && i == 0 ? 360 : 100);
            lo = hi;
        }
        if (wild) {
            lo = -400;
            hi = 800;
        }
        args[i] = number(c, lo, hi, v[i], in);
        if (kind == 1 || (kind == 2 && i > 0))
            args[i] += "%";
        ints = ints && in;
    }
    if (alpha) {
        bool in;
        args[3] = number(c, 0, wild ? 2 : 0, v[3], in);
        if (c.rng.chance(1, 5)) {
            args[3] = (c.rng.chance(1, 2) ? "1" : "0");
            v[3] = args[3] == "1";
        }
    }
    std::string label = (kind == 2 ? "hsl" : "rgb");
    if (alpha)
        label += "a";
    t.s = recase(c, label, cases) + "(" + ws(c, spaces);
    for (int i = 0; i < (alpha ? 4 : 3); ++i) {
        if (i)
            t.s += ws(c, spaces) + "," + (c.rng.chance(2, 3) ? " " : "") + ws(c, spaces);
        t.s += args[i];
    }
    t.s += ws(c, spaces) + ")";
    t.e.exact = false;
    t.e.c[3] = clip(v[3], 0, 1) * 255;
    if (kind == 2) {
        t.form = Css::Form::hsl;
        hsl2rgb(v[0], v[1], v[2], t.e.c);
    }
    else {
        t.form = (kind == 0 ? Css::Form::rgb : Css::Form::rgb_p);
        for (int i = 0; i < 3; ++i)
            t.e.c[i] = (kind == 0 ? clip(v[i], 0, 255) : clip(v[i], 0, 100) * 2.55L);
        if (kind == 0 && ints && (v[3] == 0 || v[3] == 1))
            t.e.exact = true;
    }
    c.event(kind == 0 ? "css.rgb" : kind == 1 ? "css.rgb%" : "css.hsl");
    if (alpha)
        c.event("css.alpha");
    if (wild)
        c.event("css.out-of-range");
    if (spaces)
        c.event("css.spaces");
    if (cases)
        c.event("css.func.cased");
    return t;
}

bool same_form(const Css& a, const Css& b)
{
    if (a.form() != b.form())
        return false;
    auto eq = [](float x, float y) { return std::fabs(x - y) <= 2e-5f * std::max(1.0f, std::fabs(x)); };
    Css::Hex h1, h2;
    if (a.get_if(h1))
        return b.get_if(h2) && h1.r == h2.r && h1.g == h2.g && h1.b == h2.b && h1.a == h2.a;
    Css::Name n1, n2;
    if (a.get_if(n1))
        return b.get_if(n2) && n1.index == n2.index;
    Css::Rgb r1, r2;
    if (a.get_if(r1))
        return b.get_if(r2) && eq(r1.r, r2.r) && eq(r1.g, r2.g) && eq(r1.b, r2.b) && eq(std::min(r1.a, 1.0f), r2.a);
    Css::RgbP p1, p2;
    if (a.get_if(p1))
        return b.get_if(p2) && eq(p1.r, p2.r) && eq(p1.g, p2.g) && eq(p1.b, p2.b) && eq(std::min(p1.a, 1.0f), p2.a);
    Css::Hsl l1, l2;
    if (a.get_if(l1))
        return b.get_if(l2) && eq(l1.h, l2.h) && eq(l1.s, l2.s) && eq(l1.l, l2.l) && eq(std::min(l1.a, 1.0f), l2.a);
    return false;
}

} // unnamed namespace

VF_MONITOR(u01_css_parse, 40000, 1500000)
{
    Text t = generate(c);
    Css color = Css::hex(1, 2, 3, 4);
    bool ok = color.parse(t.s);
    auto info = [&](std::ostream& out) {
        out << vf::show(t.s) << " expected";
        for (auto x : t.e.c)
            out << " " << double(x);
        if (ok)
            out << " got " << str(color.get_as_hex());
    };
    VF_REQUIRE(ok, "css-parse-rejected", info);
    VF_REQUIRE(color.form() == t.form, "css-form", info);
    VF_REQUIRE(hex_ok(color.get_as_hex(), t.e), "css-value", info);
    // Formatting and parsing gives the same color
    core::Buffer<char> buffer;
    Css::FormatConfig config;
    config.disable_short_hex_form = c.rng.chance(1, 2);
    std::string_view f = color.format(buffer, config);
    std::string fs(f);
    Css color2;
    auto info2 = [&](std::ostream& out) { info(out); out << " formatted " << vf::show(fs); };
    VF_REQUIRE(color2.parse(fs), "css-reparse", info2);
    VF_REQUIRE(same_form(color, color2), "css-format-round-trip", info2);
    {
        core::Buffer<char> b2;
        VF_REQUIRE(std::string(color.format(b2)) == fs || !config.disable_short_hex_form == false, "css-format-default", info2);
        core::Buffer<char> b3(std::size_t(c.rng.below(20)));
        std::size_t off = c.rng.below(b3.size() + 1), off0 = off;
        for (std::size_t i = 0; i < off; ++i)
            b3.data()[i] = char('a' + i % 26);
        color.format(b3, off, config);
        bool kept = true;
        for (std::size_t i = 0; i < off0; ++i)
            kept = kept && b3.data()[i] == char('a' + i % 26);
        VF_REQUIRE(off == off0 + fs.size() && kept && std::string(b3.data() + off0, off - off0) == fs, "css-format-append", info2);
    }
    // util::Color through value parser and output stream
    util::Color uc;
    if (c.rng.chance(1, 2)) {
        core::ValueParser parser(std::locale::classic());
        VF_REQUIRE(parser.parse(std::string_view(t.s), util::as_css_color(uc)), "as-css-color-parse", info);
    }
    else {
        core::WideValueParser parser(std::locale::classic());
        std::wstring w(t.s.begin(), t.s.end());
        VF_REQUIRE(parser.parse(std::wstring_view(w), util::as_css_color(uc)), "as-css-color-parse-wide", info);
    }
    auto h = color.get_as_hex();
    VF_REQUIRE(uc.red() == h.r && uc.green() == h.g && uc.blue() == h.b && uc.alpha() == h.a, "as-css-color-value", info);
    std::ostringstream out;
    out << util::as_css_color(std::as_const(uc));
    util::Color uc2;
    core::ValueParser parser(std::locale::classic());
    std::string os = out.str();
    VF_REQUIRE(parser.parse(std::string_view(os), util::as_css_color(uc2)) && uc2.to_rgba() == uc.to_rgba(),
               "as-css-color-round-trip", [&](std::ostream& o) { info(o); o << " formatted " << vf::show(os); });
    {
        std::string e;
        for (auto& n : css_names)
            if (uc.alpha() == 255 && n.r == uc.red() && n.g == uc.green() && n.b == uc.blue()) {
                e = n.name;
                break;
            }
        if (e.empty() && uc.to_rgba() == 0)
            e = "transparent";
        if (e.empty()) {
            char b[32];
            std::snprintf(b, sizeof b, uc.alpha() == 255 ? "#%02X%02X%02X" : "#%02X%02X%02X%02X", uc.red(), uc.green(),
                          uc.blue(), uc.alpha());
            VF_EQ(os, std::string(b), "as-css-color-hex-form", info);
            c.event("format.hex");
        }
        else {
            bool named = false;
            for (auto& n : css_names)
                named = named || (os == n.name && n.r == uc.red() && n.g == uc.green() && n.b == uc.blue());
            VF_REQUIRE(named || os == "transparent", "as-css-color-named-form",
                       [&](std::ostream& o) { info(o); o << " formatted " << vf::show(os); });
            c.event("format.name");
        }
    }
    c.sample([&](std::ostream& o) { info2(o); });
    c.nontrivial(vf::Hash().add(t.s).get());
}

VF_MONITOR(u01_css_reject, 20000, 800000)
{
    // Structurally malformed text
    std::string s;
    for (int tries = 0; ; ++tries) {
        if (tries > 50)
            return;
        Text t = generate(c);
        s = t.s;
        int k = int(c.rng.below(8));
        bool func = s.find('(') != std::string::npos;
        if (s[0] == '#') {
            if (k < 4) { // wrong number of digits
                static const int lens[] = { 0, 1, 2, 5, 7, 9, 10, 16 };
                int n = lens[c.rng.below(8)];
                s = "#";
                for (int i = 0; i < n; ++i)
                    s += "0123456789abcdef"[c.rng.below(16)];
            }
            else { // bad digit
                s[1 + c.rng.below(s.size() - 1)] = "gGxX -+.z/:@`"[c.rng.below(13)];
            }
            c.event("reject.hex");
            break;
        }
        if (!func) {
            std::string o = s;
            s += (c.rng.chance(1, 2) ? "x" : "()");
            if (c.rng.chance(1, 3))
                s = o.substr(0, o.size() - 1) + "zz";
            if (c.rng.chance(1, 10))
                s = "";
            c.event("reject.name");
            break;
        }
        std::size_t open = s.find('(');
        std::vector<std::string> args;
        std::string label = s.substr(0, open), rest = s.substr(open + 1, s.size() - open - 2), cur;
        for (char ch : rest + ",") {
            if (ch == ',') {
                args.push_back(cur);
                cur.clear();
            }
            else
                cur += ch;
        }
        auto join = [&] {
            s = label + "(";
            for (std::size_t i = 0; i < args.size(); ++i)
                s += (i ? "," : "") + args[i];
            s += ")";
        };
        std::size_t i = c.rng.below(args.size());
        if (k == 0) { args.erase(args.begin() + i); join(); }
        else if (k == 1) { args.insert(args.begin() + i, "7"); args.push_back("1"); join(); }
        else if (k == 2) { args[i] = ""; join(); }
        else if (k == 3) { args[i] = "1x"; join(); }
        else if (k == 4) { s.pop_back(); }
        else if (k == 5) { s += ")"; }
        else if (k == 6) { // toggle percent sign of one of the arguments
            std::size_t p = args[i].find('%');
            if (p != std::string::npos)
                args[i].erase(p, 1);
            else
                args[i] += "%";
            join();
        }
        else { // alpha function without alpha and vice versa
            if (label.size() == 4)
                label.pop_back();
            else
                label += (c.rng.chance(1, 2) ? "a" : "x");
            join();
        }
        c.event("reject.func");
        break;
    }
    Css color = Css::hex(1, 2, 3, 4);
    bool ok = color.parse(s);
    auto info = [&](std::ostream& out) { out << vf::show(s) << " -> " << str(color.get_as_hex()); };
    VF_REQUIRE(!ok, "css-malformed-accepted", info);
    VF_REQUIRE(str(color.get_as_hex()) == "#01020304" && color.form() == Css::Form::hex, "css-failed-parse-modified", info);
    util::Color uc(9, 8, 7, 6);
    core::ValueParser parser(std::locale::classic());
    VF_REQUIRE(!parser.parse(std::string_view(s), util::as_css_color(uc)) && uc.to_rgba() == 0x09080706, "as-css-color-malformed", info);
    c.nontrivial(vf::Hash().add(s).get());
}

VF_MONITOR(u01_css_api, 20000, 400000)
{
    // Programmatic construction
    auto f = [&](double hi) {
        return float(c.rng.chance(1, 4) ? c.rng.unit() * hi : c.rng.chance(1, 6) ? hi : double(c.rng.below(std::uint64_t(hi) + 1)));
    };
    float x = 0, y = 0, z = 0, a = (c.rng.chance(1, 2) ? 1 : float(c.rng.unit()));
    Css col;
    Expect e { {}, false };
    std::string what;
    switch (c.rng.below(5)) {
        case 0: {
            std::uint8_t r = std::uint8_t(c.rng.next()), g = std::uint8_t(c.rng.next()), b = std::uint8_t(c.rng.next());
            std::uint8_t al = std::uint8_t(c.rng.chance(1, 3) ? 255 : c.rng.next());
            if (c.rng.chance(1, 3)) {
                r = std::uint8_t((r >> 4) * 17); g = std::uint8_t((g >> 4) * 17);
                b = std::uint8_t((b >> 4) * 17); al = std::uint8_t((al >> 4) * 17);
            }
            col = Css::hex(r, g, b, al);
            Css::Hex h;
            bool got = col.get_if(h);
            VF_REQUIRE(got && h.r == r && h.g == g && h.b == b && h.a == al, "css-get-hex", [&](std::ostream&) {});
            e = { { ld(r), ld(g), ld(b), ld(al) }, true };
            what = "hex";
            // Expected text
            bool shrt = (r % 17 == 0 && g % 17 == 0 && b % 17 == 0 && al % 17 == 0);
            Css::FormatConfig cfg;
            cfg.disable_short_hex_form = c.rng.chance(1, 2);
            char buf[32];
            if (shrt && !cfg.disable_short_hex_form)
                std::snprintf(buf, sizeof buf, al == 255 ? "#%X%X%X" : "#%X%X%X%X", r / 17, g / 17, b / 17, al / 17);
            else
                std::snprintf(buf, sizeof buf, al == 255 ? "#%02X%02X%02X" : "#%02X%02X%02X%02X", r, g, b, al);
            core::Buffer<char> bf;
            std::string s(col.format(bf, cfg));
            VF_EQ(s, std::string(buf), "css-hex-text", [&](std::ostream&) {});
            c.event(shrt ? "api.short-hex" : "api.hex");
            Css::Name nm;
            bool found = Css::find_named_color_by_value(h, nm);
            bool expect = false;
            for (auto& n : css_names)
                expect = expect || (al == 255 && n.r == r && n.g == g && n.b == b);
            expect = expect || (r == 0 && g == 0 && b == 0 && al == 0);
            VF_REQUIRE(found == expect, "css-find-by-value", [&](std::ostream& out) { out << buf; });
            break;
        }
        case 1: {
            std::size_t n = Css::get_num_named_colors();
            VF_REQUIRE(n == std::size(css_names) + 1, "css-name-count", [&](std::ostream& out) { out << n; });
            std::size_t i = c.rng.below(n);
            col = Css::name(i);
            Css::Name nm, nm2, nm3;
            VF_REQUIRE(col.get_if(nm) && nm.index == i, "css-get-name", [&](std::ostream& out) { out << i; });
            core::Buffer<char> bf;
            std::string s(col.format(bf));
            Css::Hex h = Css::get_named_color(nm);
            bool known = (s == "transparent" && str(h) == "#00000000");
            for (auto& m : css_names)
                known = known || (s == m.name && h.r == m.r && h.g == m.g && h.b == m.b && h.a == 255);
            VF_REQUIRE(known, "css-named-color-table", [&](std::ostream& out) { out << s << " " << str(h); });
            VF_REQUIRE(Css::find_named_color_by_name(s, nm2) && nm2.index == i, "css-find-by-name", [&](std::ostream& out) { out << s; });
            VF_REQUIRE(Css::find_named_color_by_value(h, nm3) && str(Css::get_named_color(nm3)) == str(h), "css-find-by-value-2",
                       [&](std::ostream& out) { out << s; });
            bool thrown = false;
            try {
                (void)Css::name(n + c.rng.below(3));
            }
            catch (std::out_of_range&) {
                thrown = true;
            }
            VF_REQUIRE(thrown, "css-name-out-of-range", [&](std::ostream&) {});
            e = { { ld(h.r), ld(h.g), ld(h.b), ld(h.a) }, true };
            what = "name";
            c.event("api.name");
            break;
        }
        case 2:
            x = f(255), y = f(255), z = f(255);
            col = Css::rgb(x, y, z, a);
            e = { { ld(x), ld(y), ld(z), ld(a) * 255 }, false };
            what = "rgb";
            c.event("api.rgb");
            break;
        case 3:
            x = f(100), y = f(100), z = f(100);
            col = Css::rgb_p(x, y, z, a);
            e = { { ld(x) * 2.55L, ld(y) * 2.55L, ld(z) * 2.55L, ld(a) * 255 }, false };
            what = "rgb%";
            c.event("api.rgb%");
            break;
        default:
            x = f(360), y = f(100), z = f(100);
            col = Css::hsl(x, y, z, a);
            e.c[3] = ld(a) * 255;
            hsl2rgb(x, y, z, e.c);
            what = "hsl";
            c.event("api.hsl");
            break;
    }
    auto info = [&](std::ostream& out) { out << what << " " << x << " " << y << " " << z << " " << a << " -> " << str(col.get_as_hex()); };
    VF_REQUIRE(hex_ok(col.get_as_hex(), e), "css-as-hex", info);
    core::Buffer<char> bf;
    std::string s(col.format(bf));
    Css col2;
    VF_REQUIRE(col2.parse(s) && same_form(col, col2), "css-api-round-trip", [&](std::ostream& out) { info(out); out << " " << s; });
    c.nontrivial(vf::Hash().add(s).get());
}
