// Parameterized formatting, value formatters, and string templates

#include <chrono>
#include <cmath>
#include <map>
#include <optional>
#include <vector>
#include <archon/core/format.hpp>
#include <archon/core/format_as.hpp>
#include <archon/core/format_with.hpp>
#include <archon/core/string_template.hpp>
#include "common.hpp"

using namespace archon;

namespace {

enum class Piece { lit, param, pct, bad, trail };

struct Fmt {
    std::string text;
    std::vector<std::string> out; // Literal runs between parameters
    int params = 0;
    bool valid = true;
};

Fmt gen_fmt(vf::Case& c)
{
    Fmt f;
    f.out.push_back("");
    for (std::size_t i = c.rng.below(9); i > 0; --i) {
        switch (c.rng.below(8)) {
            case 0:
            case 1: {
                std::string s;
                for (std::size_t k = c.rng.below(6); k > 0; --k)
                    s += "abs<>s ,{@"[c.rng.below(10)];
                f.text += s;
                f.out.back() += s;
                break;
            }
            case 2:
                f.text += "%%";
                f.out.back() += "%";
                break;
            case 3:
                if (c.rng.chance(1, 8)) {
                    f.text += '%';
                    f.text += "Sdx {"[c.rng.below(5)];
                    f.valid = false;
                }
                break;
            default:
                f.text += "%s";
                f.out.push_back("");
                ++f.params;
                break;
        }
    }
    if (c.rng.chance(1, 16)) {
        f.text += "%";
        f.valid = false;
    }
    return f;
}

template<class C> struct Ref {
    int kind;
    int i;
    std::string s;
    Str<C> ws;
    double d;
    std::string text() const
    {
        std::ostringstream o;
        if (kind == 0)
            o << i;
        else if (kind == 1)
            o << s;
        else
            o << d;
        return o.str();
    }
};

template<class C, class F> void with_params(const std::vector<Ref<C>>& p, std::size_t k, F&& f)
{
    // Dispatch on the number of parameters; values are passed as type-erased references
    switch (k) {
        case 0: f(); return;
        case 1: f(p[0]); return;
        case 2: f(p[0], p[1]); return;
        case 3: f(p[0], p[1], p[2]); return;
        case 4: f(p[0], p[1], p[2], p[3]); return;
        default: f(p[0], p[1], p[2], p[3], p[4]); return;
    }
}

template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Ref<C>& r)
{
    if (r.kind == 0)
        return o << r.i;
    if (r.kind == 1)
        return o << r.ws;
    return o << r.d;
}

template<class C> void fmt(vf::Case& c)
{
    Fmt f = gen_fmt(c);
    std::size_t n = std::size_t(f.params);
    if (c.rng.chance(1, 8))
        n = c.rng.below(6);
    if (n > 5 || f.params > 5)
        return;
    std::vector<Ref<C>> p(5);
    std::string want;
    for (std::size_t k = 0; k < 5; ++k) {
        p[k].kind = int(c.rng.below(3));
        p[k].i = int(c.rng.range(-1000, 100000));
        p[k].d = double(c.rng.range(-100, 100)) / 8;
        std::string s;
        for (std::size_t j = c.rng.below(5); j > 0; --j)
            s += "x%sy%"[c.rng.below(5)];
        p[k].s = s;
        p[k].ws = W<C>(s);
    }
    bool ok = f.valid && n == std::size_t(f.params);
    if (ok) {
        want = f.out[0];
        for (std::size_t k = 0; k < n; ++k)
            want += p[k].text() + f.out[k + 1];
    }
    int how = int(c.rng.below(6));
    Stream<C> o(c, how == 3);
    Str<C> wide = W<C>(f.text);
    std::basic_string_view<C> sv = wide;
    bool thrown = false;
    Str<C> got;
    try {
        with_params<C>(p, n, [&](const auto&... q) {
            switch (how) {
                case 0: got = core::format<C>(f.text.c_str(), q...); return;
                case 1: got = core::format(sv, q...); return;
                case 2: core::format(o.out, sv, q...); got = o.out.str(); return;
                case 3: {
                    if (c.rng.chance(1, 2))
                        o.out << core::formatted(f.text.c_str(), q...);
                    else
                        o.out << core::formatted(sv, q...);
                    got = o.out.str();
                    return;
                }
                case 4: got = core::format(std::locale::classic(), sv, q...); return;
                default: {
                    const core::BasicFormattableValueRef<C> refs[] = { core::BasicFormattableValueRef<C>(q)..., core::BasicFormattableValueRef<C>(p[0]) };
                    core::format_alt(o.out, sv, core::Span<const core::BasicFormattableValueRef<C>>(refs, sizeof...(q)));
                    got = o.out.str();
                    return;
                }
            }
        });
    }
    catch (const core::BadFormatString&) {
        thrown = true;
    }
    auto ctx = [&](std::ostream& e) { e << "format " << shw(f.text) << " with " << n << " parameters, variant " << how << " width " << o.width << ": got " << shw(got) << ", expected " << want; };
    VF_EQ(!thrown, ok, "format/validity", ctx);
    if (ok) {
        Str<C> w = W<C>(want);
        if (how == 3)
            w = o.pad(w);
        VF_REQUIRE(got == w, "format/text", ctx);
        c.event("formatted");
    }
    else {
        c.event("rejected");
    }
    c.nontrivial(vf::Hash().add(f.text).add(how).get());
    c.sample([&] { return f.text + " -> " + want; });
}

// Split `<number><space*><prefix>` into parts
struct Quant { double num = 0; std::string digits, rest; };

Quant split(const std::string& s)
{
    Quant q;
    std::size_t i = 0;
    while (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.' || s[i] == '-' || s[i] == '+' ||
                            (s[i] == 'e' && i + 1 < s.size() && (s[i + 1] == '+' || s[i + 1] == '-'))))
        ++i;
    q.digits = s.substr(0, i);
    q.rest = s.substr(i);
    q.num = i ? std::strtod(q.digits.c_str(), nullptr) : NAN;
    return q;
}

template<class T> std::string plain(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}

template<class C> struct Out {
    Stream<C> o;
    vf::Case& c;
    explicit Out(vf::Case& c2) : o(c2), c(c2) {}
    template<class V> Str<C> operator()(V&& v) { o.out << v; return o.out.str(); }
    // The text without the padding
    std::string strip(Str<C> s)
    {
        if (s.size() == o.width && o.width) {
            if (o.left)
                while (!s.empty() && s.back() == o.fill) s.pop_back();
            else
                while (!s.empty() && s.front() == o.fill) s.erase(s.begin());
        }
        return std::string(s.begin(), s.end());
    }
    void expect(const Str<C>& got, const std::string& want, const char* key, const std::string& what)
    {
        Str<C> w = o.pad(W<C>(want));
        VF_REQUIRE(got == w, key, what << " width " << o.width << ": got " << shw(got) << ", expected " << shw(w));
    }
};

template<class C, class I> void ordinal(vf::Case& c, I v)
{
    Out<C> o(c);
    std::string s = std::to_string(v);
    char last = s.back();
    char prev = s.size() > 1 ? s[s.size() - 2] : '0';
    const char* suffix = prev == '1' ? "th" : last == '1' ? "st" : last == '2' ? "nd" : last == '3' ? "rd" : "th";
    o.expect(o(core::as_ordinal(v)), s + suffix, "as_ordinal/text", s);
}

double magnitude(vf::Case& c)
{
    double v;
    switch (c.rng.below(6)) {
        case 0: v = double(c.rng.below(2000)); break;
        case 1: v = std::pow(10.0, double(c.rng.range(-25, 26))) * (1 + double(c.rng.below(9000)) / 1000); break;
        case 2: v = std::pow(1000.0, double(c.rng.range(-8, 8))) * (0.999 + double(c.rng.below(2000)) * 1e-6); break;
        case 3: v = std::pow(1024.0, double(c.rng.range(0, 8))) * (0.97 + double(c.rng.below(60000)) * 1e-6); break;
        case 4: v = double(c.rng.below(1000000)) / 8; break;
        default: v = 1 + double(c.rng.below(100)); break;
    }
    return c.rng.chance(1, 5) ? -v : v;
}

template<class C> void quant(vf::Case& c, bool bin)
{
    double v = magnitude(c);
    if (v == 0)
        v = 1;
    static const char* units[] = { " s", "s", " B", "Hz", "  m/s" };
    std::string unit = units[c.rng.below(5)];
    Out<C> o(c);
    Str<C> got = bin ? o(core::as_quant_bin(v, unit.c_str())) : o(core::as_quant(v, unit.c_str()));
    std::string s = o.strip(got);
    Quant q = split(s);
    std::size_t sp = unit.find_first_not_of(' ');
    std::string prefix;
    bool shape = q.rest.size() >= unit.size() && q.rest.substr(0, sp) == unit.substr(0, sp) && q.rest.substr(q.rest.size() - (unit.size() - sp)) == unit.substr(sp);
    if (shape)
        prefix = q.rest.substr(sp, q.rest.size() - unit.size());
    static const std::map<std::string, int> dec = { {"", 0}, {"k", 1}, {"M", 2}, {"G", 3}, {"T", 4}, {"P", 5}, {"E", 6}, {"Z", 7}, {"Y", 8}, {"m", -1}, {"u", -2}, {"n", -3}, {"p", -4}, {"f", -5}, {"a", -6}, {"z", -7}, {"y", -8} };
    static const std::map<std::string, int> b = { {"", 0}, {"Ki", 1}, {"Mi", 2}, {"Gi", 3}, {"Ti", 4}, {"Pi", 5}, {"Ei", 6}, {"Zi", 7}, {"Yi", 8} };
    const auto& table = bin ? b : dec;
    auto i = table.find(prefix);
    shape = shape && i != table.end();
    std::ostringstream what;
    what.precision(17);
    what << (bin ? "as_quant_bin(" : "as_quant(") << v << ", \"" << unit << "\"): got \"" << s << "\"";
    VF_REQUIRE(shape, "as_quant/shape", what.str());
    double scale = std::pow(bin ? 1024.0 : 1000.0, i->second);
    double x = v / scale;
    // Three significant digits, trailing zeroes omitted
    char buf[64];
    bool match = false;
    for (double eps : { 0.0, 1e-12, -1e-12 }) {
        std::snprintf(buf, sizeof buf, "%.3g", x * (1 + eps));
        match = match || q.digits == buf;
    }
    VF_REQUIRE(match, "as_quant/three_digits", what.str() << ", expected mantissa " << buf);
    // The prefix is the applicable one
    double m = std::abs(q.num);
    double top = bin ? 1024 : 1000;
    if (i->second < 8)
        VF_REQUIRE(m < top, "as_quant/prefix_too_small", what.str());
    if (bin ? i->second > 0 : i->second > -8)
        VF_REQUIRE(m >= (bin ? 0.97 : 1), "as_quant/prefix_too_large", what.str());
    Str<C> padded = o.o.pad(W<C>(s));
    VF_REQUIRE(got == padded, "as_quant/padding", what.str());
    c.nontrivial(vf::Hash().add(s).get());
    c.event("quantity");
    c.sample([&] { return what.str(); });
}

template<class C> void percent(vf::Case& c)
{
    int n = int(c.rng.below(7));
    double v;
    switch (c.rng.below(5)) {
        case 0: v = std::nextafter(1.0, 0.0); break;
        case 1: v = 1 - std::pow(10.0, -double(c.rng.range(1, 12))); break;
        case 2: v = double(c.rng.below(201)) / 200; break;
        case 3: v = c.rng.unit(); break;
        default: v = double(c.rng.below(1000)) / 64; break;
    }
    Out<C> o(c);
    Str<C> got = o(core::as_percent(v, n));
    std::string s = o.strip(got);
    std::ostringstream what;
    what.precision(17);
    what << "as_percent(" << v << ", " << n << "): got \"" << s << "\"";
    Quant q = split(s);
    bool shape = q.rest == "%" && !q.digits.empty();
    std::size_t dot = q.digits.find('.');
    shape = shape && (n == 0 ? dot == std::string::npos : dot != std::string::npos && q.digits.size() - dot - 1 == std::size_t(n));
    VF_REQUIRE(shape, "as_percent/shape", what.str());
    double step = std::pow(10.0, -n);
    VF_REQUIRE(q.num <= v * 100 * (1 + 1e-12) + 1e-12 && q.num > v * 100 - step - 1e-9, "as_percent/value", what.str());
    VF_REQUIRE((q.num >= 100) == (v >= 1), "as_percent/jump_to_100", what.str());
    Str<C> padded = o.o.pad(W<C>(s));
    VF_REQUIRE(got == padded, "as_percent/padding", what.str());
    c.event("percent");
    c.nontrivial(vf::Hash().add(s).get());
}

template<class C> void time_of(vf::Case& c)
{
    double v;
    switch (c.rng.below(4)) {
        case 0: v = double(c.rng.below(59)) + 0.25; break;
        case 1: v = 60 + double(c.rng.below(35000)) / 10; break;
        case 2: v = 3600 + double(c.rng.below(1000000)); break;
        default: v = double(c.rng.below(4000)); break;
    }
    if (v == 0)
        v = 1;
    bool neg = c.rng.chance(1, 5);
    double a = v;
    if (neg)
        v = -v;
    Out<C> o(c);
    Str<C> got = c.rng.chance(1, 2) ? o(core::as_time_a(v)) : o(core::as_time(std::chrono::duration<double>(v)));
    std::string s = o.strip(got);
    std::ostringstream what;
    what.precision(17);
    what << "as_time(" << v << "): got \"" << s << "\"";
    // Forms that represent the time, in each of the adjacent ranges when close to the limit
    std::vector<std::string> allow;
    std::string sign = neg ? "-" : "";
    if (a < 60)
        allow.push_back(plain(core::as_quant(v, "s")));
    for (long k : { long(std::floor(a)), long(std::floor(a)) + 1 }) {
        if (std::abs(double(k) - a) <= 0.5 && k >= 60 && a < 3600)
            allow.push_back(sign + std::to_string(k / 60) + "m" + std::to_string(k % 60) + "s");
    }
    double min = a / 60;
    for (long k : { long(std::floor(min)), long(std::floor(min)) + 1 }) {
        if (std::abs(double(k) - min) <= 0.5 && k >= 60)
            allow.push_back(sign + std::to_string(k / 60) + "h" + std::to_string(k % 60) + "m");
    }
    bool ok = false;
    for (const auto& w : allow)
        ok = ok || w == s;
    VF_REQUIRE(ok, "as_time/text", what.str() << ", expected " << (allow.empty() ? "" : allow[0]));
    Str<C> padded = o.o.pad(W<C>(s));
    VF_REQUIRE(got == padded, "as_time/padding", what.str());
    c.event("time");
    c.nontrivial(vf::Hash().add(s).get());
}

template<class C> void values(vf::Case& c)
{
    ordinal<C>(c, int(c.rng.below(250)));
    ordinal<C>(c, c.rng.chance(1, 2) ? int(c.rng.next()) : -int(c.rng.below(250)));
    ordinal<C>(c, static_cast<unsigned long>(c.rng.next()));
    ordinal<C>(c, std::numeric_limits<long>::min() + long(c.rng.below(30)));
    c.event("ordinal", 4);
    {
        int v = int(c.rng.range(-3, 30));
        double d = c.rng.chance(1, 2) ? 1.0 : double(c.rng.range(-10, 30)) / 4;
        core::NumOfSpec spec = { "car", "cars" };
        Out<C> o(c), p(c);
        o.expect(o(core::as_num_of(v, spec)), std::to_string(v) + (v == 1 || v == -1 ? " car" : " cars"), "as_num_of/text", std::to_string(v));
        p.expect(p(core::as_num_of(d, spec)), plain(d) + (d == 1 || d == -1 ? " car" : " cars"), "as_num_of/text", plain(d));
    }
    {
        std::optional<int> v;
        if (c.rng.chance(1, 2))
            v = int(c.rng.below(1000));
        Out<C> o(c);
        o.expect(o(core::as_optional(v, "none")), v ? std::to_string(*v) : std::string("none"), "as_optional/text", "optional");
    }
    {
        // Small amounts are numbers of bytes, others are quantities
        double v = c.rng.chance(1, 2) ? double(c.rng.below(1300)) : std::abs(magnitude(c));
        Out<C> o(c);
        std::string want = v < 1024 ? plain(core::as_num_of(v, { "byte", "bytes" })) : plain(core::as_quant_bin(v, " B"));
        o.expect(o(core::as_byte_size(v)), want, "as_byte_size/text", plain(v));
        c.event("byte_size");
    }
    {
        int k = int(c.rng.below(100));
        Out<C> o(c);
        o.expect(o(core::as_format_func([&](std::basic_ostream<C>& s) { s << "<" << k << ">"; })), "<" + std::to_string(k) + ">", "as_format_func/text", plain(k));
    }
    {
        // format_with
        double d = double(c.rng.range(-100000, 100000)) / 64;
        int prec = int(c.rng.below(9));
        Stream<C> s(c, false);
        s.out.precision(4);
        bool pos = c.rng.chance(1, 2);
        if (pos)
            s.out.setf(std::ios_base::showpos);
        char buf[512];
        auto num = [&](const char* a, const char* b, int p) {
            std::snprintf(buf, sizeof buf, pos ? b : a, p, d);
            return std::string(buf);
        };
        std::string want;
        // Sometimes with a field width, which must apply to what is written, and to nothing more
        auto width = [&](std::string text) {
            want += text;
        };
        auto before = [&]() -> std::size_t {
            std::size_t w = c.rng.chance(1, 2) ? c.rng.below(24) : 0;
            s.out.width(std::streamsize(w));
            return w;
        };
        auto padded = [&](std::string t, std::size_t w) {
            std::string pad(w > t.size() ? w - t.size() : 0, char(s.fill));
            return (s.left ? t + pad : pad + t);
        };
        std::size_t w1 = before();
        s.out << core::with_precision(d, prec) << "|";
        width(padded(num("%.*g", "%+.*g", prec), w1) + "|");
        std::size_t w2 = before();
        s.out << core::with_fixed(d, prec) << "|";
        width(padded(num("%.*f", "%+.*f", prec), w2) + "|");
        s.out << d << "|";
        width(num("%.*g", "%+.*g", 4) + "|");
        std::size_t w = c.rng.below(12);
        int k = int(c.rng.below(100000));
        before();
        s.out << core::with_width(k, std::streamsize(w)) << "|" << k;
        std::string t = (pos ? "+" : "") + std::to_string(k);
        width(padded(t, w) + "|" + t);
        Str<C> got = s.out.str(), ww = W<C>(want);
        VF_REQUIRE(got == ww, "format_with/text", "got " << shw(got) << ", expected " << shw(ww));
        c.event("format_with");
    }
}

template<class C> struct Ctx {
    int y;
    Str<C> s;
};

template<class C> void templ(vf::Case& c)
{
    using View = std::basic_string_view<C>;
    using Templ = core::BasicStringTemplate<View, Ctx<C>>;
    using Error = typename Templ::Parser::Error;
    int x = int(c.rng.below(1000));
    Str<C> str = W<C>("v@");
    typename Templ::Parameters params;
    params["x"] = &x;
    params["foo"] = &str;
    params["y"] = &Ctx<C>::y;
    params["bar baz"] = &Ctx<C>::s;
    params["{"] = [](std::basic_ostream<C>& out, const Ctx<C>& ctx) { out << "<" << (ctx.y + 1) << ">"; };
    params[""] = [](std::basic_ostream<C>& out, const Ctx<C>&) { out << "empty"; };
    static const char* names[] = { "x", "foo", "y", "bar baz", "{", "" };
    struct Item { int kind; std::string text; int param; };
    std::vector<Item> items;
    std::string text;
    std::vector<std::pair<Error, int>> errors;
    int nerr = 0, nref = 0;
    std::size_t n = c.rng.below(10);
    bool used[6] = {};
    bool errs = c.rng.chance(1, 4);
    for (std::size_t i = 0; i < n; ++i) {
        int k = int(c.rng.below(8));
        if (k < 2) {
            std::string s;
            for (std::size_t j = c.rng.below(6); j > 0; --j)
                s += "ab x{}y%"[c.rng.below(8)];
            // Must not continue an unterminated reference of the erroneous kind
            items.push_back({ 0, s, 0 });
            text += s;
        }
        else if (k == 2) {
            items.push_back({ 0, "@", 0 });
            text += "@@";
        }
        else if (k == 3 && errs) {
            const char* bad[] = { "@z", "@{no}", "@{X}", "@ ", "@}" };
            std::string s = bad[c.rng.below(5)];
            items.push_back({ 2, s, 0 });
            text += s;
            ++nref;
            ++nerr;
        }
        else if (k >= 4) {
            int p = int(c.rng.below(6));
            std::string name = names[p];
            used[p] = true;
            bool brief = name.size() == 1 && name != "{" && c.rng.chance(1, 2);
            text += brief ? "@" + name : "@{" + name + "}";
            items.push_back({ 1, "", p });
        }
    }
    int nsyn = 0;
    if (errs && c.rng.chance(1, 2)) {
        text += c.rng.chance(1, 2) ? "@" : "@{abc";
        ++nsyn;
        ++nerr;
    }
    Str<C> wide = W<C>(text);
    View sv = wide;
    auto ctxs = [&](std::ostream& o) { o << "template " << shw(wide); };
    std::locale loc = c.rng.chance(1, 2) ? std::locale::classic() : std::locale("C.UTF-8");
    std::optional<typename Templ::Parser> parser;
    if (c.rng.chance(1, 2))
        parser.emplace();
    else
        parser.emplace(loc);
    bool index_odd = c.rng.chance(1, 2);
    bool shorten = c.rng.chance(1, 2);
    for (int round = 0; round < 2; ++round) {
        int stop_after = c.rng.chance(1, 3) ? int(c.rng.below(4)) : 1000;
        int seen = 0, seen_ref = 0, seen_syn = 0;
        Templ t("previous", params);
        auto handler = [&](Error code, View msg) {
            VF_REQUIRE(!msg.empty(), "template/error_message", ctxs);
            ++seen;
            if (code == Error::bad_syntax)
                ++seen_syn;
            else
                ++seen_ref;
            return seen <= stop_after;
        };
        bool by_cstr = c.rng.chance(1, 3);
        bool ok = by_cstr ? parser->try_parse(text.c_str(), params, t, handler) : parser->try_parse(sv, params, t, handler);
        bool want = nerr <= stop_after;
        VF_EQ(ok, want, "template/parse_result", ctxs);
        if (ok) {
            VF_EQ(seen_ref, nref, "template/bad_param_refs", ctxs);
            VF_EQ(seen_syn, nsyn, "template/bad_syntax", ctxs);
        }
        else {
            VF_EQ(seen, stop_after + 1, "template/abort", ctxs);
            std::basic_ostringstream<C> o;
            o << core::expand(t, Ctx<C> { 0, {} });
            VF_REQUIRE(o.str() == W<C>("previous"), "template/left_untouched", ctxs);
            c.event("aborted");
        }
        bool thrown = false;
        try {
            // The locale object passed to the constructor need not outlive the parser
            auto temp_loc = std::make_unique<std::locale>(loc);
            typename Templ::Parser direct(*temp_loc);
            temp_loc.reset();
            Templ t2 = index_odd ? direct.parse(sv, params) : shorten ? parser->parse(sv, params) : Templ(sv, params, loc);
        }
        catch (const std::exception&) {
            thrown = true;
        }
        VF_EQ(thrown, nerr != 0, "template/parse_throws", ctxs);
        c.event(nerr ? "template_bad" : "template_good");
        if (nerr)
            continue;
        for (int p = 0; p < 6; ++p)
            VF_EQ(t.refers_to(names[p]), used[p], "template/refers_to", [&](std::ostream& o) { ctxs(o); o << " parameter " << names[p]; });
        VF_REQUIRE(!t.refers_to("@") && !t.refers_to("nope"), "template/refers_to", ctxs);
        typename Templ::Expander expander(loc);
        Templ moved = std::move(t);
        for (int k = 0; k < 3; ++k) {
            x = int(c.rng.below(100000)); // Values are those at the time of expansion
            Ctx<C> cx { int(c.rng.range(-5, 500)), W<C>(std::string(c.rng.below(40), 'q')) };
            std::string w;
            for (const Item& i : items) {
                if (i.kind == 0) {
                    w += i.text;
                    continue;
                }
                switch (i.param) {
                    case 0: w += std::to_string(x); break;
                    case 1: w += "v@"; break;
                    case 2: w += std::to_string(cx.y); break;
                    case 3: w += std::string(cx.s.size(), 'q'); break;
                    case 4: w += "<" + std::to_string(cx.y + 1) + ">"; break;
                    default: w += "empty"; break;
                }
            }
            Str<C> ww = W<C>(w);
            auto what = [&](std::ostream& o) { ctxs(o); o << ", expected " << shw(ww); };
            View e = expander.expand(moved, cx);
            VF_REQUIRE(e == View(ww), "template/expander", [&](std::ostream& o) { what(o); o << " got " << shw(Str<C>(e)); });
            std::basic_ostringstream<C> o1;
            moved.expand(o1, cx);
            Str<C> g1 = o1.str();
            VF_REQUIRE(g1 == ww, "template/expand", [&](std::ostream& o) { what(o); o << " got " << shw(g1); });
            Stream<C> o2(c);
            o2.out << core::expand(moved, cx);
            Str<C> g2 = o2.out.str(), w2 = o2.pad(ww);
            VF_REQUIRE(g2 == w2, "template/expand_with_width", [&](std::ostream& o) { what(o); o << " got " << shw(g2); });
            c.event("expanded");
        }
    }
    c.nontrivial(vf::Hash().add(text).get());
    c.sample([&] { return text; });
}

} // unnamed namespace

VF_MONITOR(format, 40000, 1000000)
{
    c.nontrivial(c.index);
    for (int i = 0; i < 3; ++i) {
        fmt<char>(c);
        fmt<wchar_t>(c);
    }
}

VF_MONITOR(format_as, 20000, 500000)
{
    c.nontrivial(c.index);
    if (c.rng.chance(1, 2)) {
        values<char>(c);
        quant<char>(c, false);
        quant<char>(c, true);
        percent<char>(c);
        time_of<char>(c);
    }
    else {
        values<wchar_t>(c);
        quant<wchar_t>(c, false);
        quant<wchar_t>(c, true);
        percent<wchar_t>(c);
        time_of<wchar_t>(c);
    }
}

VF_MONITOR(string_template, 6000, 400000)
{
    if (c.rng.chance(1, 2))
        templ<char>(c);
    else
        templ<wchar_t>(c);
}
