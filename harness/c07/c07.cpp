// C07: formatting and parsing of values
#include <cmath>
#include <chrono>
#include <ctime>
#include <iomanip>
#include <locale>
#include <optional>
#include <sstream>
#include <archon/core/as_int.hpp>
#include <archon/core/char_mapper.hpp>
#include <archon/core/enum.hpp>
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include <archon/core/time.hpp>
#include <archon/core/timestamp_formatter.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
#include "../c05/wide.hpp"

using namespace archon;

namespace {

struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "sand"; }
    std::string do_falsename() const override { return "falsk"; }
};
struct WPunct : std::numpunct<wchar_t> {
    wchar_t do_decimal_point() const override { return L','; }
    wchar_t do_thousands_sep() const override { return L' '; }
    std::string do_grouping() const override { return "\2\3"; }
};

const std::locale& pick_locale(vf::Rng& r)
{
    static std::locale locs[] = {
        std::locale::classic(),
        std::locale("C.UTF-8"),
        std::locale(std::locale(std::locale::classic(), new Punct), new WPunct),
    };
    return locs[r.below(3)];
}

template<class C> std::basic_string<C> wide(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
template<class C> std::string nar(std::basic_string_view<C> s)
{
    std::string r;
    for (C ch : s) r += (ch >= 0 && ch < 128) ? char(ch) : '?';
    return r;
}

std::string ref_format(const Z& z, int radix, int min_digits, int max_digits, bool lower)
{
    std::string s;
    U128 m = z.mag;
    if (min_digits < 0) min_digits = max_digits;
    while (m != 0 || int(s.size()) < min_digits) {
        int d = int(m % unsigned(radix));
        s.insert(s.begin(), char(d < 10 ? '0' + d : (lower ? 'a' : 'A') + d - 10));
        m /= unsigned(radix);
    }
    return (z.neg ? "-" : "") + s;
}

template<class T> int max_digits(int radix)
{
    int n = 0;
    for (U128 m = std::max(Z(std::numeric_limits<T>::max()).mag, Z(std::numeric_limits<T>::min()).mag); m != 0; m /= unsigned(radix)) ++n;
    return n;
}

// What the integer parser must do with a string
template<class T> std::optional<T> ref_parse(std::string_view s, int radix, bool minus, bool plus)
{
    bool neg_ = false;
    if (!s.empty() && ((s[0] == '-' && minus) || (s[0] == '+' && plus))) {
        neg_ = s[0] == '-';
        s.remove_prefix(1);
    }
    if (s.empty()) return {};
    U128 m = 0;
    for (char ch : s) {
        int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
        if (d >= radix) return {};
        if (m < (U128(1) << 100)) m = m * unsigned(radix) + unsigned(d);
    }
    Z z(neg_, m);
    if (!fits<T>(z)) return {};
    return wrap<T>(z);
}

// A string that is, or almost is, a representation of an integer
template<class T> std::string gen_text(vf::Rng& r, int radix)
{
    Z z(interesting<T>(r));
    if (r.chance(1, 4)) {
        // Just past a limit
        z = Z(r.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min());
        z = add(z, Z(r.chance(1, 2), U128(r.below(unsigned(radix) + 2))));
    }
    else if (r.chance(1, 6)) {
        z.mag *= unsigned(radix);
    }
    std::string s = ref_format(z, radix, int(r.chance(1, 5) ? r.below(80) : 1), 0, r.chance(1, 2));
    if (r.chance(1, 6)) s.insert(0, r.chance(1, 2) ? "+" : "-");
    if (r.chance(1, 6) && !s.empty()) {
        static const char odd[] = "+-_ .,xX0129azAZgG/:@[`{\x80\xff";
        std::size_t i = r.below(s.size() + 1);
        char ch = odd[r.below(sizeof odd)];
        if (r.chance(1, 2)) s.insert(s.begin() + long(i), ch); else if (i < s.size()) s[i] = ch;
    }
    if (r.chance(1, 20)) s = s.substr(0, r.below(3));
    return s;
}

template<class C, class T> void int_case(vf::Case& c)
{
    const std::locale& loc = pick_locale(c.rng);
    core::BasicCharMapper<C> mapper(loc);
    T v = interesting<T>(c.rng);
    int radix = c.rng.chance(1, 2) ? c.rng.pick<int>({ 2, 8, 10, 16 }) : int(c.rng.range(2, 36));
    int mind = c.rng.pick<int>({ 1, 1, 0, -1, 2, 5, 20, 64, 70, 200 });
    bool lower = c.rng.chance(1, 3);
    core::BasicIntegerFormatter<C> f(mapper);
    if (lower) f.use_lowercase();
    int rounds = int(c.rng.range(1, 3));
    for (int i = 0; i < rounds; ++i) {
        std::string e = ref_format(Z(v), radix, mind, max_digits<T>(radix), lower);
        auto where = [&] { return std::string(tname<T>()) + " " + show_z(Z(v)) + " radix " + std::to_string(radix) + " min " + std::to_string(mind); };
        VF_EQ(nar<C>(f.format_a(v, radix, mind)), e, "format", where());
        if (radix == 10) {
            VF_EQ(nar<C>(f.format(v, mind)), e, "format", where());
            VF_EQ(nar<C>(f.format_dec(v, mind)), e, "format", where());
        }
        if (radix == 2) VF_EQ(nar<C>(f.format_bin(v, mind)), e, "format", where());
        if (radix == 8) VF_EQ(nar<C>(f.format_oct(v, mind)), e, "format", where());
        if (radix == 16) VF_EQ(nar<C>(f.format_hex(v, mind)), e, "format", where());
        if (radix == 7) VF_EQ(nar<C>(f.template format<7>(v, mind)), e, "format", where());
        if (radix == 36) VF_EQ(nar<C>(f.template format<36>(v, mind)), e, "format", where());
        // Back again
        core::BasicIntegerParser<C> p(mapper);
        T w = T(1);
        bool ok = p.parse_a(wide<C>(e), radix, w);
        bool expect = !e.empty();
        VF_REQUIRE(ok == expect && w == (ok ? v : T(1)), "round_trip", where() << " text " << e);
        v = interesting<T>(c.rng);
    }
    for (int bad : { -1, 0, 1, 37, 1000 }) {
        bool thrown = false;
        try { f.format_a(v, bad); } catch (const std::invalid_argument&) { thrown = true; }
        VF_REQUIRE(thrown, "radix", "radix " << bad << " accepted");
    }
    // Parsing of arbitrary text
    core::BasicIntegerParser<C> p(mapper);
    std::string s = gen_text<T>(c.rng, radix);
    std::basic_string<C> ws;
    bool other = false;
    for (char ch : s) {
        if ((unsigned char)ch >= 128) other = true;
        ws += C(sizeof(C) == 1 ? ch : (unsigned char)ch);
    }
    std::string s2 = s;
    if (other) s2 = "?";
    using S = core::IntegerParserBase::Sign;
    auto check = [&](auto sign_tag, bool minus, bool plus) {
        constexpr S sign = decltype(sign_tag)::value;
        std::optional<T> e = ref_parse<T>(s2, radix, minus, plus);
        T w = T(1);
        bool ok;
        switch (radix) {
            case 2: ok = p.template parse_bin<sign>(ws, w); break;
            case 8: ok = p.template parse_oct<sign>(ws, w); break;
            case 10: ok = p.template parse_dec<sign>(ws, w); break;
            case 16: ok = p.template parse_hex<sign>(ws, w); break;
            case 36: ok = p.template parse<36, sign>(ws, w); break;
            default: ok = p.template parse_a<sign>(ws, radix, w); break;
        }
        VF_REQUIRE(ok == e.has_value() && w == (ok ? *e : T(1)), "parse", tname<T>() << " " << vf::show(s) << " radix " << radix
                   << " sign mode " << int(sign) << " gave " << ok << " " << Z(w));
        c.event(ok ? "accepted" : "rejected");
    };
    bool sg = std::numeric_limits<T>::is_signed;
    check(std::integral_constant<S, S::auto_>(), sg, false);
    check(std::integral_constant<S, S::accept>(), true, true);
    check(std::integral_constant<S, S::accept_minus>(), true, false);
    check(std::integral_constant<S, S::reject>(), false, false);
    // Adaptors
    core::BasicValueParser<C> vp(loc);
    core::BasicValueFormatter<C> vfm(loc);
    {
        std::optional<T> e = ref_parse<T>(s2, radix, sg, false);
        T w = T(1);
        bool ok = vp.parse(ws, core::as_int_a(w, radix));
        VF_REQUIRE(ok == e.has_value() && w == (ok ? *e : T(1)), "as_int", tname<T>() << " " << vf::show(s) << " radix " << radix);
        VF_EQ(nar<C>(vfm.format(core::as_int_a(v, radix, mind))), ref_format(Z(v), radix, mind, max_digits<T>(radix), false), "as_int", radix);
        VF_EQ(nar<C>(vfm.format(core::as_hex_int(v))), ref_format(Z(v), 16, 1, 0, false), "as_int", "hex");
        VF_EQ(nar<C>(vfm.format(core::as_int<8>(v, mind))), ref_format(Z(v), 8, mind, max_digits<T>(8), false), "as_int", "oct");
        // Extraction from a stream: consumes exactly the alphanumeric token
        std::string tail = c.rng.pick<std::string>({ "", " x", ",", "!7", "\n" });
        std::string lead = c.rng.pick<std::string>({ "", "  ", "\n" });
        std::string tok = ref_format(Z(v), radix, 1, 0, false);
        std::basic_istringstream<C> in(wide<C>(lead + tok + tail));
        in.imbue(loc);
        w = T(1);
        in >> core::as_int_a(w, radix);
        VF_REQUIRE(!in.fail() && w == v, "stream", tname<T>() << " " << tok);
        in.clear();
        std::basic_string<C> rest;
        in >> std::noskipws;
        for (C ch; in.get(ch);) rest += ch;
        VF_EQ(nar<C>(rest), tail, "stream", tname<T>() << " " << tok);
    }
    if constexpr (std::is_unsigned_v<T>) {
        std::string t = c.rng.pick<std::string>({ "", "0", "0x", "0X", "00x" }) + gen_text<T>(c.rng, c.rng.pick<int>({ 8, 10, 16 }));
        for (char& ch : t) if ((unsigned char)ch >= 128) ch = '~';
        std::optional<T> e;
        if (t.size() < 1 || t[0] != '0') e = ref_parse<T>(t, 10, false, false);
        else if (t.size() < 2 || (t[1] != 'x' && t[1] != 'X')) e = ref_parse<T>(t, 8, false, false);
        else e = ref_parse<T>(std::string_view(t).substr(2), 16, false, false);
        T w = T(1);
        bool ok = vp.parse(wide<C>(t), core::as_flex_int(w));
        VF_REQUIRE(ok == e.has_value() && w == (ok ? *e : T(1)), "flex", tname<T>() << " " << vf::show(t));
        VF_EQ(nar<C>(vfm.format(core::as_flex_int(v))), ref_format(Z(v), 10, 1, 0, false), "flex", "");
        VF_EQ(nar<C>(vfm.format(core::as_flex_int_h(v))), "0x" + ref_format(Z(v), 16, 1, 0, false), "flex", "");
        w = T(1);
        VF_REQUIRE(vp.parse(vfm.format(core::as_flex_int_h(v)), core::as_flex_int_h(w)) && w == v, "flex", Z(v));
    }
    vf::Hash h;
    h.add(v).add(radix).add(s).add(std::string_view(tname<T>()));
    c.nontrivial(h.get());
    c.sample([&] { return std::string(tname<T>()) + " radix " + std::to_string(radix) + " text " + vf::show(s); });
}

} // namespace

#define INTS(m) m(bool) m(char) m(signed char) m(unsigned char) m(short) m(unsigned short) m(int) m(unsigned) m(long) m(unsigned long)
VF_MONITOR(integers, 3000, 100000, VF_NO_LEAK_CHECK)
{
#define ONE(T) int_case<char, T>(c);
    INTS(ONE)
    int_case<wchar_t, short>(c);
    int_case<wchar_t, unsigned long>(c);
}

namespace {

template<class T> void value_int(vf::Case& c)
{
    const std::locale& loc = pick_locale(c.rng);
    core::ValueFormatter f(loc);
    core::ValueParser p(loc);
    T v = interesting<T>(c.rng);
    std::string s(f.format(v));
    T w = T(1);
    // The parser rejects a leading dash for all unsigned types, as documented
    if (std::is_same_v<T, unsigned char> && v == T(0x2D)) return;
    VF_REQUIRE(p.parse(s, w) && w == v, "value_round_trip", tname<T>() << " " << Z(v) << " text " << s << " in " << loc.name());
    if constexpr (sizeof(T) > 1 || std::is_same_v<T, bool>) {
        // Exact acceptance is known in the classic locale
        core::ValueParser q(std::locale::classic());
        std::string t = gen_text<T>(c.rng, 10);
        std::optional<T> e = ref_parse<T>(t, 10, std::numeric_limits<T>::is_signed, true);
        w = T(1);
        bool ok = q.parse(t, w);
        VF_REQUIRE(ok == e.has_value() && w == (ok ? *e : T(1)), "value_parse", tname<T>() << " " << vf::show(t) << " gave " << ok << " " << Z(w));
    }
    core::WideValueFormatter wf(loc);
    core::WideValueParser wp(loc);
    if constexpr (!std::is_same_v<T, signed char> && !std::is_same_v<T, unsigned char> && !std::is_same_v<T, char>) {
        std::wstring ws(wf.format(v));
        w = T(1);
        VF_REQUIRE(wp.parse(ws, w) && w == v, "value_round_trip_w", tname<T>() << " " << Z(v) << " in " << loc.name());
    }
    vf::Hash h;
    h.add(v).add(std::string_view(tname<T>())).add(loc.name());
    c.nontrivial(h.get());
}

template<class F> void value_float(vf::Case& c)
{
    const std::locale& loc = pick_locale(c.rng);
    core::ValueFormatter f(loc);
    core::ValueParser p(loc);
    F v = std::ldexp(F(c.rng.real(-1, 1)), int(c.rng.range(-100, 100)));
    if (c.rng.chance(1, 3)) v = F(c.rng.range(-2000000, 2000000)) / F(c.rng.pick<int>({ 1, 2, 4, 10, 100 }));
    std::string s(f.format(v));
    F w = F(1);
    VF_REQUIRE(p.parse(s, w), "float_round_trip", vf::show(v) << " text " << s);
    VF_REQUIRE(std::fabs(w - v) <= F(5.1e-6) * std::fabs(v), "float_round_trip", vf::show(v) << " text " << s << " gave " << vf::show(w));
    std::string s2(f.format(w));
    VF_EQ(s, s2, "float_round_trip", vf::show(v));
    // Acceptance in the classic locale
    core::ValueParser q(std::locale::classic());
    std::string t;
    int n = int(c.rng.range(0, 8));
    for (int i = 0; i < n; ++i) t += "0123456789.e+-5x "[c.rng.below(17)];
    if (c.rng.chance(1, 2)) { std::ostringstream o; o.imbue(std::locale::classic()); o << v; t = o.str(); if (c.rng.chance(1, 3)) t.insert(c.rng.below(t.size() + 1), 1, ".-+e7 "[c.rng.below(6)]); }
    auto well_formed = [](std::string_view x) {
        std::size_t i = 0, d = 0;
        if (i < x.size() && (x[i] == '+' || x[i] == '-')) ++i;
        while (i < x.size() && std::isdigit((unsigned char)x[i])) ++i, ++d;
        if (i < x.size() && x[i] == '.') { ++i; while (i < x.size() && std::isdigit((unsigned char)x[i])) ++i, ++d; }
        if (d == 0) return false;
        if (i < x.size() && x[i] == 'e') {
            ++i;
            if (i < x.size() && (x[i] == '+' || x[i] == '-')) ++i;
            std::size_t k = i;
            while (i < x.size() && std::isdigit((unsigned char)x[i])) ++i;
            if (i == k || i - k > 3) return i == k ? false : i == x.size();
        }
        return i == x.size();
    };
    bool wf = well_formed(t);
    long double val = wf ? std::strtold(t.c_str(), nullptr) : 0;
    bool extreme = wf && val != 0 && (std::fabs(val) > 1e30 || std::fabs(val) < 1e-30);
    if (!extreme && !(wf && t.find('e') != std::string::npos && val == 0)) {
        w = F(1);
        bool ok = q.parse(t, w);
        VF_REQUIRE(ok == wf, "float_parse", vf::show(t) << " gave " << ok);
        F e = ok ? (sizeof(F) == 4 ? F(std::strtof(t.c_str(), nullptr)) : sizeof(F) == 8 ? F(std::strtod(t.c_str(), nullptr)) : F(val)) : F(1);
        VF_REQUIRE(w == e, "float_parse", vf::show(t) << " gave " << vf::show(w) << " expected " << vf::show(e));
        c.event(ok ? "accepted" : "rejected");
    }
    vf::Hash h;
    h.add(double(v)).add(t);
    c.nontrivial(h.get());
}

} // namespace

VF_MONITOR(values, 6000, 200000, VF_NO_LEAK_CHECK)
{
#define TWO(T) value_int<T>(c);
    INTS(TWO)
    value_float<float>(c);
    value_float<double>(c);
    value_float<long double>(c);
    core::ValueFormatter f(pick_locale(c.rng));
    core::ValueParser p(pick_locale(c.rng));
    std::string s;
    for (std::size_t i = 0, n = c.rng.below(300); i < n; ++i) s += char(c.rng.next());
    VF_EQ(std::string(f.format(s)), s, "string", "");
    std::string t = "x";
    VF_REQUIRE(p.parse(s, t) && t == s, "string", "");
}

// Enumerations

namespace {

enum class Plain { a, b, c, neg = -7, big = 2147483647, low = -2147483647 - 1 };
enum class Loose { one = 1, two, three };
struct PlainSpec {
    static constexpr core::EnumAssoc map[] = {
        { int(Plain::a), "a" }, { int(Plain::b), "ab" }, { int(Plain::c), "Ab_9" },
        { int(Plain::neg), "negative" }, { int(Plain::big), "abc" }, { int(Plain::low), "_" },
    };
};

} // namespace

namespace archon::core {
template<> struct EnumTraits<Loose> {
    static constexpr bool is_specialized = true;
    struct Spec {
        static constexpr EnumAssoc map[] = { { 1, "One" }, { 2, "two" }, { 3, "THREE_3" } };
    };
    static constexpr bool ignore_case = true;
};
} // namespace archon::core

namespace {

std::string upper(std::string s) { for (char& ch : s) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32); return s; }

template<class C, class E> void enum_case(vf::Case& c, std::initializer_list<std::pair<int, const char*>> table, bool ignore)
{
    const std::locale& loc = pick_locale(c.rng);
    core::BasicValueFormatter<C> f(loc);
    core::BasicValueParser<C> p(loc);
    auto known = [&](int v) -> const char* { for (auto& x : table) if (x.first == v) return x.second; return nullptr; };
    for (auto& x : table) {
        E e = E(typename E::base_enum_type(x.first));
        VF_EQ(nar<C>(f.format(e)), std::string(x.second), "enum_format", x.first);
        VF_EQ(std::string(e.name()), std::string(x.second), "enum_name", x.first);
        std::basic_string<C> s(f.format(e));
        E e2 = E(typename E::base_enum_type(77));
        VF_REQUIRE(p.parse(s, e2) && int(typename E::base_enum_type(e2)) == x.first, "enum_round_trip", x.second);
    }
    int v = int(c.rng.range(-10, 10));
    if (!known(v)) {
        E e = E(typename E::base_enum_type(v));
        std::string_view n;
        VF_REQUIRE(!e.name(n), "enum_unknown", v);
        bool thrown = false;
        try { e.name(); } catch (const std::out_of_range&) { thrown = true; }
        VF_REQUIRE(thrown, "enum_unknown", v);
        core::BasicValueFormatter<C> g(std::locale::classic());
        VF_EQ(nar<C>(g.format(e)), std::to_string(v), "enum_unknown", v);
    }
    // Arbitrary text
    std::string s;
    auto it = table.begin() + long(c.rng.below(table.size()));
    s = it->second;
    int muts = int(c.rng.below(3));
    for (int i = 0; i < muts; ++i) {
        std::size_t k = c.rng.below(s.size() + 1);
        switch (c.rng.below(4)) {
            case 0: s.insert(k, 1, "aAbB_9 !-"[c.rng.below(9)]); break;
            case 1: if (k < s.size()) s.erase(k, 1); break;
            case 2: if (k < s.size()) s[k] = char(s[k] ^ 32); break;
            default: s = s.substr(0, k); break;
        }
    }
    std::optional<int> expect;
    for (auto& x : table)
        if (ignore ? upper(x.second) == upper(s) : s == x.second) expect = x.first;
    E e2 = E(typename E::base_enum_type(77));
    bool ok = p.parse(wide<C>(s), e2);
    int got = int(typename E::base_enum_type(e2));
    VF_REQUIRE(ok == expect.has_value() && got == (ok ? *expect : 77) , "enum_parse", vf::show(s) << " gave " << ok << " " << got);
    typename E::base_enum_type b = typename E::base_enum_type(77);
    ok = E::parse(s, b);
    VF_REQUIRE(ok == expect.has_value() && int(b) == (ok ? *expect : 77), "enum_parse", vf::show(s));
    c.event(ok ? "accepted" : "rejected");
    vf::Hash h;
    h.add(s).add(sizeof(C)).add(ignore);
    c.nontrivial(h.get());
}

} // namespace

VF_MONITOR(enums, 5000, 100000, VF_NO_LEAK_CHECK)
{
    using A = core::Enum<Plain, PlainSpec>;
    using B = core::Enum<Loose, core::EnumTraits<Loose>::Spec, true>;
    auto ta = { std::pair<int, const char*>{ 0, "a" }, { 1, "ab" }, { 2, "Ab_9" }, { -7, "negative" }, { 2147483647, "abc" }, { -2147483647 - 1, "_" } };
    auto tb = { std::pair<int, const char*>{ 1, "One" }, { 2, "two" }, { 3, "THREE_3" } };
    enum_case<char, A>(c, ta, false);
    enum_case<wchar_t, A>(c, ta, false);
    enum_case<char, B>(c, tb, true);
    enum_case<wchar_t, B>(c, tb, true);
    Loose l = Loose::one;
    core::ValueParser p;
    VF_REQUIRE(p.parse("three_3", l) && l == Loose::three, "enum_traits", "");
    std::ostringstream o;
    o << l;
    VF_EQ(o.str(), "THREE_3", "enum_traits", "");
}

// Timestamps

namespace {

std::string civil(long long t)
{
    long long days = t / 86400, s = t % 86400;
    if (s < 0) s += 86400, --days;
    days += 719468;
    long long era = (days >= 0 ? days : days - 146096) / 146097;
    long long doe = days - era * 146097;
    long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    long long d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) ++y;
    char b[128];
    std::snprintf(b, sizeof b, "%04lld-%02lld-%02lldT%02lld:%02lld:%02lld", y, m, d, s / 3600, s / 60 % 60, s % 60);
    return b;
}

} // namespace

VF_MONITOR(timestamps, 5000, 200000, VF_NO_LEAK_CHECK)
{
    // Years 1000 to 9999
    long long t = c.rng.chance(1, 3) ? c.rng.range(-100000, 100000) : c.rng.range(-30610224000, 253402300799);
    if (c.rng.chance(1, 4)) t = t / 86400 * 86400 + c.rng.range(-1, 1);
    long ns = c.rng.chance(1, 3) ? c.rng.pick<long>({ 0, 1, 999, 1000, 999999, 1000000, 999999999, 999000000 }) : long(c.rng.below(1000000000));
    core::TimestampFormatter f(pick_locale(c.rng));
    core::WideTimestampFormatter wf(pick_locale(c.rng));
    for (int i = 0; i < 2; ++i) {
        core::TimestampFormatterBase::Params par;
        int prec = int(c.rng.below(4));
        par.precision = core::TimestampFormatterBase::Precision(prec);
        std::string e = civil(t);
        char frac[16];
        std::snprintf(frac, sizeof frac, ".%09ld", ns);
        e += prec == 0 ? "" : std::string(frac, std::size_t(1 + 3 * prec));
        core::timespec_type ts{ t, ns };
        VF_EQ(std::string(f.format_utc(ts, par)), e + "Z", "timestamp", t << " " << ns << " " << prec);
        VF_EQ(nar<wchar_t>(wf.format_utc(ts, par)), e + "Z", "timestamp", t << " " << ns << " " << prec);
        std::string form = c.rng.pick<std::string>({ "%FT%T", "<%%S %Y-%m-%dT%H:%M:%S>", "x%T", "%S", "%%T%F%%", "", "%H" });
        par.format = form;
        std::string sec = e.substr(17);
        std::string x = form == "%FT%T" ? e : form == "<%%S %Y-%m-%dT%H:%M:%S>" ? "<%S " + e + ">" : form == "x%T" ? "x" + e.substr(11) : form == "%S" ? sec :
            form == "%%T%F%%" ? "%T" + e.substr(0, 10) + "%" : form == "" ? e + "Z" : e.substr(11, 2);
        VF_EQ(std::string(f.format_utc(ts, par)), x, "timestamp_format", form << " " << t);
        if (!form.empty())
            VF_EQ(std::string(f.format(core::time_breakdown_utc(t), ns, par)), x, "timestamp_format", form << " " << t);
        if (prec == 0 && form == "%FT%T")
            VF_EQ(std::string(f.format_utc(std::time_t(t), par)), x, "timestamp_format", form << " " << t);
        // Chrono
        if (t > -9000000000ll && t < 9000000000ll) {
            using clk = std::chrono::system_clock;
            clk::time_point tp{ std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(t * 1000000000ll + ns)) };
            auto q = core::time_point_to_timespec(tp);
            VF_REQUIRE(q.tv_sec == t && q.tv_nsec == ns, "timespec", t << " " << ns << " gave " << q.tv_sec << " " << q.tv_nsec);
            VF_EQ(std::string(f.format_utc(tp, par)), x, "timestamp_format", form << " " << t);
        }
    }
    // Local time (the sandbox may have any zone): the zone offset must explain the difference
    std::string l(f.format_local(core::timespec_type{ t, ns }));
    VF_REQUIRE(l.size() == 24 && (l[19] == '+' || l[19] == '-'), "local", l);
    long off = (std::stol(l.substr(20, 2)) * 60 + std::stol(l.substr(22, 2))) * 60 * (l[19] == '-' ? -1 : 1);
    VF_EQ(l.substr(0, 16), civil(t + off).substr(0, 16), "local", t);
    vf::Hash h;
    h.add(t).add(ns);
    c.nontrivial(h.get());
}
