// Lists (formatting and parsing) and hex dumps

#include <array>
#include <vector>
#include <list>
#include <archon/core/as_list.hpp>
#include <archon/core/as_int.hpp>
#include <archon/core/hex_dump.hpp>
#include <archon/core/value_parser.hpp>
#include "common.hpp"

using namespace archon;

namespace {

struct Cfg {
    core::AsListConfig a;
    char ob = 0, cb = 0;
};

Cfg gen_cfg(vf::Case& c)
{
    Cfg r;
    r.a.separator = ",; :|/"[c.rng.below(6)];
    r.a.bracketed = c.rng.chance(1, 2);
    if (c.rng.chance(1, 2)) {
        int k = int(c.rng.below(4));
        r.a.opening_bracket = "([{<"[k];
        r.a.closing_bracket = ")]}>"[k];
    }
    r.a.space = core::AsListSpace(c.rng.below(5));
    return r;
}

std::string describe(const core::AsListConfig& a)
{
    std::ostringstream o;
    o << "sep='" << a.separator << "' bracketed=" << a.bracketed << " '" << a.opening_bracket << a.closing_bracket << "' space=" << int(a.space);
    return o.str();
}

std::string model(const std::vector<std::string>& e, const core::AsListConfig& a)
{
    bool after = a.space == core::AsListSpace::tight || a.space == core::AsListSpace::loose ||
        (a.space == core::AsListSpace::auto_ && a.separator != ' ');
    bool inside = a.space == core::AsListSpace::loose && !e.empty();
    std::string r;
    if (a.bracketed) {
        r += a.opening_bracket;
        if (inside)
            r += ' ';
    }
    for (std::size_t i = 0; i < e.size(); ++i) {
        if (i) {
            r += a.separator;
            if (after)
                r += ' ';
        }
        r += e[i];
    }
    if (a.bracketed) {
        if (inside)
            r += ' ';
        r += a.closing_bracket;
    }
    return r;
}

// A variation of the text that the parser must accept: extra space where space is allowed
std::string vary(vf::Case& c, const std::vector<std::string>& e, const core::AsListConfig& a)
{
    auto sp = [&] {
        return a.space == core::AsListSpace::none ? std::string() : std::string(c.rng.below(3), ' ');
    };
    std::string r;
    if (a.bracketed)
        r += a.opening_bracket + sp();
    for (std::size_t i = 0; i < e.size(); ++i) {
        if (i)
            r += a.separator + sp();
        r += e[i];
    }
    if (a.bracketed)
        r += sp() + a.closing_bracket;
    return r;
}

std::string str(int v) { return std::to_string(v); }
std::string hexs(int v) { std::ostringstream o; o << std::hex << std::uppercase << v; return o.str(); }

template<class C> void fmt(vf::Case& c)
{
    Cfg k = gen_cfg(c);
    core::AsListConfig& a = k.a;
    std::vector<int> v;
    for (std::size_t i = c.rng.below(9); i > 0; --i)
        v.push_back(c.rng.chance(1, 2) ? int(c.rng.below(3)) : int(c.rng.range(-1000, 1000)));
    std::size_t tail = c.rng.below(4);
    if (!v.empty()) {
        int fill = c.rng.chance(1, 2) ? 0 : v.back();
        for (std::size_t i = 0; i < tail; ++i)
            v.push_back(fill);
    }
    Stream<C> o(c);
    int kind = int(c.rng.below(8));
    std::vector<std::string> e;
    auto all = [&](std::size_t n) {
        for (std::size_t i = 0; i < n; ++i)
            e.push_back(str(v[i]));
    };
    switch (kind) {
        case 0:
            all(v.size());
            if (c.rng.chance(1, 2)) {
                o.out << core::as_list(v, a);
            }
            else {
                std::list<int> l(v.begin(), v.end());
                o.out << core::as_list(l, a);
            }
            break;
        case 1: {
            for (int& x : v)
                x = x < 0 ? -x : x;
            for (int x : v)
                e.push_back(hexs(x));
            o.out << core::as_list(v, [](const int& x) { return core::as_hex_int(x); }, a);
            break;
        }
        case 2: {
            a.bracketed = true;
            all(v.size());
            switch (c.rng.below(4)) {
                case 0: a.opening_bracket = '('; a.closing_bracket = ')'; o.out << core::as_rbr_list(v, a.separator, a.space); break;
                case 1: a.opening_bracket = '['; a.closing_bracket = ']'; o.out << core::as_sbr_list(v, a.separator, a.space); break;
                case 2: a.opening_bracket = '{'; a.closing_bracket = '}'; o.out << core::as_cbr_list(v, a.separator, a.space); break;
                default: a.opening_bracket = '<'; a.closing_bracket = '>'; o.out << core::as_abr_list(v, a.separator, a.space); break;
            }
            break;
        }
        case 3: {
            a = {};
            all(v.size());
            if (c.rng.chance(1, 2)) {
                o.out << core::as_list(v);
            }
            else {
                a.separator = ';';
                a.space = core::AsListSpace(c.rng.below(5));
                o.out << core::as_list(v, a.separator, a.space);
            }
            break;
        }
        case 4: {
            a = {};
            a.separator = ' ';
            all(v.size());
            o.out << core::as_words(v);
            break;
        }
        case 5:
        case 6: {
            std::size_t min = c.rng.below(6);
            bool copy_last = c.rng.chance(1, 2);
            std::size_t lo = std::max(min, std::size_t(1));
            std::size_t n = v.size();
            // Longest trailing section that may be elided
            for (std::size_t m = v.size(); m >= lo && m > 0; --m) {
                bool ok = true;
                for (std::size_t i = m; i < v.size(); ++i)
                    ok = ok && v[i] == (copy_last ? v[m - 1] : 0);
                if (ok)
                    n = std::min(n, m);
            }
            if (kind == 5) {
                all(n);
                o.out << core::as_list_a(v, min, copy_last, a);
            }
            else {
                for (std::size_t i = 0; i < n; ++i)
                    e.push_back(str(v[i] * 2));
                o.out << core::as_list_a(v, min, copy_last, [](int x) { return x * 2; }, a);
            }
            if (n < v.size())
                c.event("elided");
            break;
        }
        default: {
            std::size_t n = c.rng.below(v.size() + 3);
            all(std::min(n, v.size()));
            if (c.rng.chance(1, 2))
                o.out << core::as_list_v(v, n, a);
            else
                o.out << core::as_list_v(v, [](int x) { return x; }, n, a);
            break;
        }
    }
    Str<C> want = o.pad(W<C>(model(e, a)));
    Str<C> got = o.out.str();
    VF_REQUIRE(got == want, "as_list/text", describe(a) << " kind " << kind << " width " << o.width << ": got " << shw(got) << ", expected " << shw(want));
    VF_EQ(o.out.width(), std::streamsize(0), "as_list/width_reset", "");
    c.event("formatted");
    c.nontrivial(vf::Hash().add(vf::hash_bytes(got.data(), got.size() * sizeof(C))).add(kind).get());
    c.sample([&] { return describe(a) + " -> " + shw(got); });
}

template<class C> void prs(vf::Case& c)
{
    Cfg k = gen_cfg(c);
    core::AsListConfig& a = k.a;
    // A separator that cannot be confused with a value and space handling
    std::size_t n = c.rng.below(7);
    std::vector<int> v;
    std::vector<std::string> e;
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(int(c.rng.range(-100, 1000)));
        e.push_back(str(v.back()));
    }
    std::string text = vary(c, e, a);
    bool damaged = false;
    if (c.rng.chance(1, 4)) {
        damaged = true;
        switch (c.rng.below(6)) {
            case 0: // A bad element
                if (e.empty())
                    return;
                e[c.rng.below(e.size())] = c.rng.chance(1, 2) ? "x" : "7x";
                text = vary(c, e, a);
                break;
            case 1: // Trailing separator
                if (e.empty())
                    return;
                if (a.separator == ' ' && a.bracketed && a.space != core::AsListSpace::none)
                    return;
                e.push_back("");
                text = vary(c, e, a);
                break;
            case 2: // Missing closing bracket
                if (!a.bracketed)
                    return;
                text.pop_back();
                break;
            case 3:
                if (!a.bracketed)
                    return;
                text.erase(0, 1);
                break;
            case 4: // Space where none is accepted
                if (a.space != core::AsListSpace::none || e.size() < 2 || a.separator == ' ')
                    return;
                e[1] = " " + e[1];
                text = model(e, a);
                break;
            default:
                text += 'x';
                break;
        }
    }
    Str<C> wtext = W<C>(text);
    core::BasicValueParser<C> parser { std::locale::classic() };
    auto ctx = [&](std::ostream& o) { o << describe(a) << " n=" << n << " text " << shw(wtext) << " damaged=" << damaged; };
    std::basic_string_view<C> sv = wtext;
    switch (c.rng.below(5)) {
        case 0: { // Exact size
            std::vector<int> r(v.size(), -7777);
            bool ok = parser.parse(sv, core::as_list(r, a));
            VF_EQ(ok, !damaged, "as_list/parse_result", ctx);
            if (ok)
                VF_REQUIRE(r == v, "as_list/parse_values", ctx);
            break;
        }
        case 1: { // The wrong number of elements
            std::size_t m = c.rng.below(9);
            if (m == n || damaged || (n == 0 && m == 0))
                return;
            std::vector<int> r(m, -7777);
            bool ok = parser.parse(sv, core::as_list(r, a));
            VF_REQUIRE(!ok, "as_list/parse_wrong_count", [&](std::ostream& o) { ctx(o); o << " size " << m; });
            c.event("wrong_count");
            break;
        }
        case 2: { // Through a function
            std::vector<int> r(v.size(), -7777);
            bool ok = parser.parse(sv, core::as_list(r, [](int& x) -> int& { return x; }, a));
            VF_EQ(ok, !damaged, "as_list/parse_result", ctx);
            if (ok)
                VF_REQUIRE(r == v, "as_list/parse_values", ctx);
            break;
        }
        case 3: { // Elided tail
            std::size_t size = n + c.rng.below(4);
            if (n == 0)
                return;
            std::size_t min = c.rng.below(n + 3);
            bool copy_last = c.rng.chance(1, 2);
            std::vector<int> r(size, -7777);
            bool ok = c.rng.chance(1, 2) ? parser.parse(sv, core::as_list_a(r, min, copy_last, a)) :
                parser.parse(sv, core::as_list_a(r, min, copy_last, [](int& x) -> int& { return x; }, a));
            bool want = !damaged && (n >= min || n == size);
            VF_EQ(ok, want, "as_list_a/parse_result", [&](std::ostream& o) { ctx(o); o << " size=" << size << " min=" << min; });
            if (ok) {
                std::vector<int> w = v;
                w.resize(size, copy_last ? v.back() : 0);
                VF_REQUIRE(r == w, "as_list_a/parse_values", ctx);
                c.event("parsed_elided");
            }
            break;
        }
        default: { // Variable size
            std::size_t size = n + c.rng.below(4);
            if (n == 0)
                return;
            std::vector<int> r(size, -7777);
            std::size_t m = 12345;
            bool ok = c.rng.chance(1, 2) ? parser.parse(sv, core::as_list_v(r, m, a)) :
                parser.parse(sv, core::as_list_v(r, [](int& x) -> int& { return x; }, m, a));
            VF_EQ(ok, !damaged, "as_list_v/parse_result", ctx);
            if (ok) {
                std::vector<int> w = v;
                w.resize(size, -7777);
                VF_EQ(m, n, "as_list_v/count", ctx);
                VF_REQUIRE(r == w, "as_list_v/parse_values", ctx);
            }
            break;
        }
    }
    c.event(damaged ? "parsed_damaged" : "parsed");
    c.nontrivial(vf::Hash().add(text).get());
    c.sample([&] { return describe(a) + " <- " + text; });
}

template<class C, class I> void dump(vf::Case& c)
{
    std::vector<I> d(c.rng.chance(1, 10) ? c.rng.below(100) : c.rng.below(12));
    for (I& x : d)
        x = c.rng.chance(1, 3) ? I(c.rng.below(20)) : c.rng.chance(1, 3) ? I(-1 - int(c.rng.below(3))) : I(c.rng.next());
    core::HexDumpConfig cfg;
    if (c.rng.chance(1, 2))
        cfg.min_digits = int(c.rng.range(-1, 12));
    Str<C> sep = W<C>(" ");
    bool custom = c.rng.chance(1, 2);
    if (custom)
        sep = W<C>(std::string_view("<, >").substr(0, c.rng.below(5)));
    int min = cfg.min_digits > 0 ? cfg.min_digits : int(sizeof(I) * 2);
    std::vector<Str<C>> e;
    Str<C> full;
    for (std::size_t i = 0; i < d.size(); ++i) {
        auto v = static_cast<unsigned long long>(std::make_unsigned_t<I>(d[i]));
        Str<C> s;
        for (int k = 0; k < min || v; ++k) {
            s.insert(s.begin(), C("0123456789ABCDEF"[v & 15]));
            v >>= 4;
        }
        e.push_back(s);
        full += (i ? sep : Str<C>()) + s;
    }
    if (c.rng.chance(2, 3)) {
        std::size_t k = c.rng.below(12);
        cfg.max_size = c.rng.chance(1, 2) ? c.rng.below(30) : full.size() + 4 > k ? full.size() + 4 - k : 0;
    }
    Str<C> want = full;
    std::size_t adj = cfg.max_size == std::size_t(-1) ? cfg.max_size : std::max(cfg.max_size, std::size_t(3));
    if (full.size() > adj) {
        Str<C> s;
        for (std::size_t i = 0; i < e.size(); ++i) {
            Str<C> t = s + (i ? sep : Str<C>()) + e[i];
            if (t.size() + 3 > adj)
                break;
            s = t;
        }
        want = s + W<C>("...");
        c.event("dump_truncated");
    }
    bool direct = c.rng.chance(1, 4);
    Stream<C> o(c, !direct);
    std::basic_string_view<C> sv = sep;
    if (direct) {
        if (custom)
            core::hex_dump(o.out, std::as_const(d), sv, cfg);
        else
            core::hex_dump(o.out, std::as_const(d), cfg);
    }
    else {
        if (custom)
            o.out << core::as_hex_dump(d, sv, cfg);
        else
            o.out << core::as_hex_dump(d, cfg);
    }
    want = o.pad(want);
    Str<C> got = o.out.str();
    VF_REQUIRE(got == want, "hex_dump/text", [&](std::ostream& s) {
        s << d.size() << " elements of size " << sizeof(I) << ", min_digits " << cfg.min_digits << " max " << long(cfg.max_size) << " sep " << shw(sep) << ": got " << shw(got) << ", expected " << shw(want);
    });
    c.event("dumped");
    c.nontrivial(vf::Hash().add(vf::hash_bytes(got.data(), got.size() * sizeof(C))).get());
    c.sample([&] { return shw(got); });
}

} // unnamed namespace

VF_MONITOR(list_format, 20000, 1000000)
{
    for (int i = 0; i < 4; ++i) {
        fmt<char>(c);
        fmt<wchar_t>(c);
    }
}

VF_MONITOR(list_parse, 20000, 1000000)
{
    c.nontrivial(c.index);
    for (int i = 0; i < 4; ++i) {
        prs<char>(c);
        prs<wchar_t>(c);
    }
}

VF_MONITOR(hex_dump, 20000, 500000)
{
    dump<char, unsigned char>(c);
    dump<char, signed char>(c);
    dump<wchar_t, char>(c);
    dump<char, int>(c);
    dump<wchar_t, unsigned short>(c);
    dump<char, long long>(c);
}
