// Quoting: exact form against a reference written from the documentation, plus the
// un-escaping oracle (the quoted text denotes the original string).

#include <vector>
#include <archon/core/quote.hpp>
#include "common.hpp"

using namespace archon;

namespace {

template<class C> struct Ref {
    const std::ctype<C>& ct;
    C quote;

    using U = std::make_unsigned_t<C>;

    bool print(C ch) const { return ct.is(std::ctype_base::print, ch); }
    bool simple(C ch) const
    {
        return print(ch) && !ct.is(std::ctype_base::space, ch) && ch != quote && ch != C('\\');
    }

    static Str<C> digits(unsigned long v, unsigned base, int min)
    {
        Str<C> s;
        while (v || min > 0) {
            s.insert(s.begin(), C("0123456789ABCDEF"[v % base]));
            v /= base;
            --min;
        }
        return s;
    }

    // Escape the first n characters of s. `lookahead` tells whether the character following
    // the prefix counts when the number of octal digits is decided.
    Str<C> escape(const Str<C>& s, std::size_t n, bool lookahead) const
    {
        Str<C> r;
        bool hex = false;
        for (std::size_t i = 0; i < n; ++i) {
            C ch = s[i];
            bool forced = hex && ct.is(std::ctype_base::xdigit, ch);
            hex = false;
            if (print(ch) && !forced) {
                if (ch == quote || ch == C('\\'))
                    r += C('\\');
                r += ch;
                continue;
            }
            static const char* from = "\a\b\t\n\v\f\r";
            static const char* to = "abtnvfr";
            bool done = false;
            for (int k = 0; k < 7; ++k) {
                if (ch == C(from[k])) {
                    r += C('\\');
                    r += C(to[k]);
                    done = true;
                }
            }
            if (done)
                continue;
            auto v = static_cast<unsigned long>(U(ch));
            r += C('\\');
            if (v < 512) {
                bool follow = (i + 1 < n || (lookahead && i + 1 < s.size())) && s[i + 1] >= C('0') && s[i + 1] <= C('7');
                r += digits(v, 8, follow ? 3 : 1);
            }
            else {
                r += C('x');
                r += digits(v, 16, 1);
                hex = true;
            }
        }
        return r;
    }

    Str<C> wrap(const Str<C>& s) const { return Str<C>(1, quote) + s + quote; }

    struct Form { Str<C> text; std::size_t chars; bool full; };

    Form quoted(const Str<C>& s, std::size_t max, bool lookahead) const
    {
        std::size_t adj = std::max(max, std::size_t(5));
        Str<C> full = wrap(escape(s, s.size(), false));
        if (full.size() <= adj)
            return { full, s.size(), true };
        std::size_t best = 0;
        for (std::size_t n = 0; n <= s.size(); ++n) {
            if (escape(s, n, lookahead).size() + 5 <= adj)
                best = n;
        }
        return { wrap(escape(s, best, lookahead) + W<C>("...")), best, false };
    }

    Form unquoted(const Str<C>& s, std::size_t max) const
    {
        std::size_t adj = std::max(max, std::size_t(3));
        std::size_t n = 0;
        while (n < s.size() && simple(s[n]))
            ++n;
        if (n == s.size() && s.size() <= adj)
            return { s, n, true };
        n = std::min(n, adj - 3);
        return { s.substr(0, n) + W<C>("..."), n, false };
    }

    std::vector<Str<C>> expect(const Str<C>& s, std::size_t max, bool smart) const
    {
        std::vector<Str<C>> r;
        for (bool la : { false, true }) {
            Form q = quoted(s, max, la);
            bool unq = false;
            Form u;
            if (smart && !s.empty()) {
                u = unquoted(s, max);
                if (max == std::size_t(-1) || (u.text.size() <= max && q.text.size() <= max)) {
                    unq = u.chars >= q.chars;
                }
                else {
                    unq = u.text.size() < q.text.size() ||
                        (u.text.size() == q.text.size() && u.chars >= q.chars);
                }
            }
            r.push_back(unq ? u.text : q.text);
        }
        return r;
    }

    // The string literal denoted by the quoted text
    bool unescape(const Str<C>& t, Str<C>& r) const
    {
        if (t.size() < 2 || t.front() != quote || t.back() != quote)
            return false;
        auto hexv = [](C ch) {
            return ch >= C('0') && ch <= C('9') ? int(ch - C('0')) : ch >= C('a') && ch <= C('f') ? int(ch - C('a')) + 10 :
                ch >= C('A') && ch <= C('F') ? int(ch - C('A')) + 10 : -1;
        };
        for (std::size_t i = 1; i + 1 < t.size();) {
            C ch = t[i];
            if (ch == quote || !print(ch))
                return false;
            if (ch != C('\\')) {
                r += ch;
                ++i;
                continue;
            }
            ++i;
            if (i + 1 >= t.size())
                return false;
            ch = t[i];
            unsigned long v = 0;
            if (ch >= C('0') && ch <= C('7')) {
                int k = 0;
                while (k < 3 && t[i] >= C('0') && t[i] <= C('7')) {
                    v = v * 8 + static_cast<unsigned long>(t[i++] - C('0'));
                    ++k;
                }
            }
            else if (ch == C('x')) {
                ++i;
                int k = 0;
                while (hexv(t[i]) >= 0) {
                    v = v * 16 + static_cast<unsigned long>(hexv(t[i++]));
                    ++k;
                }
                if (k == 0 || k > 8)
                    return false;
            }
            else {
                static const std::string_view from = "abtnvfr", to = "\a\b\t\n\v\f\r";
                std::size_t k = ch > C(0) && ch < C(127) ? from.find(char(ch)) : from.npos;
                if (k != from.npos)
                    v = static_cast<unsigned long>(to[k]);
                else if (ch == quote || ch == C('\\'))
                    v = static_cast<unsigned long>(ch);
                else
                    return false;
                ++i;
            }
            r += C(U(v));
        }
        return true;
    }
};

template<class C> Str<C> gen(vf::Case& c)
{
    Str<C> s;
    std::size_t n = c.rng.chance(1, 8) ? c.rng.below(200) : c.rng.below(16);
    int mode = int(c.rng.below(5));
    for (std::size_t i = 0; i < n; ++i) {
        C ch;
        switch (mode == 4 ? int(c.rng.below(4)) : mode) {
            case 0:
                ch = C("abcxyzAF07189_"[c.rng.below(14)]);
                break;
            case 1: {
                static const C pool[] = { C('"'), C('\''), C('\\'), C(' '), C('a'), C('b'), C('0'), C('7'), C('8'), C('\n'), C('\t'), C(1), C(0), C('f') };
                ch = pool[c.rng.below(14)];
                break;
            }
            case 2: {
                static const long pool[] = { 0x1ff, 0x200, 0x1234, 0x7f, 0x80, 0xff, 0, 1, 7, 8, 63, 64, 'a', '7', '8', 'F', 'g', 0x10ffff, 0x7fffffff, -1, '\a', '\b', '\v', '\f', '\r', '"', '?' };
                ch = C(pool[c.rng.below(sizeof pool / sizeof *pool)]);
                break;
            }
            default:
                ch = C(c.rng.chance(9, 10) ? c.rng.below(256) : c.rng.next());
                // Beyond Unicode, classification by the C library is not meaningful
                if (sizeof(C) == 4 && static_cast<unsigned long>(std::make_unsigned_t<C>(ch)) > 0x10ffff)
                    ch = C(0x10ffff);
                break;
        }
        s += ch;
    }
    return s;
}

template<class C> void one(vf::Case& c)
{
    Str<C> s = gen<C>(c);
    bool single = c.rng.chance(1, 3);
    bool smart = c.rng.chance(1, 2);
    std::locale loc = c.rng.chance(1, 2) ? std::locale::classic() : std::locale("C.UTF-8");
    Ref<C> ref { std::use_facet<std::ctype<C>>(loc), single ? C('\'') : C('"') };
    std::size_t max = std::size_t(-1);
    if (c.rng.chance(3, 4)) {
        if (c.rng.chance(1, 2)) {
            std::size_t f = ref.escape(s, s.size(), false).size() + 2;
            std::size_t d = c.rng.below(10);
            max = f + 3 > d ? f + 3 - d : 0;
        }
        else {
            max = c.rng.chance(1, 30) ? std::size_t(-1) - c.rng.below(5) : c.rng.below(30);
        }
    }
    Stream<C> o(c);
    o.out.imbue(loc);
    bool cstr = s.find(C(0)) == s.npos && c.rng.chance(1, 3);
    std::basic_string_view<C> sv = s;
    if (cstr) {
        const C* p = s.c_str();
        if (smart)
            single ? void(o.out << core::smart_quoted_s(p, max)) : void(o.out << core::smart_quoted(p, max));
        else
            single ? void(o.out << core::quoted_s(p, max)) : void(o.out << core::quoted(p, max));
    }
    else {
        if (smart)
            single ? void(o.out << core::smart_quoted_s(sv, max)) : void(o.out << core::smart_quoted(sv, max));
        else
            single ? void(o.out << core::quoted_s(sv, max)) : void(o.out << core::quoted(sv, max));
    }
    Str<C> got = o.out.str();
    auto exp = ref.expect(s, max, smart);
    bool ok = got == o.pad(exp[0]) || got == o.pad(exp[1]);
    VF_REQUIRE(ok, smart ? "smart_quote/text" : "quote/text", [&](std::ostream& e) {
        e << "string " << shw(s) << " max " << max << " single=" << single << " width " << o.width << ": got " << shw(got) << ", expected " << shw(o.pad(exp[0]));
    });
    VF_EQ(o.out.width(), std::streamsize(0), "quote/width_reset", "");
    std::size_t vis = exp[0].size();
    if (got.size() == vis) {
        if (max != std::size_t(-1) && max >= 5)
            VF_REQUIRE(vis <= max, "quote/size_limit", shw(s) << " max " << max << " got " << shw(got));
        bool full = max == std::size_t(-1) || (!smart && ref.escape(s, s.size(), false).size() + 2 <= max);
        if (full && !got.empty() && (!smart || got != s)) {
            Str<C> back;
            bool good = ref.unescape(got, back);
            VF_REQUIRE(good && back == s, "quote/denotes_original", "string " << shw(s) << " quoted as " << shw(got) << " denotes " << shw(back));
            c.event("unescaped");
        }
    }
    if (got.find(C('.')) != got.npos)
        c.event("truncated");
    c.event(smart ? "smart" : "plain");
    c.nontrivial(vf::Hash().add(got.size()).add(smart).add(vf::hash_bytes(got.data(), got.size() * sizeof(C))).get());
    c.sample([&] { return shw(s) + " max=" + std::to_string(long(max)) + " -> " + shw(got); });
}

} // unnamed namespace

VF_MONITOR(quote_char, 30000, 1500000)
{
    for (int i = 0; i < 4; ++i)
        one<char>(c);
}

VF_MONITOR(quote_wide, 30000, 1500000)
{
    for (int i = 0; i < 4; ++i)
        one<wchar_t>(c);
}
