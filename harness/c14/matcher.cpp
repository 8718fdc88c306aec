#include <stdexcept>
#include <archon/core/string_matcher.hpp>
#include "vf.hpp"

using namespace archon;

namespace {

template<class C> using Str = std::basic_string<C>;

template<class C> bool ref_match(const Str<C>& p, const Str<C>& s)
{
    std::vector<char> cur(s.size() + 1, 0), next;
    cur[0] = 1;
    for (C ch : p) {
        next.assign(s.size() + 1, 0);
        if (ch == C('*')) {
            char any = 0;
            for (std::size_t i = 0; i <= s.size(); ++i) {
                any = char(any | cur[i]);
                next[i] = any;
            }
        }
        else {
            for (std::size_t i = 0; i < s.size(); ++i)
                next[i + 1] = char(cur[i] && s[i] == ch);
        }
        cur.swap(next);
    }
    return cur[s.size()];
}

// Whether some string matches both patterns
template<class C> bool ref_overlap(const Str<C>& a, const Str<C>& b)
{
    std::size_t n = a.size(), m = b.size();
    std::vector<std::vector<char>> t(n + 1, std::vector<char>(m + 1, 0));
    t[n][m] = 1;
    for (std::size_t i = n + 1; i-- > 0;) {
        for (std::size_t j = m + 1; j-- > 0;) {
            if (i == n && j == m)
                continue;
            char r = 0;
            if (i < n && a[i] == C('*'))
                r = char(r | t[i + 1][j] | (j < m ? t[i][j + 1] : 0));
            if (j < m && b[j] == C('*'))
                r = char(r | t[i][j + 1] | (i < n ? t[i + 1][j] : 0));
            if (i < n && j < m && a[i] == b[j])
                r = char(r | t[i + 1][j + 1]);
            t[i][j] = r;
        }
    }
    return t[0][0];
}

template<class C> struct Gen {
    Str<C> alpha;
    explicit Gen(vf::Case& c)
    {
        static const C pool[] = { C('a'), C('b'), C('c'), C('z'), std::numeric_limits<C>::min(), std::numeric_limits<C>::max(), C(0x7f), C(0x80), C(0xff), C('+'), C(')'), C(0), C(-1), C('?'), C('[') };
        std::size_t n = c.rng.range(1, 4);
        for (std::size_t i = 0; i < n; ++i)
            alpha += pool[c.rng.chance(2, 3) ? c.rng.below(3) : c.rng.below(sizeof pool / sizeof *pool)];
    }
    C ch(vf::Case& c) { return alpha[c.rng.below(alpha.size())]; }
    Str<C> pattern(vf::Case& c, std::size_t max)
    {
        Str<C> p;
        std::size_t n = c.rng.below(max + 1);
        std::size_t stars = c.rng.below(5);
        for (std::size_t i = 0; i < n; ++i)
            p += c.rng.chance(stars, 8) ? C('*') : ch(c);
        return p;
    }
    // A string that is likely to match or almost match
    Str<C> subject(vf::Case& c, const Str<C>& p)
    {
        Str<C> s;
        if (c.rng.chance(1, 5)) {
            std::size_t n = c.rng.below(12);
            for (std::size_t i = 0; i < n; ++i)
                s += ch(c);
            return s;
        }
        for (C x : p) {
            if (x == C('*')) {
                std::size_t k = c.rng.chance(1, 3) ? 0 : c.rng.below(5);
                for (std::size_t i = 0; i < k; ++i)
                    s += c.rng.chance(1, 8) ? C('*') : c.rng.chance(1, 8) ? C(c.rng.next()) : ch(c);
            }
            else {
                s += x;
            }
        }
        while (c.rng.chance(1, 4)) {
            std::size_t i = c.rng.below(s.size() + 1);
            switch (c.rng.below(3)) {
                case 0: s.insert(i, 1, ch(c)); break;
                case 1: if (i < s.size()) s.erase(i, 1); break;
                case 2: if (i < s.size()) s[i] = c.rng.chance(1, 2) ? ch(c) : C((long long)s[i] + 1); break;
            }
        }
        return s;
    }
};

template<class C> std::string show(const Str<C>& s)
{
    std::ostringstream o;
    for (C x : s) {
        if (x >= 32 && x < 127)
            o << char(x);
        else
            o << '<' << (long long)x << '>';
    }
    return '"' + o.str() + '"';
}

template<class C> void single(vf::Case& c)
{
    using M = core::BasicStringMatcher<C>;
    Gen<C> g(c);
    auto p = g.pattern(c, c.rng.chance(1, 20) ? 60 : 9);
    M m(M::PatternType::wildcard, std::basic_string_view<C>(p));
    VF_REQUIRE(!m.is_degenerate(), "degenerate", show(p));
    std::size_t yes = 0, no = 0;
    for (int i = 0; i < 12; ++i) {
        auto s = g.subject(c, p);
        bool expect = ref_match(p, s);
        VF_EQ(m.match(s), expect, "match", "pattern " << show(p) << " string " << show(s));
        ++(expect ? yes : no);
    }
    c.event("accepted", yes);
    c.event("rejected", no);
    if (yes && no)
        c.nontrivial(vf::Hash().add(p).get());
}

template<class C> void several(vf::Case& c)
{
    using M = core::BasicStringMatcher<C>;
    typename M::Builder::Config cfg;
    bool allow = cfg.allow_interpattern_ambiguity = c.rng.chance(1, 2);
    typename M::Builder b(std::move(cfg));
    M m, m2;
    VF_REQUIRE(m.is_degenerate() && !m.match(Str<C>()), "default_constructed", "");
    int rounds = int(c.rng.range(1, 3));
    std::vector<Str<C>> pats;
    std::vector<std::size_t> ids;
    VF_REQUIRE(b.empty(), "empty", "");
    for (int r = 0; r < rounds; ++r) {
        Gen<C> g(c);
        if (r > 0 && c.rng.chance(1, 2)) {
            b.clear();
            pats.clear();
            ids.clear();
            VF_REQUIRE(b.empty(), "empty_after_clear", "");
        }
        std::size_t n = c.rng.below(4) + (allow ? 1 : 0);
        for (std::size_t i = 0; i < n; ++i) {
            auto p = g.pattern(c, 7);
            std::size_t id = c.rng.chance(1, 4) ? 5 : c.rng.next();
            bool plain = true;
            for (C x : p)
                plain = plain && x > 0 && x < 127;
            if (plain && c.rng.chance(1, 2)) {
                std::string q(p.begin(), p.end());
                b.add_pattern(M::PatternType::wildcard, q.c_str(), id);
            }
            else {
                b.add_pattern(M::PatternType::wildcard, std::basic_string_view<C>(p), id);
            }
            pats.push_back(p);
            ids.push_back(id);
        }
        auto list = [&](std::ostream& o) { for (auto& p : pats) o << show(p) << ' '; };
        bool ambiguous = false;
        for (std::size_t i = 0; i < pats.size(); ++i)
            for (std::size_t j = 0; j < i; ++j)
                ambiguous = ambiguous || ref_overlap(pats[i], pats[j]);
        bool thrown = false;
        try {
            if (c.rng.chance(1, 2)) {
                b.build(m);
            }
            else {
                m2 = b.build();
                m = std::move(m2);
            }
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        VF_EQ(thrown, ambiguous && !allow, "ambiguity_rejected", list);
        if (thrown) {
            c.event("ambiguity_rejected");
            b.clear();
            pats.clear();
            ids.clear();
            continue;
        }
        VF_EQ(m.is_degenerate(), pats.empty(), "is_degenerate", list);
        VF_EQ(b.empty(), pats.empty(), "builder_empty", list);
        std::size_t yes = 0, no = 0;
        for (int k = 0; k < 10; ++k) {
            Str<C> base = pats.empty() ? Str<C>() : pats[c.rng.below(pats.size())];
            auto s = g.subject(c, base);
            std::size_t first = pats.size();
            int matches = 0;
            for (std::size_t i = pats.size(); i-- > 0;) {
                if (ref_match(pats[i], s)) {
                    first = i;
                    ++matches;
                }
            }
            bool expect = first < pats.size();
            std::size_t id = 4711;
            bool got = m.match(s, id);
            VF_EQ(got, expect, "match", list << " string " << show(s));
            if (expect)
                VF_EQ(id, ids[first], "pattern_ident", list << " string " << show(s));
            if (matches > 1)
                c.event("ambiguous_strings");
            ++(expect ? yes : no);
        }
        if (yes && no)
            c.nontrivial(vf::Hash().add(pats.back()).add(pats.size()).get());
        c.event("accepted", yes);
        c.event("rejected", no);
    }
}

} // namespace

VF_MONITOR(single_pattern, 8000, 400000)
{
    if (c.rng.chance(1, 3))
        single<wchar_t>(c);
    else
        single<char>(c);
}

VF_MONITOR(several_patterns, 8000, 400000)
{
    if (c.rng.chance(1, 3))
        several<wchar_t>(c);
    else
        several<char>(c);
}
