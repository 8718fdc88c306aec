// Strings, basic character set, text parser, variant string references, modified locales

#include <limits>
#include <locale>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <archon/core/basic_character_set.hpp>
#include <archon/core/string.hpp>
#include <archon/core/text_parser.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/var_string_ref.hpp>
#include <archon/core/with_modified_locale.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

template<class C> std::basic_string<C> W(std::string_view s)
{
    return std::basic_string<C>(s.begin(), s.end());
}

template<class C> std::string narrow(std::basic_string_view<C> s)
{
    std::string r;
    for (C ch : s)
        r += (ch >= 32 && ch < 127) ? char(ch) : '?';
    return r;
}

template<class C> std::basic_string<C> gen(vf::Case& c, std::string_view alphabet, std::size_t max)
{
    std::basic_string<C> s;
    for (std::size_t k = c.rng.below(max + 1); k > 0; --k)
        s += C(alphabet[c.rng.below(alphabet.size())]);
    s.shrink_to_fit();
    return s;
}

template<class C> void strings(vf::Case& c)
{
    using Str = std::basic_string<C>;
    using View = std::basic_string_view<C>;
    Str a = gen<C>(c, "ab c", 24), b = gen<C>(c, "ab ", 4), d = gen<C>(c, "xyz", 6);
    View va = a, vb = b, vd = d;
    if (c.rng.chance(1, 8))
        va = {};
    auto txt = [&] { return narrow(va) + "|" + narrow(vb) + "|" + narrow(vd); };
    bool found = false;
    for (std::size_t i = 0; i + vb.size() <= va.size() && !found; ++i) {
        found = true;
        for (std::size_t j = 0; j < vb.size(); ++j)
            if (va[i + j] != vb[j])
                found = false;
    }
    VF_EQ(core::contains(va, vb), found, "contains", txt());
    VF_EQ(core::contains(va, b.c_str()), found, "contains_cstr", txt());
    VF_REQUIRE(core::concat(va, vb) == Str(va) + b, "concat", txt());
    VF_REQUIRE(core::concat(vb, va, vd) == b + Str(va) + d, "concat", txt());
    // Trimming
    C delim = C(c.rng.pick({ ' ', 'a' }));
    View t = core::trim(va, delim);
    std::size_t i = 0, j = va.size();
    while (i < j && va[i] == delim)
        ++i;
    while (j > i && va[j - 1] == delim)
        --j;
    VF_REQUIRE(t == va.substr(i, j - i), "trim", txt() << " -> " << narrow(t));
    VF_REQUIRE(t.data() >= va.data() && t.data() + t.size() <= va.data() + va.size(), "trim_memory", txt());
    View t2 = core::trim(va, std::locale::classic(), char(delim));
    VF_REQUIRE(t2 == t && t2.data() == t.data(), "trim_locale", txt());
    // Splitting
    std::vector<View> words;
    for (std::size_t k = 0; k < va.size();) {
        if (va[k] == delim) {
            ++k;
            continue;
        }
        std::size_t e = k;
        while (e < va.size() && va[e] != delim)
            ++e;
        words.push_back(va.substr(k, e - k));
        k = e;
    }
    core::BasicStringSplitter<C> splitter(va, delim);
    View w = vd;
    for (const View& x : words) {
        VF_REQUIRE(splitter.next(w), "split_ends_early", txt());
        VF_REQUIRE(w == x && w.data() == x.data(), "split_word", txt() << ": " << narrow(w));
    }
    View last = w;
    for (int k = 0; k < 2; ++k)
        VF_REQUIRE(!splitter.next(w) && w.data() == last.data() && w.size() == last.size(), "split_end", txt());
    if (delim == C(' ')) {
        std::size_t n = 0;
        core::for_each_word(va, std::locale::classic(), [&](View x) {
            VF_REQUIRE(n < words.size() && x == words[n] && x.data() == words[n].data(), "for_each_word", txt());
            ++n;
        });
        VF_EQ(n, words.size(), "for_each_word", txt());
    }
    c.event(words.size() > 1 ? "split" : "not_split", 1);
    // Rebasing
    if (!va.empty()) {
        std::size_t off = c.rng.below(va.size()), len = c.rng.below(va.size() - off + 1);
        View part = va.substr(off, len);
        Str copy(va);
        core::rebase_string(part, va.data(), static_cast<const C*>(copy.data()));
        VF_REQUIRE(part.data() == copy.data() + off && part.size() == len, "rebase", txt());
        core::rebase_string(part, static_cast<const C*>(copy.data()), va.data());
        VF_REQUIRE(part.data() == va.data() + off && part.size() == len, "rebase", txt());
    }
    c.nontrivial(vf::Hash().add(words.size()).get());
}

} // unnamed namespace

VF_MONITOR(strings, 4000, 200000)
{
    if (c.rng.chance(1, 2))
        strings<char>(c);
    else
        strings<wchar_t>(c);
}

VF_MONITOR(basic_characters, 4, 4)
{
    std::string_view bcs = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
        "_{}[]#()<>%:;.?*+-/^&|~!=,\\\"' \n\t\v\f";
    VF_EQ(bcs.size(), std::size_t(96), "size", "");
    for (int i = 0; i < 256; ++i) {
        char ch = char(i), x = '\1', y = '\1';
        bool member = (bcs.find(ch) != bcs.npos);
        VF_EQ(core::try_map_bcs_to_ascii(ch, x), member, "bcs_to_ascii", "char " << i);
        VF_EQ(core::try_map_ascii_to_bcs(ch, y), member, "ascii_to_bcs", "char " << i);
        VF_EQ(int(x), member ? int(ch) : 1, "bcs_to_ascii_value", "char " << i);
        VF_EQ(int(y), member ? int(ch) : 1, "ascii_to_bcs_value", "char " << i);
        c.event(member ? "member" : "other", 1);
    }
    c.nontrivial(1);
}

namespace {

enum class Id { none, a, b, s, seq };

template<class C> void text_parser(vf::Case& c)
{
    using View = std::basic_string_view<C>;
    using Parser = core::BasicTextParser<C>;
    C delim = C(c.rng.pick({ ' ', ',', ':' }));
    core::BasicValueParser<C> value_parser(std::locale::classic());
    Parser parser(value_parser);
    // Words: good ints, good strings, bad ones
    struct Word {
        std::string text;
        std::optional<int> val;
        std::size_t pos;
    };
    std::vector<Word> words;
    std::basic_string<C> str;
    std::size_t n = c.rng.below(8);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t d = (i > 0 ? 1 : 0) + (c.rng.chance(1, 4) ? c.rng.below(3) : 0);
        str.append(d, delim);
        Word w;
        w.pos = str.size();
        if (c.rng.chance(1, 10)) {
            w.text = c.rng.pick({ "x", "1x", "99999999999", "-", "1.5" });
        }
        else {
            w.val = int(c.rng.below(41)) - 20;
            w.text = std::to_string(*w.val);
        }
        words.push_back(w);
        str += W<C>(w.text);
    }
    if (c.rng.chance(1, 4))
        str.append(c.rng.below(3), delim);
    bool with_seq = c.rng.chance(1, 2), cond_b = c.rng.chance(1, 2), cond_seq = c.rng.chance(1, 2);
    std::size_t min = c.rng.below(4), max = min + c.rng.below(4);
    int a = 1001, b = 1002;
    std::basic_string<C> s = W<C>("old");
    std::vector<int> vec = { 7 };
    typename Parser::Error error = {};
    View value = W<C>("") .empty() ? View() : View();
    Id ident = Id::none;
    std::size_t pos = 12345;
    auto even = [](int v) { return v % 2 == 0; };
    auto pos_only = [](int v) { return v > -10; };
    bool got;
    auto run = [&](auto& fields) {
        if (!with_seq)
            return parser.parse(str, delim, fields, error, value, ident, pos);
        if (cond_seq)
            return parser.parse(str, delim, fields, Parser::field_seq(vec, Id::seq, pos_only), min, max, error, value, ident, pos);
        return parser.parse(str, delim, fields, Parser::field_seq(vec, Id::seq), min, max, error, value, ident, pos);
    };
    if (cond_b) {
        auto fields = std::make_tuple(Parser::field(a, Id::a), Parser::field(b, Id::b, even), Parser::field(s, Id::s));
        got = run(fields);
    }
    else {
        auto fields = std::make_tuple(Parser::field(a, Id::a), Parser::field(b, Id::b), Parser::field(s, Id::s));
        got = run(fields);
    }
    // Model
    bool want = true;
    std::optional<typename Parser::Error> want_error;
    std::optional<Id> want_ident;
    std::optional<std::size_t> want_word;
    int ma = 1001, mb = 1002;
    std::string ms = "old";
    std::vector<int> mv = { 7 };
    auto fail = [&](typename Parser::Error e, std::optional<Id> id, std::optional<std::size_t> word) {
        want = false;
        want_error = e;
        want_ident = id;
        want_word = word;
    };
    for (std::size_t i = 0; want; ++i) {
        Id id = (i == 0 ? Id::a : i == 1 ? Id::b : i == 2 ? Id::s : Id::seq);
        if (i >= words.size()) {
            if (i < 3)
                fail(Parser::Error::missing_value, id, std::nullopt);
            else if (with_seq && i - 3 < min)
                fail(Parser::Error::missing_value, Id::seq, std::nullopt);
            break;
        }
        const Word& w = words[i];
        if (i == 2) {
            ms = w.text;
        }
        else if (i < 2) {
            if (!w.val || (i == 1 && cond_b && !even(*w.val)))
                fail(Parser::Error::bad_value, id, i);
            else
                (i == 0 ? ma : mb) = *w.val;
        }
        else if (!with_seq || i - 3 >= max) {
            fail(Parser::Error::too_many_values, std::nullopt, i);
        }
        else if (!w.val || (cond_seq && !pos_only(*w.val))) {
            fail(Parser::Error::bad_value, Id::seq, i);
        }
        else {
            mv.push_back(*w.val);
        }
    }
    std::string t = narrow(View(str));
    VF_EQ(got, want, "outcome", t << " seq " << with_seq << " " << min << "-" << max);
    VF_EQ(a, ma, "field_a", t);
    VF_EQ(b, mb, "field_b", t);
    VF_EQ(narrow(View(s)), ms, "field_s", t);
    VF_REQUIRE(vec == mv, "sequence", t << ": " << vec.size());
    if (!want) {
        VF_REQUIRE(error == *want_error, "error", t << ": " << int(error));
        if (want_ident)
            VF_REQUIRE(ident == *want_ident, "ident", t << ": " << int(ident));
        if (want_word) {
            VF_EQ(narrow(value), words[*want_word].text, "value", t);
            VF_EQ(pos, words[*want_word].pos, "pos", t);
            VF_REQUIRE(value.data() == str.data() + pos, "value_memory", t);
        }
        else {
            VF_EQ(pos, str.size(), "pos", t);
        }
        c.event("parse_error", 1);
    }
    else {
        c.event("parsed", 1);
    }
    c.nontrivial(vf::Hash().add(n).add(want).get());
}

template<class C> std::basic_string<C> plain(const core::BasicVarStringRef<C>& r)
{
    std::string_view a;
    std::basic_string_view<C> b;
    if (r.get(a, b))
        return W<C>(a);
    return std::basic_string<C>(b);
}

template<class C> void var_string(vf::Case& c)
{
    using Ref = core::BasicVarStringRef<C>;
    std::string a = gen<char>(c, "abcd efgh", c.rng.chance(1, 4) ? 900 : 30);
    std::basic_string<C> b = gen<C>(c, "ABCD EFGH", c.rng.chance(1, 4) ? 900 : 30);
    std::string_view av = a;
    std::basic_string_view<C> bv = b;
    std::basic_string<C> expect;
    Ref r;
    switch (c.rng.below(6)) {
        case 0:
            break;
        case 1:
            r = Ref(a);
            expect = W<C>(a);
            break;
        case 2:
            r = Ref(av);
            expect = W<C>(a);
            break;
        case 3:
            r = Ref(b);
            expect = b;
            break;
        case 4:
            r = Ref(bv);
            expect = b;
            break;
        case 5: {
            std::basic_string<C> tmp = b;
            r = Ref(std::move(tmp));
            expect = b;
            c.event("owned", 1);
            break;
        }
    }
    VF_REQUIRE(plain(r) == expect, "get", narrow(std::basic_string_view<C>(expect)));
    Ref copy(r);
    Ref by_ref = r.copy_by_ref();
    auto write = [&](const Ref& x) {
        std::basic_ostringstream<C> out;
        out.imbue(std::locale::classic());
        out << W<C>("<").c_str() << x << W<C>(">").c_str();
        return out.str();
    };
    auto framed = W<C>("<") + expect + W<C>(">");
    VF_REQUIRE(plain(by_ref) == expect && write(by_ref) == framed, "copy_by_ref", narrow(std::basic_string_view<C>(expect)));
    VF_REQUIRE(write(r) == framed, "write", narrow(std::basic_string_view<C>(expect)) << " -> " << narrow(std::basic_string_view<C>(write(r))));
    Ref moved(std::move(r));
    VF_REQUIRE(plain(moved) == expect && write(moved) == framed, "move", "");
    r = Ref();
    VF_REQUIRE(plain(copy) == expect && write(copy) == framed, "copy", "");
    moved = std::move(copy);
    VF_REQUIRE(plain(moved) == expect, "move_assign", "");
    Ref again(b);
    again = moved;
    VF_REQUIRE(plain(again) == expect, "copy_assign", "");
    c.nontrivial(vf::Hash().add(expect.size()).get());
}

template<class C> struct Punct : std::numpunct<C> {
    C point, sep;
    Punct(char p, char s) : point(C(p)), sep(C(s)) {}
    C do_decimal_point() const override { return point; }
    C do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return "\3"; }
    std::basic_string<C> do_truename() const override { return W<C>("ja"); }
};

struct ShowLoc {
    double v;
};

// Writes something that depends on the locale several times, with widths of its own
template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& out, const ShowLoc& s)
{
    return out << s.v << out.widen('/') << s.v * 2;
}

template<class C> void modified_locale(vf::Case& c)
{
    std::locale classic = std::locale::classic();
    std::locale de(classic, new Punct<C>(',', '.'));
    std::locale odd(classic, new Punct<C>('!', '_'));
    std::locale locs[3] = { classic, de, odd };
    std::size_t i = c.rng.below(3);
    double v = double(c.rng.below(100000000)) / 16;
    int w = c.rng.chance(1, 2) ? int(c.rng.below(24)) : 0;
    int prec = int(c.rng.below(6));
    bool fixed = c.rng.chance(1, 2);
    auto setup = [&](std::basic_ostringstream<C>& out, const std::locale& loc) {
        out.imbue(loc);
        out.precision(prec);
        if (fixed)
            out.setf(std::ios_base::fixed, std::ios_base::floatfield);
        out.fill(C('*'));
        out.width(w);
    };
    auto ref = [&](const auto& val, std::size_t k) {
        std::basic_ostringstream<C> out;
        setup(out, locs[k]);
        out << val;
        return out.str();
    };
    auto num = std::locale::numeric;
    std::size_t kind = c.rng.below(4);
    std::basic_ostringstream<C> out;
    setup(out, locs[i]);
    std::basic_string<C> expect;
    switch (kind) {
        case 0:
            out << core::with_reverted_numerics(v);
            expect = ref(v, 0);
            break;
        case 1: {
            int n = int(c.rng.below(10000000));
            out << core::with_modified_locale(n, odd, num);
            expect = ref(n, 2);
            break;
        }
        case 2: // The innermost one decides
            out << core::with_modified_locale(core::with_reverted_numerics(ShowLoc { v }), de, num);
            expect = ref(ShowLoc { v }, 0);
            break;
        case 3: // Categories that do not matter
            out << core::with_modified_locale(ShowLoc { v }, odd, std::locale::ctype | std::locale::time);
            expect = ref(ShowLoc { v }, i);
            break;
    }
    auto got = out.str();
    VF_REQUIRE(got == expect, "formatted", "kind " << kind << " " << narrow(std::basic_string_view<C>(got)) << " instead of " << narrow(std::basic_string_view<C>(expect)));
    VF_REQUIRE(out.getloc() == locs[i], "locale_restored", "kind " << kind);
    VF_REQUIRE(out.good() && out.precision() == prec && out.fill() == C('*'), "stream_state", "kind " << kind);
    VF_EQ(out.width(), std::streamsize(0), "width_left", "kind " << kind);
    out << v; // Continues as if nothing had happened
    int w_saved = w;
    w = 0;
    VF_REQUIRE(out.str() == expect + ref(v, i), "afterwards", narrow(std::basic_string_view<C>(out.str())));
    if (w_saved > 0)
        c.event("with_width", 1);
    // Parsing
    core::BasicValueParser<C> parser(locs[i]);
    double x = -1, y = -1;
    auto text = [&](std::size_t k) {
        std::basic_ostringstream<C> o;
        o.imbue(locs[k]);
        o.setf(std::ios_base::fixed, std::ios_base::floatfield);
        o.precision(4);
        o << v;
        return o.str();
    };
    auto text_0 = text(0), text_i = text(i), text_2 = text(2);
    VF_REQUIRE(parser.parse(text_0, core::with_reverted_numerics(x)) && x == v, "parse_reverted", narrow(std::basic_string_view<C>(text_0)));
    VF_REQUIRE(parser.parse(text_i, y) && y == v, "parse_afterwards", narrow(std::basic_string_view<C>(text_i)));
    x = -1;
    VF_REQUIRE(parser.parse(text_2, core::with_modified_locale(x, odd, num)) && x == v, "parse_modified", narrow(std::basic_string_view<C>(text_2)));
    y = -1;
    auto bad = W<C>("1+1");
    VF_REQUIRE(!parser.parse(bad, core::with_modified_locale(y, odd, num)) && y == -1, "parse_rejects", "");
    y = -1;
    VF_REQUIRE(parser.parse(text_i, y) && y == v, "parse_afterwards", narrow(std::basic_string_view<C>(text_i)));
    c.nontrivial(vf::Hash().add(kind).add(i).get());
}

} // unnamed namespace

VF_MONITOR(text_parser, 3000, 150000)
{
    if (c.rng.chance(1, 2))
        text_parser<char>(c);
    else
        text_parser<wchar_t>(c);
}

VF_MONITOR(var_string_ref, 1500, 60000)
{
    if (c.rng.chance(1, 2))
        var_string<char>(c);
    else
        var_string<wchar_t>(c);
}

VF_MONITOR(modified_locale, 1500, 60000)
{
    if (c.rng.chance(1, 2))
        modified_locale<char>(c);
    else
        modified_locale<wchar_t>(c);
}
