#include <sstream>
#include <archon/core/terminal.hpp>
#include <archon/core/text_formatter.hpp>
#include "vf.hpp"

using namespace archon;
namespace term = core::terminal;

namespace {

struct Look {
    int weight = 0;
    bool underline = false, blink = false, reverse = false;
    int fg = -1, bg = -1;
    bool operator==(const Look&) const = default;
};

std::ostream& operator<<(std::ostream& o, const Look& l)
{
    return o << "{w" << l.weight << (l.underline ? " ul" : "") << (l.blink ? " bl" : "") << (l.reverse ? " rv" : "") << " fg" << l.fg << " bg" << l.bg << '}';
}

// Minimal terminal: applies SGR sequences, records look of each character
bool interpret(const std::string& s, std::vector<std::pair<char, Look>>& out, Look& l)
{
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\x1b') {
            out.emplace_back(s[i], l);
            continue;
        }
        if (++i == s.size() || s[i] != '[')
            return false;
        std::vector<int> args(1, 0);
        for (++i; i < s.size() && s[i] != 'm'; ++i) {
            if (s[i] == ';')
                args.push_back(0);
            else if (s[i] >= '0' && s[i] <= '9')
                args.back() = args.back() * 10 + (s[i] - '0');
            else
                return false;
        }
        if (i == s.size())
            return false;
        for (int a : args) {
            if (a == 0) l = Look();
            else if (a == 1) l.weight = 1;
            else if (a == 2) l.weight = 2;
            else if (a == 22) l.weight = 0;
            else if (a == 4) l.underline = true;
            else if (a == 24) l.underline = false;
            else if (a == 5) l.blink = true;
            else if (a == 25) l.blink = false;
            else if (a == 7) l.reverse = true;
            else if (a == 27) l.reverse = false;
            else if (a >= 30 && a <= 37) l.fg = a - 30;
            else if (a == 39) l.fg = -1;
            else if (a >= 40 && a <= 47) l.bg = a - 40;
            else if (a == 49) l.bg = -1;
            else return false;
        }
    }
    return true;
}

int weight_code(term::Weight w)
{
    switch (w) {
        case term::Weight::normal: return 0;
        case term::Weight::bold: return 1;
        case term::Weight::faint: return 2;
    }
    return -1;
}

Look random_look(vf::Rng& r)
{
    Look l;
    l.weight = int(r.below(3));
    l.underline = r.chance(1, 2);
    l.blink = r.chance(1, 2);
    l.reverse = r.chance(1, 2);
    l.fg = int(r.below(9)) - 1;
    l.bg = int(r.below(9)) - 1;
    return l;
}

template<class T> void configure(T& t, const Look& l)
{
    t.set_weight(l.weight == 0 ? term::Weight::normal : l.weight == 1 ? term::Weight::bold : term::Weight::faint);
    t.set_underline(l.underline);
    t.set_blink(l.blink);
    t.set_reverse(l.reverse);
    if (l.fg >= 0)
        t.set_color(term::Color(l.fg));
    else
        t.unset_color();
    if (l.bg >= 0)
        t.set_background_color(term::Color(l.bg));
    else
        t.unset_background_color();
}

} // namespace

VF_MONITOR(style_change, 30000, 1500000)
{
    Look a = random_look(c.rng), b = random_look(c.rng);
    if (c.rng.chance(1, 3)) {
        b = a;
        if (c.rng.chance(1, 2))
            b.weight = int(c.rng.below(3));
        if (c.rng.chance(1, 3))
            b.bg = int(c.rng.below(9)) - 1;
    }
    term::TextAttributes ta, tb;
    configure(ta, a);
    configure(tb, b);
    VF_EQ(weight_code(ta.get_weight()), a.weight, "weight", "");
    VF_EQ(ta == tb, a == b, "equality", a << ' ' << b);
    char buf[term::TextAttributes::min_change_buffer_size()];
    std::size_t n = term::TextAttributes::change(ta, tb, buf);
    VF_REQUIRE(n <= sizeof buf, "size", n);
    std::vector<std::pair<char, Look>> out;
    Look l = a;
    VF_REQUIRE(interpret(std::string(buf, n), out, l) && out.empty(), "syntax", vf::show(std::string(buf, n)));
    VF_EQ(l, b, "effect", a << " -> " << b << " by " << vf::show(std::string(buf, n)));
    if (!(a == b))
        c.nontrivial(vf::Hash().add(std::string(buf, n)).get());
    else
        VF_EQ(n, std::size_t(0), "no_change", a);
}

VF_MONITOR(styled_text, 8000, 400000)
{
    auto& r = c.rng;
    core::TextFormatter::Config cfg;
    cfg.enable_ansi_escape_sequences = true;
    std::ostringstream os, os2;
    core::TextFormatter tf(os, cfg);
    core::TextFormatter plain(os2);
    bool wrap = r.chance(2, 3), just = r.chance(1, 2);
    std::size_t width = r.range(1, 40);
    int fill = r.chance(1, 3) ? int(r.below(8)) : -1;
    bool offset = r.chance(1, 4);
    for (auto* t : { &tf, &plain }) {
        if (wrap)
            t->set_width(width);
        t->set_justify(just);
        if (offset)
            t->set_offset(3);
        if (fill >= 0) {
            t->set_fill_color(term::Color(fill));
            if (t == &plain)
                t->set_always_fill(true);
        }
    }
    std::vector<std::pair<char, Look>> expect; // nonspace characters only
    Look cur;
    std::vector<Look> stack;
    std::ostringstream log;
    std::size_t steps = r.range(1, 30);
    for (std::size_t s = 0; s < steps; ++s) {
        switch (r.below(6)) {
            case 0:
                cur = random_look(r);
                configure(tf, cur);
                log << ' ' << cur;
                break;
            case 1:
                tf.push_style();
                stack.push_back(cur);
                break;
            case 2:
                if (!stack.empty()) {
                    tf.pop_style();
                    cur = stack.back();
                    stack.pop_back();
                    log << " pop " << cur;
                }
                break;
            case 3:
                if (r.chance(1, 2)) {
                    tf.reset_style();
                    cur = Look();
                    log << " reset";
                }
                else {
                    bool v = r.chance(1, 2);
                    tf.set_reverse(v);
                    cur.reverse = v;
                    log << " reverse " << v;
                }
                break;
            default: {
                std::string t;
                std::size_t n = r.range(1, 15);
                for (std::size_t i = 0; i < n; ++i)
                    t += r.chance(1, 4) ? ' ' : r.chance(1, 15) ? '\n' : char('a' + r.below(26));
                tf.write(t);
                plain.write(t);
                log << ' ' << vf::show(t);
                for (char ch : t)
                    if (ch != ' ' && ch != '\n')
                        expect.emplace_back(ch, cur);
            }
        }
    }
    tf.finalize();
    plain.finalize();
    auto info = [&](std::ostream& o) { o << "width " << (wrap ? std::to_string(width) : "-") << (just ? " justify" : "") << " fill " << fill << log.str() << " out " << vf::show(os.str()); };
    std::vector<std::pair<char, Look>> out;
    Look l;
    VF_REQUIRE(interpret(os.str(), out, l), "syntax", info);
    VF_EQ(l, Look(), "final_style", info);
    std::string text;
    std::size_t k = 0, col = 0;
    for (auto& [ch, look] : out) {
        text += ch;
        if (ch == '\n') {
            VF_EQ(look, Look(), "newline_style", info);
            col = 0;
            continue;
        }
        if (ch != ' ') {
            VF_REQUIRE(k < expect.size() && expect[k].first == ch, "characters", info);
            Look e = expect[k].second;
            bool in_box = wrap && col < width + (offset ? 3 : 0);
            if (fill >= 0 && in_box && e.bg < 0)
                e.bg = fill;
            VF_EQ(look, e, "character_style", info << " at character " << k);
            ++k;
        }
        else if (offset && col < 3) {
            VF_EQ(look, Look(), "offset_style", info);
        }
        else if (fill >= 0 && wrap && col < width + (offset ? 3 : 0)) {
            VF_REQUIRE(look.bg >= 0, "fill_style", info << " col " << col);
        }
        ++col;
    }
    VF_EQ(k, expect.size(), "all_characters", info);
    VF_EQ(text, os2.str(), "same_text_without_styles", info);
    if (k > 10)
        c.nontrivial(vf::Hash().add(os.str()).get());
    c.event("styled_characters", k);
}
