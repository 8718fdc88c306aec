#include <iomanip>
#include <sstream>
#include <archon/core/text_formatter.hpp>
#include "vf.hpp"
#include "model.hpp"

using namespace archon;

namespace {

std::string gen_line(vf::Case& c, std::size_t max)
{
    auto& r = c.rng;
    std::string s;
    std::size_t n = r.below(max + 1);
    std::size_t wmax = r.range(1, 10);
    int extra = int(r.below(4));
    if (extra == 0 && r.chance(1, 2))
        s.append(r.below(4), ' ');
    for (std::size_t i = 0; i < n; ++i) {
        if (i > 0)
            s.append(extra == 0 ? r.range(1, 4) : 1, ' ');
        std::size_t k = r.range(1, wmax);
        for (std::size_t j = 0; j < k; ++j)
            s += char(r.chance(1, 40) ? '\t' : 'a' + (i * 7 + j) % 26);
    }
    if (extra == 0 && r.chance(1, 2))
        s.append(r.below(4), ' ');
    return s;
}

Fmt gen_format(vf::Case& c)
{
    auto& r = c.rng;
    Fmt f;
    f.has_width = r.chance(7, 8);
    f.width = r.chance(1, 6) ? r.below(6) : r.range(5, 50);
    if (r.chance(1, 2)) {
        f.i1 = r.below(6);
        f.i2 = r.below(6);
        f.ir = r.below(6);
    }
    if (r.chance(1, 3))
        f.offset = r.below(12);
    if (r.chance(1, 3)) {
        f.pl = r.below(5);
        f.pr = r.below(5);
    }
    f.wrap = r.chance(5, 6);
    f.justify = r.chance(1, 4);
    f.clip = r.chance(1, 4);
    f.fill = r.chance(1, 5);
    f.norm = r.chance(1, 3);
    if (r.chance(1, 4))
        f.sep = r.below(4);
    switch (r.below(6)) {
        case 0: f.align = 0.5; break;
        case 1: f.align = 1; break;
        case 2: f.align = 0.25; break;
    }
    return f;
}

template<class F> void apply(vf::Case& c, F& tf, const Fmt& f)
{
    using Format = typename F::Format;
    auto set = [&](auto& t) {
        if (f.has_width)
            t.set_width(f.width);
        else
            t.unset_width();
        t.set_indent(f.i1, f.i2, f.ir);
        t.set_offset(f.offset);
        if (f.pl == f.pr)
            t.set_padding(f.pl);
        else {
            t.set_padding_left(f.pl);
            t.set_padding_right(f.pr);
        }
        t.set_word_wrap(f.wrap);
        t.set_justify(f.justify);
        t.set_clipping(f.clip);
        t.set_always_fill(f.fill);
        t.set_norm_whitespace(f.norm);
        t.set_min_separation(f.sep);
        if (f.align == 0)
            t.set_align(F::Align::left);
        else if (f.align == 1)
            t.set_align(F::Align::right);
        else if (f.align == 0.5)
            t.set_align(F::Align::center);
        else
            t.set_align(f.align);
    };
    if (c.rng.chance(1, 2)) {
        set(tf);
    }
    else {
        Format fo;
        set(fo);
        tf.set_format(fo);
    }
    Format g = tf.get_format();
    VF_REQUIRE(g.has_width() == f.has_width && (!f.has_width || g.get_width() == f.width), "get_format/width", "");
    VF_REQUIRE(g.get_indent_first_1() == f.i1 && g.get_indent_first_2() == f.i2 && g.get_indent_rest() == f.ir, "get_format/indent", "");
    VF_REQUIRE(g.get_offset() == f.offset && g.get_padding_left() == f.pl && g.get_padding_right() == f.pr, "get_format/padding", "");
    VF_REQUIRE(g.get_word_wrap() == f.wrap && g.get_justify() == f.justify && g.get_clipping() == f.clip, "get_format/flags", "");
    VF_REQUIRE(g.get_always_fill() == f.fill && g.get_norm_whitespace() == f.norm && g.get_min_separation() == f.sep && g.get_align() == f.align, "get_format/rest", "");
}

std::string show_fmt(const Fmt& f)
{
    std::ostringstream o;
    o << "{width " << (f.has_width ? std::to_string(f.width) : "-") << " indent " << f.i1 << ',' << f.i2 << ',' << f.ir << " offset " << f.offset
      << " pad " << f.pl << ',' << f.pr << " sep " << f.sep << (f.wrap ? " wrap" : "") << (f.justify ? " justify" : "") << (f.clip ? " clip" : "")
      << (f.fill ? " fill" : "") << (f.norm ? " norm" : "") << " align " << f.align << '}';
    return o.str();
}

// Submit text in random pieces by random means
template<class F> void submit(vf::Case& c, F& tf, const std::string& s)
{
    auto& r = c.rng;
    std::size_t i = 0;
    while (i < s.size()) {
        std::size_t n = std::min<std::size_t>(s.size() - i, r.chance(1, 2) ? r.range(1, 4) : r.range(1, 200));
        std::string p = s.substr(i, n);
        i += n;
        switch (r.below(5)) {
            case 0: tf.write(p.c_str()); break;
            case 1:
                for (char ch : p)
                    tf.out().put(tf.out().widen(ch));
                break;
            case 2:
                if (p.back() == '\n') {
                    p.pop_back();
                    tf.writeln(p.c_str());
                }
                else {
                    tf.format("%s", p.c_str());
                }
                break;
            case 3: tf.out() << p.c_str() << std::flush; break;
            case 4:
                tf.out() << p.c_str();
                if (r.chance(1, 3))
                    tf.process_input();
                if (r.chance(1, 3))
                    tf.flush();
                break;
        }
    }
}

template<class C> std::string narrow(const std::basic_string<C>& s)
{
    return std::string(s.begin(), s.end());
}

std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> v(1);
    for (char ch : s) {
        if (ch == '\n')
            v.emplace_back();
        else
            v.back() += ch;
    }
    return v;
}

void compare_rows(const Model& m, const std::string& out, const std::function<std::string()>& info)
{
    std::vector<std::string> got = split(out);
    VF_EQ(got.size(), m.rows.size(), "num_lines", info() << " got " << vf::show(out));
    for (std::size_t i = 0; i < got.size(); ++i) {
        const Row& row = m.rows[i];
        const std::string& g = got[i];
        if (!row.justified) {
            VF_EQ(g, row.text, "line_text", info() << " line " << i << " of " << vf::show(out));
            continue;
        }
        std::size_t p = 0, n = row.text.size();
        VF_EQ(g.size(), n, "justified_size", info() << " line " << i << " of " << vf::show(out));
        auto is_space = [&](std::size_t a, std::size_t b) {
            for (std::size_t k = a; k < b && k < n; ++k)
                if (g[k] != ' ')
                    return false;
            return true;
        };
        VF_REQUIRE(row.text.substr(0, std::min(row.first_at, n)) == g.substr(0, std::min(row.first_at, n)), "justified_indent", info() << " line " << i << " of " << vf::show(out));
        p = row.first_at;
        for (std::size_t k = 0; k < row.words.size(); ++k) {
            std::size_t q = p;
            if (k > 0) {
                while (q < n && g[q] == ' ')
                    ++q;
                VF_REQUIRE(q - p >= row.natural[k], "justified_gap_shrunk", info() << " line " << i << " of " << vf::show(out));
                double d = double(q) - row.ideal[k];
                VF_REQUIRE(d > -1.0001 && d < 1.0001, "justified_not_nearby", info() << " line " << i << " word " << k << " at " << q << " ideal " << row.ideal[k] << " of " << vf::show(out));
            }
            VF_EQ(g.substr(std::min(q, n), row.words[k].size()), row.words[k], "justified_word", info() << " line " << i << " of " << vf::show(out));
            p = q + row.words[k].size();
        }
        VF_EQ(p, row.end_at, "justified_end", info() << " line " << i << " of " << vf::show(out));
        VF_REQUIRE(is_space(p, n), "justified_tail", info());
    }
}

template<class C> void run_model(vf::Case& c)
{
    auto& r = c.rng;
    using F = core::BasicTextFormatter<C>;
    typename F::Config cfg;
    Model m;
    m.knuth = cfg.high_quality_word_wrapper = r.chance(1, 4);
    std::size_t base = cfg.line_number_base = r.chance(1, 2) ? 1 : r.below(100);
    std::basic_ostringstream<C> os;
    F tf(os, cfg);
    std::ostringstream log;
    std::vector<Fmt> stack;
    bool section_open = false;
    std::string pending; // current unterminated input
    if (r.chance(9, 10)) {
        m.f = gen_format(c);
        apply(c, tf, m.f);
        log << show_fmt(m.f);
    }
    auto info = [&] { return log.str(); };
    std::size_t steps = r.range(1, 8);
    for (std::size_t s = 0; s < steps; ++s) {
        switch (r.below(8)) {
            case 0: // close section
                tf.close_section();
                m.line(pending);
                pending.clear();
                section_open = false;
                log << " close;";
                break;
            case 1:
                if (!section_open && !m.open) {
                    if (r.chance(1, 3)) {
                        tf.push_format();
                        stack.push_back(m.f);
                    }
                    if (!stack.empty() && r.chance(1, 3)) {
                        tf.pop_format();
                        m.f = stack.back();
                        stack.pop_back();
                    }
                    else if (r.chance(1, 6)) {
                        tf.reset_format();
                        m.f = Fmt();
                    }
                    else {
                        m.f = gen_format(c);
                        apply(c, tf, m.f);
                    }
                    log << ' ' << show_fmt(m.f);
                }
                else if (section_open) {
                    bool thrown = false;
                    try {
                        tf.set_width(10);
                    }
                    catch (std::logic_error&) {
                        thrown = true;
                    }
                    VF_REQUIRE(thrown, "set_format_in_section", info());
                }
                break;
            case 2:
                VF_EQ(tf.has_open_section(), section_open, "has_open_section", info());
                if (!section_open) {
                    VF_EQ(tf.get_line_number(), base + m.rows.size() - 1, "line_number", info());
                    VF_EQ(tf.get_last_line_number(), base + m.rows.size() - 1, "last_line_number", info());
                    VF_EQ(tf.get_cursor_pos(), m.open ? m.cur : 0, "cursor_pos", info());
                    c.event("cursor_queries");
                }
                break;
            case 3:
                if (!section_open) {
                    std::size_t n = r.below(3);
                    tf.skip_line(n);
                    if (m.open)
                        m.close_line();
                    m.para = false;
                    for (std::size_t i = 0; i < n; ++i)
                        m.next_row();
                    log << " skip " << n << ';';
                    if (n == 0) {
                        // Continuing on a closed nonempty line: text would be displaced; avoid
                        tf.skip_line(1);
                        m.next_row();
                    }
                }
                break;
            default: {
                std::string t;
                std::size_t lines = r.below(4);
                for (std::size_t i = 0; i < lines; ++i)
                    t += gen_line(c, r.chance(1, 3) ? 30 : 6) + '\n';
                if (r.chance(1, 2))
                    t += gen_line(c, 6);
                submit(c, tf, t);
                log << " text " << vf::show(t) << ';';
                std::string all = pending + t;
                std::size_t p = 0;
                for (;;) {
                    std::size_t q = all.find('\n', p);
                    if (q == std::string::npos)
                        break;
                    m.line(all.substr(p, q - p));
                    m.newline();
                    p = q + 1;
                }
                pending = all.substr(p);
                section_open = !pending.empty();
                break;
            }
        }
    }
    tf.finalize();
    m.line(pending);
    if (m.open)
        m.close_line();
    compare_rows(m, narrow(os.str()), info);
    if (m.wrapped > 0) {
        c.nontrivial(vf::Hash().add(log.str()).get());
        c.event("wrapped_lines", m.wrapped);
    }
    c.event("justified_lines", m.justified);
    c.event("overflowed_lines", m.overflowed);
    c.event("clipped_lines", m.clipped);
    c.event("continued_sections", m.continued);
}

} // namespace

VF_MONITOR(formatted_text, 16000, 800000)
{
    if (c.rng.chance(1, 4))
        run_model<wchar_t>(c);
    else
        run_model<char>(c);
}

VF_MONITOR(pass_through, 6000, 300000)
{
    std::ostringstream os;
    core::TextFormatter tf(os);
    std::string t;
    std::size_t n = c.rng.below(12);
    for (std::size_t i = 0; i < n; ++i) {
        t += gen_line(c, 40);
        if (c.rng.chance(3, 4))
            t += '\n';
    }
    submit(c, tf, t);
    if (c.rng.chance(1, 2))
        tf.close_section();
    tf.finalize();
    VF_EQ(os.str(), t, "text", "");
    if (t.size() > 20)
        c.nontrivial(vf::Hash().add(t).get());
}

VF_MONITOR(compiled_sections, 8000, 400000)
{
    auto& r = c.rng;
    Fmt f = gen_format(c);
    f.has_width = true;
    f.clip = false;
    f.justify = false;
    f.fill = false;
    f.align = 0;
    f.width = r.range(0, 60);
    f.sep = 0;
    std::ostringstream os;
    core::TextFormatter::Config cfg;
    bool knuth = cfg.high_quality_word_wrapper = r.chance(1, 4);
    core::TextFormatter tf(os, cfg);
    apply(c, tf, f);
    tf.begin_compile();
    std::vector<std::string> secs;
    std::size_t n = r.range(1, 4);
    for (std::size_t i = 0; i < n; ++i) {
        std::string t;
        std::size_t lines = r.below(4);
        for (std::size_t j = 0; j < lines; ++j)
            t += gen_line(c, 8) + '\n';
        if (r.chance(1, 2))
            t += gen_line(c, 8);
        submit(c, tf, t);
        tf.close_section();
        secs.push_back(t);
    }
    if (r.chance(1, 3))
        tf.write("lost");
    auto info = [&](std::ostream& o) { o << show_fmt(f) << ' ' << vf::show(secs); };
    VF_EQ(tf.get_num_sections(), n, "num_sections", info);
    VF_REQUIRE(tf.is_compiling(), "is_compiling", info);
    for (std::size_t i = 0; i < n; ++i) {
        const std::string& t = secs[i];
        auto lines = split(t);
        bool unterminated = !lines.back().empty();
        if (!unterminated)
            lines.pop_back();
        auto words = [](const std::string& l) {
            std::vector<std::pair<std::size_t, std::size_t>> v;
            for (std::size_t p = 0; p < l.size();) {
                if (l[p] == ' ') {
                    ++p;
                    continue;
                }
                std::size_t q = p;
                while (q < l.size() && l[q] != ' ')
                    ++q;
                v.emplace_back(p, q - p);
                p = q;
            }
            return v;
        };
        auto si = tf.get_section_info(i);
        VF_EQ(si.size, t.size(), "section/size", info);
        VF_EQ(si.num_lines, lines.size(), "section/num_lines", info);
        VF_EQ(si.last_line_is_unterminated, unterminated, "section/unterminated", info);
        std::size_t nw = 0, off = 0;
        for (std::size_t j = 0; j < lines.size(); ++j) {
            auto w = words(lines[j]);
            nw += w.size();
            auto li = tf.get_line_info(i, j);
            VF_EQ(li.offset, off, "line/offset", info);
            VF_EQ(li.size, lines[j].size(), "line/size", info);
            VF_EQ(li.num_words, w.size(), "line/num_words", info);
            for (std::size_t k = 0; k < w.size(); ++k) {
                auto wi = tf.get_word_info(i, j, k);
                VF_REQUIRE(wi.offset == w[k].first && wi.size == w[k].second, "word", info);
            }
            try {
                tf.get_word_info(i, j, w.size());
                VF_REQUIRE(false, "word_index_check", info);
            }
            catch (std::out_of_range&) {
            }
            off += lines[j].size() + 1;
        }
        VF_EQ(si.num_words, nw, "section/num_words", info);
    }
    // Actual formatting of one of the sections in a fresh formatter
    std::size_t i = r.below(n);
    auto render = [&](std::size_t width) {
        Model m;
        m.knuth = knuth;
        m.f = f;
        m.f.width = width;
        std::ostringstream os2;
        core::TextFormatter tf2(os2, cfg);
        apply(c, tf2, m.f);
        tf2.begin_compile();
        for (auto& t : secs) {
            tf2.write(t);
            tf2.close_section();
        }
        tf2.format_section(i);
        tf2.end_compile();
        tf2.finalize();
        auto lines = split(secs[i]);
        for (std::size_t j = 0; j < lines.size(); ++j) {
            m.line(lines[j]);
            if (j + 1 < lines.size())
                m.newline();
        }
        bool open = m.open;
        compare_rows(m, os2.str(), [&] { std::ostringstream o; info(o); o << " section " << i << " width " << width; return o.str(); });
        // A last line, that was not opened, does not count
        std::size_t height = m.rows.size() - (open ? 0 : 1);
        return std::tuple(m.overflowed, m.wrapped, height);
    };
    core::TextFormatter::Cursor cur;
    auto mr = tf.measure(i, cur);
    bool has_text = f.norm ? secs[i].find_first_not_of(" \n") != std::string::npos : secs[i].find_first_not_of('\n') != std::string::npos;
    if (has_text) {
        std::size_t w0 = mr.min_width_no_oflow, w1 = mr.min_width_no_break;
        auto mi = [&](std::ostream& o) { info(o); o << " section " << i << " measured " << w0 << ' ' << w1 << " knuth " << knuth; };
        for (std::size_t w : { w0, w0 + 1, w0 + std::size_t(r.below(20)), w1 })
            if (w >= w0)
                VF_REQUIRE(std::get<0>(render(w)) == 0, "measure/overflow", mi << " width " << w);
        if (w0 > 0)
            VF_REQUIRE(std::get<0>(render(w0 - 1)) > 0, "measure/not_smallest", mi);
        if (f.wrap) {
            for (std::size_t w : { w1, w1 + std::size_t(r.below(20)) })
                VF_REQUIRE(std::get<1>(render(w)) == 0, "measure/break", mi << " width " << w);
            if (w1 > w0)
                VF_REQUIRE(std::get<1>(render(w1 - 1)) > 0, "measure/not_smallest_no_break", mi);
            if (w1 > w0)
                c.event("distinct_widths");
        }
        else {
            VF_EQ(w0, w1, "measure/equal_without_wrapping", mi);
        }
        c.event("measured");
        c.nontrivial(vf::Hash().add(secs[i]).get());
    }
    std::size_t w = r.below(50);
    auto sr = tf.simulate(i, w);
    if (f.offset == 0)
        VF_EQ(sr.height, std::size_t(std::get<2>(render(w))), "simulate/height", info << " section " << i << " width " << w);
    tf.end_compile();
    VF_EQ(tf.get_num_sections(), std::size_t(0), "sections_after_compile", info);
    tf.write("after\n");
    tf.finalize();
}

// Columns by means of holding back output
VF_MONITOR(held_output, 6000, 300000)
{
    auto& r = c.rng;
    std::ostringstream os;
    core::TextFormatter::Config cfg;
    std::size_t base = cfg.line_number_base = r.chance(1, 2) ? 1 : r.below(50);
    core::TextFormatter tf(os, cfg);
    std::vector<std::string> grid(1); // rows
    std::ostringstream log;
    std::size_t row = 0, cols = 4, width = 8;
    // Lines before hold
    std::size_t pre = r.below(3);
    for (std::size_t i = 0; i < pre; ++i) {
        tf.write("pre\n");
        grid.back() = "pre";
        grid.emplace_back();
        ++row;
    }
    std::size_t first = row, reached = row;
    std::vector<std::size_t> used(64, 0); // next free column per row
    tf.begin_hold();
    struct Inner { std::size_t first, reached; };
    std::vector<Inner> nest;
    std::size_t steps = r.range(1, 25);
    auto cur_first = [&] { return nest.empty() ? first : nest.back().first; };
    auto& log_ = log;
    auto info = [&](std::ostream& o) { o << "pre " << pre << log_.str(); };
    auto note = [&] {
        (nest.empty() ? reached : nest.back().reached) = std::max(nest.empty() ? reached : nest.back().reached, row);
    };
    for (std::size_t s = 0; s < steps; ++s) {
        switch (r.below(8)) {
            case 0: {
                std::size_t target = cur_first() + r.below(7);
                if (target >= 60)
                    break;
                bool by_skip = target >= row && r.chance(1, 2);
                if (by_skip)
                    tf.skip_line(target - row);
                else
                    tf.jump(base + target);
                log << (by_skip ? " skip_to " : " jump ") << target;
                note();
                row = target;
                note();
                while (grid.size() <= row)
                    grid.emplace_back();
                break;
            }
            case 1:
                tf.jump_back();
                log << " back";
                note();
                row = cur_first();
                break;
            case 2:
                if (cur_first() > 0 || base > 0) {
                    bool thrown = false;
                    try {
                        tf.jump(base + cur_first() - 1);
                    }
                    catch (std::invalid_argument&) {
                        thrown = true;
                    }
                    VF_REQUIRE(thrown, "jump_too_far_back", info);
                }
                break;
            case 3:
                VF_EQ(tf.get_line_number(), base + row, "line_number", info);
                VF_EQ(tf.get_hold_line_number(), base + cur_first(), "hold_line_number", info);
                VF_EQ(tf.get_last_line_number(), base + grid.size() - 1, "last_line_number", info);
                note();
                VF_EQ(tf.get_reached_line_number(), base + (nest.empty() ? reached : nest.back().reached), "reached_line_number", info);
                break;
            case 4:
                if (nest.size() < 3 && r.chance(1, 2)) {
                    tf.begin_hold();
                    nest.push_back({ row, row });
                    log << " {";
                }
                else if (!nest.empty()) {
                    note();
                    tf.end_hold();
                    row = nest.back().reached;
                    nest.pop_back();
                    note();
                    log << " }";
                }
                break;
            default: {
                // Write a block of lines in the first column that is free for all of them
                std::size_t lines = r.range(1, 4);
                std::size_t col = 0;
                for (std::size_t i = 0; i < lines; ++i)
                    col = std::max(col, used[row + i]);
                if (col >= cols || row + lines >= 60)
                    break;
                log << " block@" << row << " lines " << lines << " col " << col;
                tf.set_offset(col * (width + 1));
                tf.set_width(width);
                if (r.chance(1, 3))
                    tf.set_clipping(true);
                for (std::size_t i = 0; i < lines; ++i) {
                    std::string t;
                    std::size_t n = r.range(1, width);
                    for (std::size_t k = 0; k < n; ++k)
                        t += char('a' + (s + i + k) % 26);
                    tf.writeln(t);
                    std::string& g = grid[row];
                    g.resize(col * (width + 1), ' ');
                    g += t;
                    used[row] = col + 1;
                    ++row;
                    if (grid.size() <= row)
                        grid.emplace_back();
                }
                note();
                break;
            }
        }
    }
    while (!nest.empty()) {
        note();
        tf.end_hold();
        row = nest.back().reached;
        nest.pop_back();
        note();
    }
    VF_EQ(os.str().size(), pre * 4, "output_held_back", info);
    note();
    tf.end_hold();
    VF_EQ(tf.get_line_number(), base + reached, "line_number_after_hold", info);
    tf.reset_format();
    tf.skip_line();
    tf.write("post");
    tf.finalize();
    // All lines down to the last one
    grid.resize(std::max(grid.size(), reached + 2));
    std::string expect;
    for (std::size_t i = 0; i <= reached; ++i)
        expect += grid[i] + '\n';
    expect += "post";
    VF_EQ(os.str(), expect, "text", info);
    if (steps > 4)
        c.nontrivial(vf::Hash().add(expect).get());
}
