#pragma once
#include <string>
#include <vector>
#include <archon/core/word_wrap.hpp>

// Independent model of the text formatter for the case where output is not held back
struct Fmt {
    bool has_width = false;
    std::size_t width = 0, i1 = 0, i2 = 0, ir = 0, offset = 0, pl = 0, pr = 0, sep = 0;
    bool wrap = true, justify = false, clip = false, fill = false, norm = false;
    double align = 0;
};

struct Row {
    std::string text;
    // When justified: bounds within which in-between words have to be placed
    bool justified = false;
    std::vector<std::string> words;
    std::size_t first_at = 0, end_at = 0;
    std::vector<double> ideal;
    std::vector<std::size_t> natural; // spaces before word
};

struct Model {
    Fmt f;
    bool knuth = false;
    std::vector<Row> rows = std::vector<Row>(1);
    bool open = false, para = false;
    std::size_t cur = 0; // Nominal cursor on open line
    std::size_t overflowed = 0, wrapped = 0, clipped = 0, continued = 0, justified = 0;

    static constexpr std::size_t inf = std::size_t(-1);
    std::size_t inner_right() const
    {
        if (!f.has_width)
            return inf;
        long long v = (long long)(f.offset + f.width) - (long long)f.pr;
        return v < 0 ? 0 : std::size_t(v);
    }
    std::size_t outer_right() const { return f.has_width ? f.offset + f.width : inf; }

    void pad(std::size_t n)
    {
        auto& t = rows.back().text;
        if (t.size() < n)
            t.resize(n, ' ');
    }
    void open_line() // nonempty line
    {
        open = true;
        pad(f.offset);
        cur = std::max(f.offset, rows.back().text.size());
    }
    void close_line()
    {
        if (f.has_width && cur < outer_right() && f.fill)
            pad(outer_right());
        open = false;
    }
    void next_row()
    {
        rows.emplace_back();
    }
    void newline()
    {
        if (!open) {
            // briefly opened; closes paragraph
            cur = f.offset;
            close_line();
            para = false;
        }
        else {
            close_line();
        }
        next_row();
    }
    struct U { std::size_t sp; std::string w; };

    void fragment(const std::vector<U>& u, std::size_t b, std::size_t e, std::size_t trail, std::size_t left, bool just)
    {
        bool clipping = f.clip && f.has_width;
        std::size_t oright = outer_right(), iright = inner_right();
        if (clipping && left >= oright) {
            ++clipped;
            return;
        }
        std::string t;
        for (std::size_t i = b; i < e; ++i)
            t += std::string(u[i].sp, ' ') + u[i].w;
        t += std::string(trail, ' ');
        std::size_t isize = iright >= left ? iright - left : 0;
        std::size_t pos = left;
        auto& row = rows.back();
        if (f.has_width && isize > t.size()) {
            if (just && f.justify && e - b >= 2) {
                ++justified;
                row.justified = true;
                std::size_t at = left + u[b].sp;
                row.first_at = at;
                row.end_at = left + isize;
                std::size_t nat = at;
                std::vector<double> centers;
                for (std::size_t i = b; i < e; ++i) {
                    if (i > b)
                        nat += u[i].sp;
                    row.words.push_back(u[i].w);
                    row.natural.push_back(i > b ? u[i].sp : 0);
                    centers.push_back(double(nat) + u[i].w.size() / 2.0);
                    nat += u[i].w.size();
                }
                double o = centers.front(), d = centers.back() - o, st = double(isize - t.size());
                for (std::size_t i = 0; i < centers.size(); ++i)
                    row.ideal.push_back(o + (centers[i] - o) * (d + st) / d - row.words[i].size() / 2.0);
                // placeholder of the right size
                t = std::string(u[b].sp, ' ') + std::string(isize - u[b].sp, '#');
            }
            else if (f.align > 0) {
                double al = f.align >= 1 ? 1 : f.align;
                pos += std::size_t(al * (isize - t.size()) + 0.5);
            }
        }
        pad(pos);
        if (pos + t.size() > iright && f.has_width)
            ++overflowed;
        if (clipping && pos + t.size() > oright) {
            t.resize(oright > pos ? oright - pos : 0);
            ++clipped;
        }
        row.text += t;
        cur = row.text.size();
    }

    // Format one input line (without its terminator)
    void line(const std::string& s)
    {
        std::vector<U> u;
        std::size_t i = 0, trail = 0;
        for (;;) {
            std::size_t j = i;
            while (j < s.size() && s[j] == ' ')
                ++j;
            std::size_t sp = j - i;
            if (j == s.size()) {
                trail = sp;
                break;
            }
            i = j;
            while (j < s.size() && s[j] != ' ')
                ++j;
            u.push_back({ sp, s.substr(i, j - i) });
            i = j;
        }
        if (f.norm) {
            for (std::size_t k = 0; k < u.size(); ++k)
                u[k].sp = k > 0;
            trail = 0;
        }
        if (u.empty() && trail == 0)
            return;
        std::size_t base = f.offset + f.pl, rest = base + f.ir, left;
        if (!open) {
            left = base + (para ? f.i2 : f.i1);
            open_line();
        }
        else {
            ++continued;
            left = cur + f.sep;
            std::size_t first = u.empty() ? trail : u[0].sp + u[0].w.size();
            std::size_t ir = inner_right();
            bool ok = left <= ir && first <= ir - left;
            if (!ok) {
                close_line();
                next_row();
                open_line();
                left = rest;
            }
        }
        para = true;
        std::size_t b = 0;
        if (f.wrap && f.has_width) {
            std::size_t ir = inner_right();
            std::vector<archon::core::word_wrap::Word> w;
            for (auto& x : u)
                w.push_back({ x.sp, x.w.size() });
            archon::core::word_wrap::Geometry g[] = { { ir >= left ? ir - left : 0, 1 }, { ir >= rest ? ir - rest : 0, 1 } };
            std::vector<std::size_t> br;
            if (knuth) {
                archon::core::word_wrap::KnuthWrapper k;
                k.wrap(w, trail, g, br);
            }
            else {
                archon::core::word_wrap::greedy(w, trail, g, br);
            }
            for (std::size_t e : br) {
                fragment(u, b, e, 0, left, true);
                close_line();
                next_row();
                open_line();
                left = rest;
                u[e].sp = 0;
                b = e;
                ++wrapped;
            }
        }
        fragment(u, b, u.size(), trail, left, false);
    }
};
