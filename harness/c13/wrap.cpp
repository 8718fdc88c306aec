#include <limits>
#include <stdexcept>
#include <boost/multiprecision/cpp_int.hpp>
#include <archon/core/word_wrap.hpp>
#include "vf.hpp"

namespace ww = archon::core::word_wrap;
using big = boost::multiprecision::cpp_int;
using Words = std::vector<ww::Word>;
using Geoms = std::vector<ww::Geometry>;
using Breaks = std::vector<std::size_t>;

namespace {

// Size of a line that holds words [i, j)
big line_extent(const Words& w, std::size_t trail, std::size_t i, std::size_t j)
{
    big s = 0;
    for (std::size_t k = i; k < j; ++k) {
        if (k > i || k == 0)
            s += w[k].space_size;
        s += w[k].word_size;
    }
    if (j == w.size())
        s += trail;
    return s;
}

bool fits(const Words& w, std::size_t trail, std::size_t i, std::size_t j, std::size_t size)
{
    return j == i + 1 || line_extent(w, trail, i, j) <= size;
}

Breaks first_fit(const Words& w, std::size_t trail, const Geoms& g, std::size_t gi)
{
    Breaks b;
    std::size_t i = 0;
    while (i < w.size()) {
        std::size_t j = i + 1;
        while (j < w.size() && fits(w, trail, i, j + 1, g[gi].line_size))
            ++j;
        if (j < w.size())
            b.push_back(j);
        i = j;
        gi = g[gi].next_geometry_index;
    }
    return b;
}

// Minimum over all breakings of the sum of squared gaps of all but the last line
big min_cost(const Words& w, std::size_t trail, const Geoms& g, std::size_t gi0)
{
    std::size_t n = w.size(), m = g.size();
    std::vector<big> best((n + 1) * m, -1); // best[i*m+gi]
    for (std::size_t i = n; i-- > 0;) {
        for (std::size_t gi = 0; gi < m; ++gi) {
            big r = -1;
            for (std::size_t j = i + 1; j <= n; ++j) {
                if (!fits(w, trail, i, j, g[gi].line_size))
                    break;
                big c = 0;
                if (j < n) {
                    big e = line_extent(w, trail, i, j);
                    if (e < g[gi].line_size)
                        c = (g[gi].line_size - e) * (g[gi].line_size - e);
                    c += best[j * m + g[gi].next_geometry_index];
                }
                if (r < 0 || c < r)
                    r = c;
            }
            best[i * m + gi] = r;
        }
    }
    return n == 0 ? big(0) : best[gi0];
}

std::string show_case(const Words& w, std::size_t trail, const Geoms& g, std::size_t gi)
{
    std::ostringstream o;
    o << "words:";
    for (auto& x : w)
        o << ' ' << x.space_size << '+' << x.word_size;
    o << " trailing " << trail << " geometry:";
    for (auto& x : g)
        o << ' ' << x.line_size << "->" << x.next_geometry_index;
    o << " first " << gi;
    return o.str();
}

void gen(vf::Case& c, Words& w, std::size_t& trail, Geoms& g, std::size_t& gi, std::size_t max_words, bool huge)
{
    auto& r = c.rng;
    std::size_t n = r.below(max_words + 1);
    std::size_t wmax = r.range(1, 12), smax = r.chance(1, 3) ? r.range(0, 4) : 1;
    const std::size_t top = std::numeric_limits<std::size_t>::max();
    auto sz = [&](std::size_t m) -> std::size_t {
        if (huge && r.chance(1, 4))
            return r.chance(1, 2) ? top - r.below(5) : (std::size_t(1) << r.range(28, 63)) - r.below(3);
        return r.below(m + 1);
    };
    w.clear();
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t ws = sz(wmax);
        if (ws == 0 && !r.chance(1, 8))
            ws = 1;
        std::size_t ss = i == 0 ? (r.chance(1, 4) ? sz(5) : 0) : (r.chance(1, 10) ? 0 : smax == 1 ? 1 : sz(smax));
        w.push_back({ ss, ws });
    }
    trail = r.chance(1, 3) ? sz(6) : 0;
    g.clear();
    std::size_t m = r.range(1, 4);
    std::size_t base = r.range(0, 40);
    for (std::size_t i = 0; i < m; ++i)
        g.push_back({ r.chance(1, 2) ? base : sz(40), std::size_t(r.below(m)) });
    gi = r.below(m);
}

} // namespace

VF_MONITOR(greedy_wrap, 60000, 3000000)
{
    Words w;
    Geoms g;
    std::size_t trail, gi;
    bool huge = c.rng.chance(1, 6);
    gen(c, w, trail, g, gi, c.rng.chance(1, 20) ? 200 : 14, huge);
    Breaks expect = first_fit(w, trail, g, gi);
    Breaks got = { 7, 8, 9 };
    ww::greedy(w, trail, g, got, gi);
    VF_EQ(got, expect, "first_fit", show_case(w, trail, g, gi));
    if (expect.size() >= 2) {
        c.nontrivial(vf::Hash().add(expect.size()).add(w.size()).add(trail).add(gi).add(expect[1]).get());
        c.event("lines", expect.size() + 1);
        if (huge)
            c.event("huge_sizes");
    }
}

VF_MONITOR(knuth_wrap, 12000, 600000)
{
    // One wrapper object is used for several inputs; results must not depend on its history
    ww::KnuthWrapper k;
    for (int t = 0; t < 3; ++t) {
        Words w;
        Geoms g;
        std::size_t trail, gi;
        bool huge = c.rng.chance(1, 6);
        gen(c, w, trail, g, gi, c.rng.chance(1, 20) ? 60 : 12, huge);
        big best = min_cost(w, trail, g, gi);
        Breaks got = { 7, 8, 9 };
        bool overflow = false;
        try {
            k.wrap(w, trail, g, got, gi);
        }
        catch (std::overflow_error&) {
            overflow = true;
        }
        bool representable = best <= big(std::numeric_limits<ww::KnuthWrapper::badness_type>::max());
        if (!representable) {
            VF_REQUIRE(overflow, "overflow_reported", show_case(w, trail, g, gi));
            c.event("overflow");
            continue;
        }
        // The largest value doubles as "no result" marker
        if (best == big(std::numeric_limits<ww::KnuthWrapper::badness_type>::max()))
            continue;
        VF_REQUIRE(!overflow, "spurious_overflow", show_case(w, trail, g, gi) << " best " << best);
        big cost = 0;
        std::size_t i = 0, gj = gi;
        for (std::size_t b : got) {
            VF_REQUIRE(b > i && b < w.size(), "breakpoint_order", show_case(w, trail, g, gi) << " got " << vf::show(got));
            VF_REQUIRE(fits(w, trail, i, b, g[gj].line_size), "line_fits", show_case(w, trail, g, gi) << " got " << vf::show(got));
            big e = line_extent(w, trail, i, b);
            if (e < g[gj].line_size)
                cost += (g[gj].line_size - e) * (g[gj].line_size - e);
            i = b;
            gj = g[gj].next_geometry_index;
        }
        if (!w.empty())
            VF_REQUIRE(fits(w, trail, i, w.size(), g[gj].line_size), "last_line_fits", show_case(w, trail, g, gi) << " got " << vf::show(got));
        VF_REQUIRE(cost == best, "minimum_cost", show_case(w, trail, g, gi) << " got " << vf::show(got) << " cost " << cost << " best " << best);
        VF_REQUIRE(big(k.get_badness()) == best, "badness", show_case(w, trail, g, gi) << " reported " << k.get_badness() << " best " << best);
        if (got.size() >= 2) {
            c.nontrivial(vf::Hash().add(got.size()).add(w.size()).add(std::size_t(best % 1000003)).add(got[1]).get());
            c.event("lines", got.size() + 1);
            if (got != first_fit(w, trail, g, gi))
                c.event("differs_from_greedy");
        }
    }
}
