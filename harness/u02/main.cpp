// Rectangle packing: every placement is checked for confinement, separation, and accounting.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <vector>

#include "vf.hpp"
#include <archon/util/rectangle_packer.hpp>

using namespace archon;

namespace {
using i128 = __int128;
using u128 = unsigned __int128;

struct R { i128 w, h; };

u128 isqrt(u128 v)
{
    u128 lo = 0, hi = (u128(1) << 64);
    while (hi - lo > 1) {
        u128 mid = lo + (hi - lo) / 2;
        if (mid <= v / mid)
            lo = mid;
        else
            hi = mid;
    }
    return v == 0 ? u128(0) : lo;
}

template<class T> void judge(vf::Case& c, const util::RectanglePacker<T>& p, const std::vector<R>& rects, i128 spacing,
                             i128 margin, i128 bw, i128 bh, std::size_t max_bins)
{
    std::size_t n = rects.size();
    struct P { std::size_t bin; i128 x, y; };
    std::vector<P> pos;
    std::size_t num = p.get_num_bins();
    auto info = [&](std::ostream& out) {
        out << "spacing=" << (long long)(spacing) << " margin=" << (long long)(margin) << " bin=" << (long long)(bw) << "x"
            << (long long)(bh) << " max_bins=" << max_bins << " bins=" << num << " rects:";
        for (std::size_t i = 0; i < n && i < 40; ++i) {
            out << " " << (long long)(rects[i].w) << "x" << (long long)(rects[i].h);
            if (i < pos.size())
                out << "@" << pos[i].bin << ":" << (long long)(pos[i].x) << "," << (long long)(pos[i].y);
        }
    };
    VF_REQUIRE(num <= max_bins, "too-many-bins", info);
    VF_REQUIRE(n == 0 ? num == 0 : num >= 1, "bin-count", info);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t bin = std::size_t(-1);
        T x = 0, y = 0, x2 = 0, y2 = 0;
        p.get_rect_pos(i, bin, x, y);
        p.get_rect_pos(i, x2, y2);
        pos.push_back({ bin, i128(x), i128(y) });
        VF_REQUIRE(x == x2 && y == y2, "position-query", info);
        VF_REQUIRE(bin < num, "bin-index", info);
        VF_REQUIRE(i128(x) >= margin && i128(y) >= margin && i128(x) + rects[i].w <= bw - margin &&
                   i128(y) + rects[i].h <= bh - margin, "confinement", info);
    }
    std::vector<i128> mx(num, -1), my(num, -1);
    for (std::size_t i = 0; i < n; ++i) {
        mx[pos[i].bin] = std::max(mx[pos[i].bin], pos[i].x + rects[i].w);
        my[pos[i].bin] = std::max(my[pos[i].bin], pos[i].y + rects[i].h);
        for (std::size_t j = 0; j < i; ++j) {
            if (pos[i].bin != pos[j].bin)
                continue;
            bool hsep = pos[i].x + rects[i].w + spacing <= pos[j].x || pos[j].x + rects[j].w + spacing <= pos[i].x;
            bool vsep = pos[i].y + rects[i].h + spacing <= pos[j].y || pos[j].y + rects[j].h + spacing <= pos[i].y;
            VF_REQUIRE(hsep || vsep, "overlap", [&](std::ostream& out) { out << "rects " << j << " and " << i << "; "; info(out); });
        }
    }
    for (std::size_t b = 0; b < num; ++b) {
        VF_REQUIRE(mx[b] >= 0, "empty-bin", info);
        VF_REQUIRE(i128(p.get_utilized_width(b)) == mx[b] + margin && i128(p.get_utilized_height(b)) == my[b] + margin,
                   "utilized-size", [&](std::ostream& out) {
                       out << "bin " << b << " utilized " << (long long)(p.get_utilized_width(b)) << "x"
                           << (long long)(p.get_utilized_height(b)) << "; "; info(out); });
    }
    c.event("placed", n);
    if (num > 1)
        c.event("multiple-bins");
}

template<class T> void run(vf::Case& c)
{
    const i128 top = i128(std::numeric_limits<T>::max());
    bool huge = c.rng.chance(1, 5);
    auto coord = [&](int lim) -> i128 {
        if (huge && c.rng.chance(1, 2))
            return std::min<i128>(top, top / i128(c.rng.range(1, 6)) - i128(c.rng.below(4)) + 1);
        if (c.rng.chance(1, 12))
            return 0;
        return i128(c.rng.range(1, lim));
    };
    i128 spacing = (c.rng.chance(1, 2) ? 0 : i128(c.rng.below(6))), margin = (c.rng.chance(1, 2) ? 0 : i128(c.rng.below(6)));
    util::RectanglePacker<T> p { T(spacing), T(margin) };
    if (c.rng.chance(1, 6)) { // Junk, then reset
        p.add_rect(3, 4);
        p.add_rect(5, 1);
        if (c.rng.chance(1, 2))
            (void)p.pack(20);
        p.reset();
        VF_REQUIRE(p.get_num_bins() == 0, "reset", [](std::ostream&) {});
        c.event("reset");
    }
    std::vector<R> rects;
    int shape = int(c.rng.below(5));
    std::size_t n = c.rng.below(c.rng.chance(1, 4) ? 120 : 14);
    int lim = (shape == 0 ? 4 : shape == 1 ? 10 : shape == 2 ? 40 : 300);
    for (std::size_t i = 0; i < n; ++i) {
        R r { coord(lim), coord(lim) };
        if (shape == 4 && c.rng.chance(1, 2))
            r.h = r.w;
        rects.push_back(r);
        p.add_rect(T(r.w), T(r.h));
    }
    i128 widest = 0, tallest = 0, hsum = 0;
    u128 area = 0;
    bool area_big = false;
    for (auto& r : rects) {
        widest = std::max(widest, r.w);
        tallest = std::max(tallest, r.h);
        hsum += r.h + spacing;
        u128 a = u128(r.w + spacing) * u128(r.h + spacing);
        if (a > ~u128(0) - area)
            area_big = true;
        area += a;
    }
    auto info = [&](std::ostream& out) {
        out << "digits=" << std::numeric_limits<T>::digits << " spacing=" << (long long)(spacing) << " margin=" << (long long)(margin)
            << " rects:";
        for (std::size_t i = 0; i < n && i < 40; ++i)
            out << " " << (unsigned long long)(rects[i].w) << "x" << (unsigned long long)(rects[i].h);
    };
    // Suggested width
    i128 sug = i128(p.suggest_bin_width());
    {
        i128 ideal = top;
        if (!area_big) {
            u128 r = isqrt(area);
            ideal = (i128(r) > spacing ? i128(r) - spacing : 0);
        }
        bool beyond = ideal > top; // Any saturation is acceptable
        ideal = std::min(std::max(ideal, widest) + 2 * margin, top);
        i128 need = std::min(widest + 2 * margin, top);
        VF_REQUIRE(sug >= need && sug <= top, "suggested-width-too-small",
                   [&](std::ostream& out) { info(out); out << " suggested " << (long long)(sug); });
        // The area of the packed rectangles with spacing, unless that is too large to be represented
        if (!beyond && (area >> 64) == 0) {
            VF_REQUIRE(sug == ideal, "suggested-width",
                       [&](std::ostream& out) { info(out); out << " suggested " << (long long)(sug) << " ideal " << (long long)(ideal); });
            c.event("suggested");
        }
        else
            c.event("suggested.huge");
    }
    int attempts = int(c.rng.range(1, 4));
    bool ok = false;
    for (int k = 0; k < attempts; ++k) {
        i128 bw, bh;
        std::size_t max_bins = (c.rng.chance(1, 2) ? 1 : c.rng.below(n + 3));
        switch (c.rng.below(6)) {
            case 0: bw = sug; bh = top; break;
            case 1: bw = sug; bh = sug; break;
            case 2: bw = widest + 2 * margin + i128(c.rng.below(20)); bh = top; break;
            case 3: bw = widest + 2 * margin + i128(c.rng.below(30)); bh = tallest + 2 * margin + i128(c.rng.below(60)); break;
            case 4: bw = i128(c.rng.below(60)); bh = i128(c.rng.below(60)); break;
            default: bw = i128(std::min(top, sug + i128(c.rng.below(10)))); bh = i128(isqrt(area >> 1)) + i128(c.rng.below(100)); break;
        }
        bw = std::min(bw, top);
        bh = std::min(bh, top);
        ok = (bh == top && max_bins == 1 && c.rng.chance(1, 2)) ? p.pack(T(bw)) : p.pack(T(bw), T(bh), max_bins);
        auto info2 = [&](std::ostream& out) {
            info(out); out << " bin " << (long long)(bw) << "x" << (long long)(bh) << " max_bins=" << max_bins << " result " << ok;
        };
        i128 rw = bw - 2 * margin, rh = bh - 2 * margin;
        if (ok) {
            judge<T>(c, p, rects, spacing, margin, bw, bh, max_bins);
            c.event("packed");
        }
        else
            c.event("failed");
        bool each_fits = (n == 0 || (widest <= rw && tallest <= rh)) && rw >= 0 && rh >= 0;
        if (!each_fits)
            VF_REQUIRE(!ok, "impossible-packing-succeeded", info2);
        if (each_fits && max_bins >= n) {
            VF_REQUIRE(ok, "packing-with-bin-per-rectangle-failed", info2);
            c.event("trivial");
        }
        if (each_fits && max_bins >= 1 && hsum + rw <= rh) { // Could simply be stacked
            VF_REQUIRE(ok, "packing-into-tall-bin-failed", info2);
            c.event("tall");
        }
        if (c.rng.chance(1, 3)) {
            // State of packer remains usable: add more, and pack again
            R r { i128(c.rng.range(1, lim)), i128(c.rng.range(1, lim)) };
            p.add_rect(T(r.w), T(r.h));
            rects.push_back(r);
            ++n;
            widest = std::max(widest, r.w);
            tallest = std::max(tallest, r.h);
            hsum += r.h + spacing;
        }
        if (k > 0)
            c.event("repacked");
    }
    c.nontrivial(vf::Hash().add(n).add((long long)(sug)).add((long long)(hsum)).get());
}
} // unnamed namespace

VF_MONITOR(u02_packing, 12000, 400000)
{
    switch (c.rng.below(3)) {
        case 0: run<unsigned>(c); break;
        case 1: run<long>(c); break;
        default: run<int>(c); break;
    }
}
