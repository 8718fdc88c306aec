// K-d tree: every search is compared with an exhaustive scan in exact arithmetic.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <optional>
#include <vector>

#include "vf.hpp"
#include <archon/util/kdtree.hpp>

using namespace archon;

namespace {
using i128 = __int128;

template<int K> struct Point {
    std::array<long, K> v = {};
    int id = -1;
};

template<int K, class T> i128 sqd(const Point<K>& p, const std::array<T, K>& q)
{
    // Query components are multiples of 1/2
    i128 s = 0;
    for (int i = 0; i < K; ++i) {
        i128 d = i128(2 * p.v[i]) - i128((long long)(q[i] * 2));
        s += d * d;
    }
    return s;
}

template<int K, class T> void points_case(vf::Case& c, long mag, bool halves)
{
    std::size_t n = c.rng.chance(1, 8) ? c.rng.below(4) : std::size_t(c.rng.size(c.thorough ? 3000 : 400));
    // A narrow value range forces many ties with splitting planes and many duplicates
    long span = c.rng.chance(1, 3) ? 1 + long(c.rng.below(4)) : c.rng.chance(1, 2) ? 1 + long(c.rng.below(50)) : mag;
    if (span > mag)
        span = mag;
    std::vector<Point<K>> pts(n);
    for (std::size_t i = 0; i < n; ++i) {
        for (int j = 0; j < K; ++j)
            pts[i].v[j] = long(c.rng.range(-span, span));
        if (i > 0 && c.rng.chance(1, 12))
            pts[i].v = pts[c.rng.below(i)].v;
        if (i > 0 && c.rng.chance(1, 6))
            pts[i].v[c.rng.below(K)] = pts[i - 1].v[c.rng.below(K)];
    }
    int shape = int(c.rng.below(6));
    if (shape == 0)
        std::sort(pts.begin(), pts.end(), [](const auto& a, const auto& b) { return a.v < b.v; });
    else if (shape == 1)
        std::sort(pts.begin(), pts.end(), [](const auto& a, const auto& b) { return a.v > b.v; });
    else if (shape == 2) {
        for (auto& p : pts) {
            for (int j = 1; j < K; ++j)
                p.v[j] = p.v[0];
        }
    }
    for (std::size_t i = 0; i < n; ++i)
        pts[i].id = int(i);
    // Either the points themselves, or indexes that refer to them
    bool indirect = c.rng.chance(1, 2);
    std::vector<Point<K>> orig = pts;
    std::vector<int> idx(n);
    for (std::size_t i = 0; i < n; ++i)
        idx[i] = int(i);
    std::uint64_t comps = 0;
    bool bad_dim = false;
    auto get_d = [&](const Point<K>& p, int i) -> T {
        ++comps;
        if (i < 0 || i >= K) {
            bad_dim = true;
            return 0;
        }
        return T(p.v[i]);
    };
    auto get_i = [&](int j, int i) -> T {
        ++comps;
        if (i < 0 || i >= K || j < 0 || std::size_t(j) >= n) {
            bad_dim = true;
            return 0;
        }
        return T(orig[j].v[i]);
    };
    if (indirect)
        util::kdtree_sort(K, idx.begin(), idx.end(), get_i);
    else
        util::kdtree_sort(K, pts.begin(), pts.end(), get_d);
    auto info = [&](std::ostream& out) {
        out << "K=" << K << " n=" << n << " span=" << span << " shape=" << shape << " indirect=" << indirect << " points:";
        for (std::size_t i = 0; i < n && i < 60; ++i) {
            out << " (";
            for (int j = 0; j < K; ++j)
                out << (j ? "," : "") << orig[i].v[j];
            out << ")";
        }
    };
    VF_REQUIRE(!bad_dim, "get-comp-arguments", info);
    // The sorted range is a permutation of the original one
    {
        std::vector<int> seen(n);
        bool same = true;
        for (std::size_t i = 0; i < n; ++i) {
            int id = indirect ? idx[i] : pts[i].id;
            if (id < 0 || std::size_t(id) >= n || seen[id]++ != 0 || (!indirect && pts[i].v != orig[id].v))
                same = false;
        }
        VF_REQUIRE(same, "not-a-permutation", info);
        c.event("sorts");
    }
    int queries = c.thorough ? 60 : 25;
    for (int r = 0; r < queries; ++r) {
        std::array<T, K> q = {};
        for (int j = 0; j < K; ++j) {
            if (n != 0 && c.rng.chance(1, 2))
                q[j] = T(orig[c.rng.below(n)].v[j]);
            else
                q[j] = T(c.rng.range(-span - 2, span + 2));
            if (halves && c.rng.chance(1, 4))
                q[j] += T(0.5);
        }
        if (n != 0 && c.rng.chance(1, 6)) {
            const auto& p = orig[c.rng.below(n)];
            for (int j = 0; j < K; ++j)
                q[j] = T(p.v[j]);
        }
        if (c.rng.chance(1, 10))
            q[c.rng.below(K)] = T(c.rng.chance(1, 2) ? -mag : mag);
        i128 best = -1;
        for (const auto& p : orig) {
            i128 s = sqd<K, T>(p, q);
            if (best < 0 || s < best)
                best = s;
        }
        std::optional<T> max_dist;
        i128 limit = -1; // squared, times 4
        if (c.rng.chance(1, 2)) {
            i128 m2; // twice the maximum distance
            if (best >= 0 && c.rng.chance(2, 3)) {
                auto root = (long long)(std::sqrt(double(best)));
                m2 = root + (long long)(c.rng.below(5)) - 2;
                if (m2 < 0)
                    m2 = 0;
            }
            else {
                m2 = c.rng.range(0, 4 * span);
            }
            if (!halves)
                m2 = m2 / 2 * 2;
            max_dist = T(double(m2) / 2);
            limit = m2 * m2;
        }
        else if (std::numeric_limits<T>::has_infinity && c.rng.chance(1, 10)) {
            max_dist = std::numeric_limits<T>::infinity();
        }
        bool expect = (best >= 0 && (limit < 0 || best < limit));
        Point<K> point;
        point.id = -77;
        int index = -77;
        T dist = -5;
        comps = 0;
        bool found = indirect ?
            util::kdtree_find(K, idx.begin(), idx.end(), get_i, q.data(), max_dist, index, dist) :
            util::kdtree_find(K, pts.begin(), pts.end(), get_d, q.data(), max_dist, point, dist);
        auto info_2 = [&](std::ostream& out) {
            out << "query=(";
            for (int j = 0; j < K; ++j)
                out << (j ? "," : "") << q[j];
            out << ") max_dist=" << (max_dist ? double(*max_dist) : -1.0) << " best-sqdist*4=" << (long long)(best)
                << " found=" << found << " id=" << (indirect ? index : point.id) << " dist=" << dist << " ";
            info(out);
        };
        VF_REQUIRE(!bad_dim, "get-comp-arguments", info_2);
        VF_REQUIRE(found == expect, "found-or-not", info_2);
        if (!found) {
            VF_REQUIRE(index == -77 && point.id == -77 && dist == T(-5), "changed-when-not-found", info_2);
            c.event("not-found");
            continue;
        }
        int id = indirect ? index : point.id;
        VF_REQUIRE(id >= 0 && std::size_t(id) < n, "returned-point", info_2);
        VF_REQUIRE(indirect || point.v == orig[id].v, "returned-point-components", info_2);
        VF_REQUIRE((sqd<K, T>(orig[id], q)) == best, "not-closest", info_2);
        if (std::is_floating_point_v<T>) {
            double d = std::sqrt(double(best)) / 2;
            VF_REQUIRE(std::abs(double(dist) - d) <= d * 1e-6, "distance", info_2);
        }
        c.event("found");
        if (best == 0)
            c.event("exact-hits");
        if (max_dist)
            c.event("found-within-limit");
        // Pruning must not degenerate to a complete scan on large well spread-out trees
        if (comps < n)
            c.event("pruned-searches");
    }
    if (n >= 2)
        c.nontrivial(vf::Hash().add(n).add(span).add(shape).add(orig[0].v[0]).get());
    c.sample([&](std::ostream& out) { info(out); });
}

// Arbitrary floating-point components, where the distance must be minimal up to rounding
template<int K, class T> void real_case(vf::Case& c)
{
    std::size_t n = 1 + c.rng.below(300);
    std::vector<std::array<T, K>> pts(n);
    double scale = std::pow(10.0, c.rng.range(-9, 9));
    for (auto& p : pts) {
        for (auto& v : p)
            v = T(c.rng.real(-1, 1) * scale);
    }
    auto orig = pts;
    auto get = [](const std::array<T, K>& p, int i) { return p[i]; };
    util::kdtree_sort(K, pts.begin(), pts.end(), get);
    auto a = orig, b = pts;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VF_REQUIRE(a == b, "not-a-permutation", "n=" << n);
    for (int r = 0; r < 30; ++r) {
        std::array<T, K> q = {};
        for (auto& v : q)
            v = T(c.rng.real(-1.3, 1.3) * scale);
        if (c.rng.chance(1, 4))
            q = orig[c.rng.below(n)];
        long double best = -1;
        auto dist_to = [&](const std::array<T, K>& p) {
            long double s = 0;
            for (int j = 0; j < K; ++j)
                s += ((long double)(p[j]) - q[j]) * ((long double)(p[j]) - q[j]);
            return std::sqrt(s);
        };
        for (const auto& p : orig) {
            auto d = dist_to(p);
            if (best < 0 || d < best)
                best = d;
        }
        std::array<T, K> point = {};
        T dist = -1;
        std::optional<T> max_dist;
        if (c.rng.chance(1, 3))
            max_dist = T(c.rng.real(0, 1) * scale);
        bool found = util::kdtree_find(K, pts.begin(), pts.end(), get, q.data(), max_dist, point, dist);
        long double eps = 64 * (long double)(std::numeric_limits<T>::epsilon());
        auto info = [&](std::ostream& out) {
            out << "K=" << K << " n=" << n << " scale=" << scale << " best=" << double(best) << " dist=" << dist
                << " found=" << found << " max=" << (max_dist ? double(*max_dist) : -1.0);
        };
        if (max_dist && std::abs(best - *max_dist) > eps * best)
            VF_REQUIRE(found == (best < *max_dist), "found-or-not", info);
        if (!max_dist)
            VF_REQUIRE(found, "found-or-not", info);
        if (!found)
            continue;
        VF_REQUIRE(dist_to(point) <= best * (1 + eps), "not-closest", info);
        VF_REQUIRE(std::abs((long double)(dist) - best) <= best * eps, "distance", info);
        c.event("real-found");
    }
    c.nontrivial(vf::Hash().add(n).add(scale).get());
}
} // namespace

VF_MONITOR(kdtree_exact, 1500, 20000)
{
    switch (c.rng.below(8)) {
        case 0: return points_case<1, double>(c, 1000000, true);
        case 1: return points_case<2, double>(c, 1000000, true);
        case 2: return points_case<3, double>(c, 1000000, true);
        case 3: return points_case<5, double>(c, 100000, true);
        case 4: return points_case<2, float>(c, 700, true);
        case 5: return points_case<3, float>(c, 700, true);
        case 6: return points_case<2, int>(c, 10000, false);
        case 7: return points_case<3, long>(c, 100000000, false);
    }
}

VF_MONITOR(kdtree_real, 600, 10000)
{
    switch (c.rng.below(4)) {
        case 0: return real_case<2, double>(c);
        case 1: return real_case<3, float>(c);
        case 2: return real_case<4, long double>(c);
        case 3: return real_case<1, double>(c);
    }
}
