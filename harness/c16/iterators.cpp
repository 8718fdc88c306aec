// Iterator adaptors and index ranges

#include <algorithm>
#include <numeric>
#include <string>
#include <vector>
#include <deque>
#include <archon/core/index_iterator.hpp>
#include <archon/core/index_range.hpp>
#include <archon/core/proxy_iterator.hpp>
#include <archon/core/stride_iterator.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

// A container where the application chooses how to subscribe
struct Grid {
    std::vector<int> data;
    int calls = 0;
};

struct GridSubscr {
    static auto subscr(Grid& g, std::ptrdiff_t i) -> int&
    {
        ++g.calls;
        return g.data[g.data.size() - 1 - std::size_t(i)];
    }
};

struct Wrap {
    int v;
    explicit Wrap(int w) : v(w) {}
};

struct Item {
    int a;
};

// Random walk of an iterator over positions 0 <= p <= n, where `at(p)` is the address (or value) expected at position p.
template<class I, class G> void walk(vf::Case& c, const char* what, I iter, std::ptrdiff_t n, G&& same_at)
{
    std::ptrdiff_t p = 0;
    I marks[3] = { iter, iter, iter };
    std::ptrdiff_t mark_pos[3] = { 0, 0, 0 };
    std::ptrdiff_t neg = 0;
    for (std::size_t k = 8 + c.rng.below(24); k > 0; --k) {
        std::ptrdiff_t q = std::ptrdiff_t(c.rng.below(std::uint64_t(n) + 1)); // Target
        switch (c.rng.below(10)) {
            case 0:
                if (p < n) {
                    I& r = ++iter;
                    VF_REQUIRE(&r == &iter, what, "pre-increment returns something else");
                    ++p;
                }
                break;
            case 1:
                if (p > 0) {
                    I& r = --iter;
                    VF_REQUIRE(&r == &iter, what, "pre-decrement returns something else");
                    --p;
                }
                break;
            case 2:
                if (p < n) {
                    I old = iter++;
                    VF_REQUIRE(old + 1 == iter && iter - old == 1, what, "post-increment");
                    if (p < n)
                        VF_REQUIRE(same_at(old, p), what, "post-increment result at " << p);
                    ++p;
                }
                break;
            case 3:
                if (p > 0) {
                    I old = iter--;
                    VF_REQUIRE(old - 1 == iter && old - iter == 1, what, "post-decrement");
                    --p;
                }
                break;
            case 4:
                iter += q - p;
                p = q;
                break;
            case 5:
                iter -= p - q;
                p = q;
                break;
            case 6:
                iter = iter + (q - p);
                p = q;
                break;
            case 7:
                iter = iter - (p - q);
                p = q;
                break;
            case 8:
                iter = (q - p) + iter;
                p = q;
                break;
            case 9: {
                std::size_t m = c.rng.below(3);
                marks[m] = iter;
                mark_pos[m] = p;
                break;
            }
        }
        for (int m = 0; m < 3; ++m) {
            std::ptrdiff_t d = p - mark_pos[m];
            neg += d < 0;
            VF_REQUIRE(iter - marks[m] == d, what, "distance " << (iter - marks[m]) << " instead of " << d);
            VF_REQUIRE((iter == marks[m]) == (d == 0) && (iter != marks[m]) == (d != 0) && (iter < marks[m]) == (d < 0) &&
                       (iter > marks[m]) == (d > 0) && (iter <= marks[m]) == (d <= 0) && (iter >= marks[m]) == (d >= 0),
                       what, "comparison at distance " << d);
        }
        if (p < n)
            VF_REQUIRE(same_at(iter, p), what, "element at " << p);
        if (q < n) {
            I other = iter + (q - p);
            VF_REQUIRE(same_at(other, q), what, "element at " << q << " from " << p);
        }
    }
    c.event("steps", 1);
    if (neg > 0)
        c.event("negative_distance", 1);
}

template<std::size_t S, class V> void stride(vf::Case& c, V& vec, std::ptrdiff_t n, const char* what)
{
    auto beg = core::make_stride_iterator<S>(vec.begin());
    walk(c, what, beg, n, [&](auto i, std::ptrdiff_t p) {
        return &*i == &vec[std::size_t(p) * S] && &beg[p] == &*i && &i[-p] == &vec[0];
    });
    // As used by algorithms
    std::ptrdiff_t m = n;
    std::vector<int> expect;
    for (std::ptrdiff_t i = 0; i < m; ++i)
        expect.push_back(vec[std::size_t(i) * S]);
    auto rest = vec;
    std::sort(beg, beg + m);
    std::sort(expect.begin(), expect.end());
    for (std::size_t i = 0; i < vec.size(); ++i) {
        if (i % S == 0 && std::ptrdiff_t(i / S) < m)
            VF_EQ(vec[i], expect[i / S], what, "sorted " << i);
        else
            VF_EQ(vec[i], rest[i], what, "untouched " << i);
    }
    int key = int(c.rng.below(50));
    auto a = std::lower_bound(beg, beg + m, key) - beg;
    auto b = std::lower_bound(expect.begin(), expect.end(), key) - expect.begin();
    VF_EQ(a, b, what, "lower_bound " << key);
    c.event("sorted", 1);
}

} // unnamed namespace

VF_MONITOR(iterators, 1500, 60000)
{
    std::ptrdiff_t n = std::ptrdiff_t(c.rng.below(20));
    switch (c.rng.below(4)) {
        case 0: {
            std::vector<int> v(std::size_t(n) + 1);
            for (auto& e : v)
                e = int(c.rng.below(50));
            core::IndexIterator<std::vector<int>> beg(v, 0);
            walk(c, "index_iterator", beg, n, [&](auto i, std::ptrdiff_t p) {
                return &*i == &v[std::size_t(p)] && &beg[p] == &*i && i.operator->() == &*i;
            });
            auto w = v;
            std::sort(beg, core::IndexIterator<std::vector<int>>(v, n));
            std::sort(w.begin(), w.begin() + n);
            VF_REQUIRE(v == w, "index_iterator_sort", "n=" << n);
            break;
        }
        case 1: {
            Grid g;
            g.data.resize(std::size_t(n) + 1);
            std::iota(g.data.begin(), g.data.end(), 0);
            core::IndexIterator<Grid, GridSubscr> beg(g, 0);
            walk(c, "index_iterator_custom", beg, n, [&](auto i, std::ptrdiff_t p) {
                int* e = &g.data[std::size_t(n - p)];
                return &*i == e && &beg[p] == e && i.operator->() == e;
            });
            c.event("custom_subscr", g.calls);
            break;
        }
        case 2: {
            std::size_t size = std::size_t(n) * 7 + 1;
            std::vector<int> v(size);
            for (auto& e : v)
                e = int(c.rng.below(50));
            switch (c.rng.below(4)) {
                case 0:
                    stride<1>(c, v, n, "stride_1");
                    break;
                case 1:
                    stride<2>(c, v, n, "stride_2");
                    break;
                case 2:
                    stride<7>(c, v, n, "stride_7");
                    break;
                case 3: {
                    std::deque<int> d(v.begin(), v.end());
                    stride<3>(c, d, n, "stride_3");
                    break;
                }
            }
            break;
        }
        case 3: {
            std::vector<int> v(std::size_t(n) + 1);
            for (auto& e : v)
                e = int(c.rng.below(50));
            core::ProxyIterator<std::vector<int>::iterator, Wrap> beg(v.begin());
            walk(c, "proxy_iterator", beg, n, [&](auto i, std::ptrdiff_t p) {
                return (*i).v == v[std::size_t(p)] && beg[p].v == v[std::size_t(p)];
            });
            core::IndexRange r { c.rng.below(v.size()), 0 };
            r.size = c.rng.below(v.size() - r.offset + 1);
            auto s = r.resolve(v.data());
            VF_REQUIRE(s.size() == r.size && s.data() == v.data() + r.offset, "index_range", "resolve");
            std::string t(v.size(), 'x');
            auto sv = r.resolve_string(t.data());
            VF_REQUIRE(sv.size() == r.size && sv.data() == t.data() + r.offset, "index_range", "resolve_string");
            break;
        }
    }
    c.nontrivial(vf::Hash().add(n).get());
}
