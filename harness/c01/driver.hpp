#pragma once

// C01: vector and deque against an ideal sequence, with monitored element lifetimes,
// injected exceptions, and monitored capacity / reallocation / stability guarantees.
#include <iterator>
#include <list>
#include <sstream>
#include <vector>
#include <archon/core/vector.hpp>
#include <archon/core/deque.hpp>
#include <archon/core/memory.hpp>
#include <elem.hpp>

using namespace archon;
using lt::reg;
using Model = std::vector<int>;

namespace {

// Single-pass iterator over ints producing T
template<class T> class InIter {
public:
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    InIter(const int* p) : m_p(p) {}
    T operator*() const { return lt::Traits<T>::make(*m_p); }
    InIter& operator++() { ++m_p; return *this; }
    InIter operator++(int) { auto i = *this; ++m_p; return i; }
    friend bool operator==(const InIter& a, const InIter& b) { return a.m_p == b.m_p; }
    friend bool operator!=(const InIter& a, const InIter& b) { return a.m_p != b.m_p; }
private:
    const int* m_p;
};

// Random access iterator over ints
template<class T> class RaIter {
public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = const int*;
    using reference = const int&;
    RaIter(const int* p) : m_p(p) {}
    const int& operator*() const { return *m_p; }
    RaIter& operator++() { ++m_p; return *this; }
    RaIter& operator--() { --m_p; return *this; }
    RaIter& operator+=(std::ptrdiff_t n) { m_p += n; return *this; }
    RaIter operator+(std::ptrdiff_t n) const { return { m_p + n }; }
    RaIter operator-(std::ptrdiff_t n) const { return { m_p - n }; }
    std::ptrdiff_t operator-(const RaIter& o) const { return m_p - o.m_p; }
    friend bool operator==(const RaIter& a, const RaIter& b) { return a.m_p == b.m_p; }
    friend bool operator!=(const RaIter& a, const RaIter& b) { return a.m_p != b.m_p; }
private:
    const int* m_p;
};

template<class C> struct IsVec : std::false_type {};
template<class T, std::size_t N> struct IsVec<core::Vector<T, N>> : std::true_type {};
template<class C> struct StaticCap { static constexpr std::size_t value = 0; };
template<class T, std::size_t N> struct StaticCap<core::Vector<T, N>> { static constexpr std::size_t value = N; };

template<class C> class Driver {
public:
    using T = typename C::value_type;
    using Tr = lt::Traits<T>;
    static constexpr bool vec = IsVec<C>::value;
    static constexpr std::size_t N = StaticCap<C>::value;

    explicit Driver(vf::Case& c) : c(c) {}

    vf::Case& c;
    std::ostringstream log;
    std::string what;

    static int g(const T& v) { return Tr::get(v); }

    // One container under test, with its model
    struct Slot {
        std::unique_ptr<C> con;
        Model m;
    };

    void require_ok(const char* key)
    {
        if (!reg().error.empty())
            vf::fail(std::string("lifetime"), reg().error + " during " + what + " [" + key + "] history: " + log.str());
    }

    void check(Slot& s)
    {
        C& v = *s.con;
        const C& cv = v;
        std::size_t n = s.m.size();
        VF_EQ(cv.size(), n, "size", what << " history: " << log.str());
        VF_EQ(cv.empty(), n == 0, "empty", what);
        VF_REQUIRE(cv.capacity() >= n, "capacity", what << " capacity " << cv.capacity() << " size " << n);
        Model got;
        got.reserve(n);
        for (const T& e : cv)
            got.push_back(g(e));
        VF_EQ(got, s.m, "content", what << " history: " << log.str());
        if (c.rng.chance(1, 4)) {
            Model r;
            for (auto i = v.rbegin(); i != v.rend(); ++i)
                r.push_back(g(*i));
            Model r2(s.m.rbegin(), s.m.rend());
            VF_EQ(r, r2, "reverse", what << " history: " << log.str());
            for (std::size_t i = 0; i < n; ++i) {
                VF_EQ(g(v[i]), s.m[i], "index", what);
                VF_EQ(g(cv.at(i)), s.m[i], "at", what);
            }
            bool thrown = false;
            try { (void)v.at(n + c.rng.below(3)); }
            catch (const std::out_of_range&) { thrown = true; }
            VF_REQUIRE(thrown, "at_out_of_range", what);
            thrown = false;
            try { (void)cv.at(std::size_t(-1) - c.rng.below(3)); }
            catch (const std::out_of_range&) { thrown = true; }
            VF_REQUIRE(thrown, "at_out_of_range", what);
            if (n > 0) {
                VF_EQ(g(v.front()), s.m.front(), "front", what);
                VF_EQ(g(cv.back()), s.m.back(), "back", what);
                // Random access iterator laws
                auto b = cv.begin(), e = cv.end();
                VF_EQ(std::size_t(e - b), n, "iter_diff", what);
                std::size_t i = c.rng.below(n + 1), j = c.rng.below(n + 1);
                auto p = b + std::ptrdiff_t(i), q = e - std::ptrdiff_t(n - j);
                VF_EQ(p - q, std::ptrdiff_t(i) - std::ptrdiff_t(j), "iter_diff", what);
                VF_EQ(p == q, i == j, "iter_cmp", what);
                VF_EQ(p != q, i != j, "iter_cmp", what);
                VF_EQ(p < q, i < j, "iter_cmp", what);
                VF_EQ(p <= q, i <= j, "iter_cmp", what);
                VF_EQ(p > q, i > j, "iter_cmp", what);
                VF_EQ(p >= q, i >= j, "iter_cmp", what);
                if (i < n) {
                    VF_EQ(g(*p), s.m[i], "iter_deref", what);
                    VF_EQ(g(b[std::ptrdiff_t(i)]), s.m[i], "iter_index", what);
                    auto p2 = p;
                    VF_REQUIRE(p2++ == p && p2 == b + std::ptrdiff_t(i + 1), "iter_inc", what);
                    VF_REQUIRE(p2-- == b + std::ptrdiff_t(i + 1) && p2 == p, "iter_dec", what);
                    p2 += std::ptrdiff_t(j) - std::ptrdiff_t(i);
                    VF_REQUIRE(p2 == q, "iter_add", what);
                    p2 -= std::ptrdiff_t(j) - std::ptrdiff_t(i);
                    VF_REQUIRE(p2 == p, "iter_sub", what);
                    // Mutable iterator converts to const one
                    typename C::const_iterator ci = v.begin() + std::ptrdiff_t(i);
                    VF_REQUIRE(ci == p, "iter_conv", what);
                }
            }
            if constexpr (vec) {
                VF_EQ(cv.span().size(), n, "span", what);
                VF_REQUIRE(cv.data() == cv.begin() && cv.span().data() == cv.data(), "data", what);
            }
        }
        require_ok("check");
    }

    template<class F> bool attempt(F&& f) // False if an injected exception was thrown
    {
        try {
            f();
        }
        catch (const lt::Boom&) {
            reg().countdown = -1;
            c.event("injected_exception");
            return false;
        }
        reg().countdown = -1;
        return true;
    }

    Model random_values(std::size_t n)
    {
        Model m(n);
        for (int& v : m)
            v = int(c.rng.range(0, 50));
        return m;
    }

    Slot make()
    {
        Slot s;
        std::size_t n = c.rng.size(24);
        switch (c.rng.below(5)) {
            case 0:
                what = "ctor()";
                s.con = std::make_unique<C>();
                break;
            case 1:
                what = "ctor(n)";
                s.con = std::make_unique<C>(n);
                s.m.resize(n);
                break;
            case 2:
                if constexpr (Tr::copyable) {
                    what = "ctor(n,v)";
                    int v = int(c.rng.below(50));
                    T t = Tr::make(v);
                    s.con = std::make_unique<C>(n, t);
                    s.m.assign(n, v);
                    break;
                }
                [[fallthrough]];
            case 3:
                what = "ctor(input range)";
                s.m = random_values(n);
                s.con = std::make_unique<C>(InIter<T>(s.m.data()), InIter<T>(s.m.data() + n));
                break;
            case 4:
                what = "ctor(range)";
                s.m = random_values(n);
                if constexpr (Tr::tracked) {
                    s.con = std::make_unique<C>(RaIter<T>(s.m.data()), RaIter<T>(s.m.data() + n));
                }
                else {
                    std::vector<T> tmp;
                    for (int v : s.m)
                        tmp.push_back(Tr::make(v));
                    s.con = std::make_unique<C>(tmp.begin(), tmp.end());
                }
                break;
        }
        log << what << n << ";";
        if constexpr (vec) {
            if (what != "ctor(input range)")
                VF_REQUIRE(s.con->capacity() >= std::max(N, s.m.size()), "initial_capacity", what << " " << s.con->capacity());
        }
        check(s);
        return s;
    }

    // Addresses of all elements, in order
    static std::vector<const T*> addrs(const C& v)
    {
        std::vector<const T*> r;
        for (std::size_t i = 0; i < v.size(); ++i)
            r.push_back(&v[i]);
        return r;
    }

    void step(Slot& s)
    {
        C& v = *s.con;
        const std::size_t n = s.m.size();
        const std::size_t cap = v.capacity();
        const std::vector<const T*> before = addrs(v);
        bool inject = Tr::tracked && c.rng.chance(1, 4);
        auto arm = [&](std::size_t k) {
            if constexpr (Tr::tracked) {
                if (inject)
                    reg().countdown = long(c.rng.below(k + 1));
            }
        };
        Model next = s.m;
        what = "noop";
        bool ok = true;
        bool strong = true; // Content is unchanged when the operation fails
        bool modifying = true; // Subject to the no-reallocation guarantee
        std::size_t stable = n; // Elements before this position must stay in place if no reallocation
        std::size_t shift_front = 0; // Elements inserted before the old first one
        std::size_t drop_front = 0;
        std::size_t would_be = 0; // Final size of an operation that was cut short
        bool may_reduce = false;
        const typename C::const_iterator old_begin = const_cast<const C&>(v).begin(),
                                         old_end = const_cast<const C&>(v).end();
        switch (c.rng.below(22)) {
            case 0: case 1: {
                what = "push_back(const&)";
                int x = int(c.rng.below(50));
                if constexpr (Tr::copyable) {
                    T t = Tr::make(x);
                    arm(n);
                    ok = attempt([&] { T& r = v.push_back(t); VF_REQUIRE(&r == &v[n], "result", what); });
                }
                else {
                    T t = Tr::make(x);
                    ok = attempt([&] { T& r = v.push_back(std::move(t)); VF_REQUIRE(&r == &v[n], "result", what); });
                }
                next.push_back(x);
                break;
            }
            case 2: {
                what = "push_back(&&)";
                int x = int(c.rng.below(50));
                T t = Tr::make(x);
                arm(n);
                ok = attempt([&] { T& r = v.push_back(std::move(t)); VF_REQUIRE(&r == &v[n], "result", what); });
                next.push_back(x);
                break;
            }
            case 3: {
                what = "emplace_back";
                int x = int(c.rng.below(50));
                if constexpr (Tr::tracked) {
                    arm(n);
                    ok = attempt([&] { T& r = v.emplace_back(x); VF_REQUIRE(&r == &v[n], "result", what); });
                }
                else {
                    ok = attempt([&] { T& r = v.emplace_back(Tr::make(x)); VF_REQUIRE(&r == &v[n], "result", what); });
                }
                next.push_back(x);
                break;
            }
            case 4: case 5: {
                if (n == 0)
                    return;
                what = "pop_back";
                v.pop_back();
                next.pop_back();
                stable = n - 1;
                if constexpr (!vec)
                    VF_REQUIRE(v.capacity() == cap, "capacity", what);
                break;
            }
            case 6: {
                what = "append(n,v)";
                std::size_t k = c.rng.size(12);
                int x = int(c.rng.below(50));
                if constexpr (Tr::copyable) {
                    T t = Tr::make(x);
                    arm(n + k);
                    ok = attempt([&] { v.append(k, t); });
                    next.insert(next.end(), k, x);
                }
                break;
            }
            case 7: {
                what = "append(ra)";
                Model k = random_values(c.rng.size(12));
                if constexpr (Tr::tracked) {
                    arm(n + k.size());
                    ok = attempt([&] { v.append(RaIter<T>(k.data()), RaIter<T>(k.data() + k.size())); });
                }
                else {
                    std::vector<T> tmp;
                    for (int x : k)
                        tmp.push_back(Tr::make(x));
                    v.append(tmp.begin(), tmp.end());
                }
                next.insert(next.end(), k.begin(), k.end());
                break;
            }
            case 8: {
                what = "append(input)";
                Model k = random_values(c.rng.size(12));
                arm(n + 2 * k.size());
                ok = attempt([&] { v.append(InIter<T>(k.data()), InIter<T>(k.data() + k.size())); });
                if (!ok) { // A prefix was appended
                    std::size_t m = v.size();
                    VF_REQUIRE(m >= n && m < n + k.size(), "append_prefix", what << " " << n << " " << m);
                    next.insert(next.end(), k.begin(), k.begin() + std::ptrdiff_t(m - n));
                    would_be = n + k.size();
                    ok = true;
                }
                else {
                    next.insert(next.end(), k.begin(), k.end());
                }
                break;
            }
            case 9: {
                what = "append(list)/bidirectional";
                Model k = random_values(3);
                if constexpr (Tr::copyable) {
                    std::initializer_list<T> l = { Tr::make(k[0]), Tr::make(k[1]), Tr::make(k[2]) };
                    arm(n + 3);
                    ok = attempt([&] { v.append(l); });
                    next.insert(next.end(), k.begin(), k.end());
                }
                break;
            }
            case 10: {
                strong = false;
                stable = 0;
                std::size_t k = c.rng.size(12);
                Model m = random_values(k);
                int which = int(c.rng.below(3));
                what = "assign#" + std::to_string(which);
                next = m;
                if (which == 0) {
                    if constexpr (Tr::copyable) {
                        next.assign(k, 7);
                        T t = Tr::make(7);
                        arm(k + n);
                        ok = attempt([&] { v.assign(k, t); });
                        break;
                    }
                }
                if (which == 1) {
                    if constexpr (Tr::tracked) {
                        arm(k + n);
                        ok = attempt([&] { v.assign(RaIter<T>(m.data()), RaIter<T>(m.data() + k)); });
                        break;
                    }
                }
                v.assign(InIter<T>(m.data()), InIter<T>(m.data() + k));
                break;
            }
            case 11: {
                what = "clear";
                v.clear();
                next.clear();
                stable = 0;
                VF_REQUIRE(v.capacity() == cap, "capacity", what);
                break;
            }
            case 12: {
                what = "resize(n)";
                std::size_t k = c.rng.chance(1, 2) ? n + c.rng.size(8) : c.rng.below(n + 1);
                if constexpr (!Tr::tracked || true) {
                    arm(n + k);
                    ok = attempt([&] { v.resize(k); });
                    next.resize(k);
                    stable = std::min(n, k);
                }
                break;
            }
            case 13: {
                if constexpr (Tr::copyable) {
                    what = "resize(n,v)";
                    std::size_t k = c.rng.chance(1, 2) ? n + c.rng.size(8) : c.rng.below(n + 1);
                    T t = Tr::make(9);
                    arm(n + k);
                    ok = attempt([&] { v.resize(k, t); });
                    next.resize(k, 9);
                    stable = std::min(n, k);
                }
                break;
            }
            case 14: {
                modifying = false;
                bool extra = c.rng.chance(1, 2);
                std::size_t k = c.rng.size(30);
                what = extra ? "reserve_extra" : "reserve";
                arm(n);
                ok = attempt([&] {
                    if (extra)
                        v.reserve_extra(k);
                    else
                        v.reserve(k);
                });
                std::size_t need = extra ? n + k : k;
                if (need <= cap) {
                    VF_REQUIRE(ok && v.capacity() == cap && addrs(v) == before, "reserve_no_realloc", what << " " << k);
                }
                else if (ok) {
                    VF_REQUIRE(v.capacity() >= need, "reserve", what << " " << k);
                    // Over-reservation is bounded (growth policy, not sum of size and request)
                }
                if (c.rng.chance(1, 8)) {
                    bool thrown = false;
                    try {
                        if (n > 0)
                            v.reserve_extra(std::size_t(-1) - c.rng.below(n));
                        else
                            v.reserve(std::size_t(-1));
                    }
                    catch (const std::length_error&) { thrown = true; }
                    catch (const std::bad_alloc&) { thrown = true; }
                    VF_REQUIRE(thrown, "reserve_overflow", what);
                }
                break;
            }
            case 15: {
                modifying = false;
                may_reduce = true;
                what = "shrink_to_fit";
                arm(n);
                bool is_static = N > 0 && is_static_mem(v);
                ok = attempt([&] { v.shrink_to_fit(); });
                if (ok) {
                    if (is_static)
                        VF_REQUIRE(v.capacity() == cap && addrs(v) == before, "shrink_static", what);
                    else
                        VF_EQ(v.capacity(), n, "shrink", what << " history: " << log.str());
                }
                break;
            }
            case 16: case 17: {
                if constexpr (Tr::nt_move) {
                    if (n == 0)
                        return;
                    what = "erase(i)";
                    std::size_t i = c.rng.below(n);
                    auto it = v.erase(v.begin() + std::ptrdiff_t(i));
                    VF_EQ(it - v.begin(), std::ptrdiff_t(i), "result", what << " " << i << " of " << n << " history: " << log.str());
                    next.erase(next.begin() + std::ptrdiff_t(i));
                    stable = vec ? i : 0;
                }
                break;
            }
            case 18: {
                if constexpr (Tr::nt_move) {
                    what = "erase(i,j)";
                    std::size_t i = c.rng.below(n + 1), j = i + c.rng.below(n - i + 1);
                    auto it = v.erase(v.begin() + std::ptrdiff_t(i), v.begin() + std::ptrdiff_t(j));
                    VF_EQ(it - v.begin(), std::ptrdiff_t(i), "result", what << " " << i << "," << j << " of " << n << " history: " << log.str());
                    next.erase(next.begin() + std::ptrdiff_t(i), next.begin() + std::ptrdiff_t(j));
                    stable = vec ? i : 0;
                }
                break;
            }
            case 19: {
                int x = int(c.rng.below(50));
                if constexpr (vec) {
                    if constexpr (Tr::nt_move) {
                        what = "emplace(pos)";
                        std::size_t i = c.rng.below(n + 1);
                        auto do_it = [&](auto&& arg) {
                            auto it = v.emplace(v.begin() + i, std::forward<decltype(arg)>(arg));
                            VF_REQUIRE(it == v.begin() + i, "result", what);
                        };
                        if constexpr (Tr::tracked) {
                            arm(1);
                            ok = attempt([&] { do_it(x); });
                        }
                        else {
                            ok = attempt([&] { do_it(Tr::make(x)); });
                        }
                        next.insert(next.begin() + std::ptrdiff_t(i), x);
                        stable = i;
                    }
                }
                else {
                    what = "push_front";
                    T t = Tr::make(x);
                    arm(n);
                    ok = attempt([&] {
                        T& r = (Tr::copyable && c.rng.chance(1, 2) ? push_front_copy(v, t) : v.push_front(std::move(t)));
                        VF_REQUIRE(&r == &v[0], "result", what);
                    });
                    next.insert(next.begin(), x);
                    shift_front = 1;
                }
                break;
            }
            case 20: {
                if constexpr (!vec) {
                    if (c.rng.chance(1, 2)) {
                        what = "emplace_front";
                        int x = int(c.rng.below(50));
                        if constexpr (Tr::tracked) {
                            arm(n);
                            ok = attempt([&] { v.emplace_front(x); });
                        }
                        else {
                            v.emplace_front(Tr::make(x));
                        }
                        next.insert(next.begin(), x);
                        shift_front = 1;
                    }
                    else {
                        if (n == 0)
                            return;
                        what = "pop_front";
                        v.pop_front();
                        next.erase(next.begin());
                        VF_REQUIRE(v.capacity() == cap, "capacity", what);
                        drop_front = 1;
                    }
                }
                break;
            }
            case 21: {
                if constexpr (!vec) {
                    what = "rotate";
                    // Drive the content around the end of the buffer
                    std::size_t k = c.rng.size(16);
                    for (std::size_t i = 0; i < k && !next.empty(); ++i) {
                        T t = std::move(v.front());
                        v.pop_front();
                        v.push_back(std::move(t));
                        next.push_back(next.front());
                        next.erase(next.begin());
                    }
                    stable = 0;
                    if (Tr::tracked)
                        reg().error.clear(); // Reading moved-from is legit for throwing types
                }
                break;
            }
        }
        log << what << (ok ? "" : "!") << "[" << n << "->" << v.size() << "/" << v.capacity() << "];";
        require_ok("op");
        const std::size_t cap2 = v.capacity();
        if (!may_reduce)
            VF_REQUIRE(cap2 >= cap, "capacity_reduced", what << " " << cap << " -> " << cap2 << " history: " << log.str());
        if (ok) {
            s.m = next;
        }
        else if (!strong) {
            // Documented as clear() followed by append(), so empty after failure
            s.m.clear();
        }
        check(s);
        // No reallocation when the final size is within the original capacity
        if (modifying && std::max(next.size(), would_be) <= cap) {
            VF_EQ(cap2, cap, "no_realloc", what << " history: " << log.str());
            std::size_t lim = ok ? stable : std::min(n, stable);
            if (!ok && !strong)
                lim = 0;
            std::vector<const T*> after = addrs(v);
            for (std::size_t i = drop_front; i < lim; ++i) {
                std::size_t j = i - drop_front + (ok ? shift_front : 0);
                VF_REQUIRE(j < after.size() && after[j] == before[i], "stability", what << " element " << i << " moved; history: " << log.str());
            }
            c.event("no_realloc_checks");
            if constexpr (!vec) {
                // Iterator stability
                if (ok && what == "pop_back")
                    VF_REQUIRE(old_begin == const_cast<const C&>(v).begin(), "iter_stability", what);
                if (ok && drop_front == 1 )
                    VF_REQUIRE(old_end == const_cast<const C&>(v).end(), "iter_stability", what);
                if (ok && shift_front == 1 && n > 0) {
                    VF_REQUIRE(&*old_begin == &v[1], "iter_stability", what);
                    VF_REQUIRE(old_end == const_cast<const C&>(v).end(), "iter_stability", what);
                }
                if (ok && what.substr(0, 9) == "push_back")
                    VF_REQUIRE(&*old_end == &v[n], "iter_stability", what);
            }
        }
        else {
            c.event("realloc_allowed");
        }
    }

    static T& push_front_copy(C& v, T& t)
    {
        if constexpr (Tr::copyable)
            return v.push_front(static_cast<const T&>(t));
        else
            return v.push_front(std::move(t));
    }

    static bool is_static_mem(const C& v)
    {
        if constexpr (vec) {
            auto p = reinterpret_cast<std::uintptr_t>(v.data());
            auto b = reinterpret_cast<std::uintptr_t>(&v);
            return p >= b && p < b + sizeof v;
        }
        else {
            return false;
        }
    }

    // Operations on two containers
    void pair_step(Slot& a, Slot& b)
    {
        if constexpr (Tr::nt_move || !vec) {
            switch (c.rng.below(5)) {
                case 0: {
                    what = "move-construct";
                    std::size_t cap = a.con->capacity();
                    Slot s;
                    s.con = std::make_unique<C>(std::move(*a.con));
                    s.m = a.m;
                    VF_EQ(s.con->capacity(), cap, "move_capacity", what);
                    log << what << ";";
                    a.m.clear();
                    a.con->clear(); // Leaves moved-from container usable
                    check(a);
                    check(s);
                    a = std::move(s);
                    return;
                }
                case 1: {
                    what = "move-assign";
                    *a.con = std::move(*b.con);
                    log << what << ";";
                    a.m = b.m;
                    b.m.clear();
                    b.con->clear();
                    check(a);
                    check(b);
                    return;
                }
                case 2:
                    if constexpr (!vec) {
                        what = "swap";
                        log << what << ";";
                        a.con->swap(*b.con);
                        std::swap(a.m, b.m);
                        check(a);
                        check(b);
                    }
                    return;
                case 3:
                    if constexpr (!vec && Tr::copyable) {
                        bool ok = true;
                        log << what << ";";
                        if (c.rng.chance(1, 2)) {
                            what = "copy-construct";
                            if (Tr::tracked && c.rng.chance(1, 3))
                                reg().countdown = long(c.rng.below(a.m.size() + 1));
                            Slot s;
                            ok = attempt([&] { s.con = std::make_unique<C>(*a.con); });
                            require_ok("op");
                            if (ok) {
                                s.m = a.m;
                                check(s);
                            }
                            check(a);
                        }
                        else {
                            what = "copy-assign";
                            Slot& src = (c.rng.chance(1, 8) ? a : b); // Sometimes self-assignment
                            if (Tr::tracked && &src != &a && c.rng.chance(1, 3))
                                reg().countdown = long(c.rng.below(b.m.size() + 1));
                            ok = attempt([&] { *a.con = *src.con; });
                            require_ok("op");
                            a.m = ok ? src.m : Model{};
                            check(a);
                            check(src);
                        }
                    }
                    return;
                case 4: {
                    what = "compare";
                    bool eq = a.m == b.m, less = a.m < b.m;
                    if (c.rng.chance(1, 2) && Tr::copyable) {
                        // Make them nearly equal
                        if constexpr (Tr::copyable) {
                            b.con->assign(a.con->begin(), a.con->end());
                            b.m = a.m;
                            if (!b.m.empty() && c.rng.chance(1, 2)) {
                                b.con->pop_back();
                                b.m.pop_back();
                            }
                            if (c.rng.chance(1, 2)) {
                                b.con->push_back(Tr::make(5));
                                b.m.push_back(5);
                            }
                            eq = a.m == b.m;
                            less = a.m < b.m;
                        }
                    }
                    if constexpr (!std::is_same_v<T, std::string>) { // String order differs from that of the model
                        const C& x = *a.con;
                        const C& y = *b.con;
                        bool greater = b.m < a.m;
                        VF_EQ(x == y, eq, "compare", what);
                        VF_EQ(x != y, !eq, "compare", what);
                        VF_EQ(x < y, less, "compare", what);
                        VF_EQ(x <= y, less || eq, "compare", what);
                        VF_EQ(x > y, greater, "compare", what);
                        VF_EQ(x >= y, greater || eq, "compare", what);
                    }
                    check(a);
                    check(b);
                    return;
                }
            }
        }
    }

    void run()
    {
        reg().reset();
        {
            Slot slots[2] = { make(), make() };
            std::size_t steps = 20 + c.rng.below(60);
            for (std::size_t i = 0; i < steps; ++i) {
                Slot& s = slots[c.rng.below(2)];
                if (c.rng.chance(1, 10))
                    pair_step(s, &s == &slots[0] ? slots[1] : slots[0]);
                else
                    step(s);
                c.event("operations");
            }
            what = "destruction";
        }
        require_ok("end");
        if (!reg().live.empty())
            vf::fail("lifetime", std::to_string(reg().live.size()) + " elements never destroyed; history: " + log.str());
        c.event("elements_tracked", reg().created);
        VF_EQ(reg().created, reg().destroyed, "lifetime", log.str());
        c.nontrivial(vf::Hash().add(log.str()).get());
        c.sample([&] { return log.str(); });
    }
};

template<class C> void run(vf::Case& c)
{
    Driver<C> d(c);
    d.run();
}

using EN = lt::Elem<lt::normal>;
using EC = lt::Elem<lt::copy_only>;
using EM = lt::Elem<lt::move_only>;
using ET = lt::Elem<lt::throwing_move>;

// Small element counts per byte of static memory, mixed alignment
struct Wide { alignas(32) int v = 0; Wide() = default; Wide(int x) : v(x) {} bool operator==(const Wide& o) const { return v == o.v; } bool operator<(const Wide& o) const { return v < o.v; } };

} // unnamed namespace

template<> struct lt::Traits<Wide> {
    static constexpr bool copyable = true, nt_move = true, tracked = false;
    static Wide make(int v) { return v; }
    static int get(const Wide& v) { return v.v; }
};
