// C02: flat maps and sets against the standard ordered containers
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multiset.hpp>
#include <elem.hpp>

using namespace archon;
using lt::reg;

namespace {

// Key whose order ignores the identity, with monitored lifetime and only operator<
struct Key {
    int k = 0, id = 0;
    std::unique_ptr<int> guard; // Something for the address sanitizer to watch
    Key(int k, int id) : k(k), id(id), guard(std::make_unique<int>(k)) { reg().birth(this, k); }
    Key(const Key& o) noexcept : k(o.get()), id(o.id), guard(std::make_unique<int>(k)) { reg().birth(this, k); }
    ~Key() noexcept { reg().death(this); }
    Key& operator=(const Key&) = delete;
    int get() const { reg().touch(this); return *guard; }
    friend bool operator<(const Key& a, const Key& b) noexcept { return a.get() < b.get(); }
};

template<class K> struct KT;
template<> struct KT<int> {
    static int make(int k, int) { return k; }
    static int key(int k) { return k; }
    static int id(int) { return 0; }
};
template<> struct KT<Key> {
    static Key make(int k, int id) { return Key(k, id); }
    static int key(const Key& k) { return k.get(); }
    static int id(const Key& k) { return k.id; }
};

using Val = lt::Elem<lt::normal>;
using MVal = lt::Elem<lt::move_only>;
template<class V> struct VT {
    static V make(int v) { return V(v); }
    static int get(const V& v) { return v.get(); }
};
template<> struct VT<int> {
    static int make(int v) { return v; }
    static int get(int v) { return v; }
};
template<> struct VT<std::string> {
    static std::string make(int v) { return (v % 2 ? "" : "a string longer than the small buffer ") + std::to_string(v); }
    static int get(const std::string& s) { return s.empty() ? 0 : std::stoi(s.substr(s.find_first_of("0123456789"))); }
};

struct Entry {
    int k, id, v;
    friend bool operator==(const Entry&, const Entry&) = default;
    friend std::ostream& operator<<(std::ostream& o, const Entry& e) { return o << e.k << "." << e.id << "=" << e.v; }
};

enum What { map, multimap, set, multiset };

template<What W, class C, class K, class V> class Driver {
public:
    static constexpr bool is_map = (W == map || W == multimap);
    static constexpr bool multi = (W == multimap || W == multiset);
    vf::Case& c;
    std::ostringstream log;
    C con;
    std::vector<Entry> m; // Model: sorted by key, equivalent keys in insertion order
    int counter = 1;

    Driver(vf::Case& c) : c(c) {}

    static Entry entry(const typename C::value_type& e)
    {
        if constexpr (is_map)
            return { KT<K>::key(e.first), KT<K>::id(e.first), VT<V>::get(e.second) };
        else
            return { KT<K>::key(e), KT<K>::id(e), 0 };
    }

    std::size_t lower(int k) const
    {
        std::size_t i = 0;
        while (i < m.size() && m[i].k < k)
            ++i;
        return i;
    }
    std::size_t upper(int k) const
    {
        std::size_t i = 0;
        while (i < m.size() && m[i].k <= k)
            ++i;
        return i;
    }

    void check(const char* what)
    {
        const C& cc = con;
        VF_EQ(cc.size(), m.size(), "size", what << " " << log.str());
        VF_EQ(cc.empty(), m.empty(), "empty", what);
        VF_REQUIRE(cc.capacity() >= m.size() && cc.max_size() > 1000000, "capacity", what);
        std::vector<Entry> got;
        for (const auto& e : cc)
            got.push_back(entry(e));
        VF_EQ(got, m, "content", what << " " << log.str());
        if (c.rng.chance(1, 3)) {
            std::vector<Entry> rev;
            for (auto i = cc.rbegin(); i != cc.rend(); ++i)
                rev.push_back(entry(*i));
            VF_EQ(rev, std::vector<Entry>(m.rbegin(), m.rend()), "reverse", what);
            VF_REQUIRE(std::size_t(cc.cend() - cc.cbegin()) == m.size() && cc.crend() - cc.crbegin() == std::ptrdiff_t(m.size()), "iterators", what);
        }
        // Lookups
        for (int n = 0; n < 3; ++n) {
            int k = int(c.rng.range(-2, 32));
            K key = KT<K>::make(k, -1);
            std::size_t lo = lower(k), hi = upper(k);
            auto b = cc.begin();
            VF_EQ(std::size_t(cc.lower_bound(key) - b), lo, "lower_bound", k << " " << log.str());
            VF_EQ(std::size_t(cc.upper_bound(key) - b), hi, "upper_bound", k << " " << log.str());
            auto r = cc.equal_range(key);
            VF_EQ(std::size_t(r.first - b), lo, "equal_range", k << " " << log.str());
            VF_EQ(std::size_t(r.second - b), hi, "equal_range", k << " " << log.str());
            auto r2 = con.equal_range(key);
            VF_REQUIRE(r2.first - con.begin() == std::ptrdiff_t(lo) && r2.second - con.begin() == std::ptrdiff_t(hi), "equal_range", k);
            VF_REQUIRE(con.lower_bound(key) - con.begin() == std::ptrdiff_t(lo), "lower_bound", k);
            VF_REQUIRE(con.upper_bound(key) - con.begin() == std::ptrdiff_t(hi), "upper_bound", k);
            VF_EQ(cc.contains(key), lo < hi, "contains", k << " " << log.str());
            VF_EQ(cc.count(key), hi - lo, "count", k << " " << log.str());
            auto i = cc.find(key);
            auto i2 = con.find(key);
            VF_EQ(i2 - con.begin(), i - b, "find", k);
            if (lo == hi)
                VF_REQUIRE(i == cc.end(), "find", k << " " << log.str());
            else
                VF_REQUIRE(i != cc.end() && std::size_t(i - b) >= lo && std::size_t(i - b) < hi, "find", k << " " << log.str());
            if constexpr (W == map) {
                bool thrown = false;
                try {
                    VF_EQ(VT<V>::get(cc.at(key)), m[lo < hi ? lo : 0].v, "at", k);
                    VF_EQ(VT<V>::get(con.at(key)), m[lo < hi ? lo : 0].v, "at", k);
                }
                catch (const std::out_of_range&) { thrown = true; }
                VF_EQ(thrown, lo == hi, "at", k << " " << log.str());
            }
        }
        if (!reg().error.empty())
            vf::fail("lifetime", reg().error + " " + what + " " + log.str());
    }

    // Returns position and whether it is inserted
    std::pair<std::size_t, bool> model_insert(Entry e)
    {
        std::size_t lo = lower(e.k), hi = upper(e.k);
        if (!multi && lo < hi)
            return { lo, false };
        m.insert(m.begin() + std::ptrdiff_t(hi), e);
        return { hi, true };
    }

    template<class R> void check_result(const R& r, std::pair<std::size_t, bool> e, const char* what)
    {
        if constexpr (multi) {
            VF_EQ(std::size_t(r - con.begin()), e.first, "result", what << " " << log.str());
        }
        else {
            VF_EQ(std::size_t(r.first - con.begin()), e.first, "result", what << " " << log.str());
            VF_EQ(r.second, e.second, "result", what << " " << log.str());
        }
    }

    void step()
    {
        Entry e { int(c.rng.below(30)), 0, is_map ? int(c.rng.below(100)) : 0 };
        if (std::is_same_v<K, Key>)
            e.id = counter++;
        switch (c.rng.below(12)) {
            case 0: case 1: {
                log << "insert " << e << ";";
                if constexpr (is_map) {
                    if constexpr (std::is_copy_constructible_v<V>) {
                        typename C::value_type t { KT<K>::make(e.k, e.id), VT<V>::make(e.v) };
                        auto r = con.insert(static_cast<const typename C::value_type&>(t));
                        check_result(r, model_insert(e), "insert(const&)");
                        VF_EQ(entry(t), e, "argument", "insert(const&)");
                    }
                }
                else {
                    K t = KT<K>::make(e.k, e.id);
                    auto r = con.insert(static_cast<const K&>(t));
                    check_result(r, model_insert(e), "insert(const&)");
                }
                break;
            }
            case 2: {
                log << "insert&& " << e << ";";
                if constexpr (is_map) {
                    typename C::value_type t { KT<K>::make(e.k, e.id), VT<V>::make(e.v) };
                    auto r = con.insert(std::move(t));
                    check_result(r, model_insert(e), "insert(&&)");
                }
                else {
                    auto r = con.insert(KT<K>::make(e.k, e.id));
                    check_result(r, model_insert(e), "insert(&&)");
                }
                break;
            }
            case 3: case 4: {
                log << "emplace " << e << ";";
                bool boom = false;
                if constexpr (is_map) {
                    if constexpr (std::is_same_v<V, Val> || std::is_same_v<V, MVal>) {
                        if (c.rng.chance(1, 3))
                            reg().countdown = 0;
                        try {
                            auto r = con.emplace(KT<K>::make(e.k, e.id), e.v);
                            reg().countdown = -1;
                            check_result(r, model_insert(e), "emplace");
                        }
                        catch (const lt::Boom&) {
                            boom = true;
                            c.event("injected_exception");
                        }
                        reg().countdown = -1;
                    }
                    else {
                        auto r = con.emplace(KT<K>::make(e.k, e.id), VT<V>::make(e.v));
                        check_result(r, model_insert(e), "emplace");
                    }
                }
                else if constexpr (std::is_same_v<K, Key>) {
                    auto r = con.emplace(e.k, e.id);
                    check_result(r, model_insert(e), "emplace");
                }
                else {
                    auto r = con.emplace(e.k);
                    check_result(r, model_insert(e), "emplace");
                }
                if (boom)
                    log << "!;";
                break;
            }
            case 5: {
                std::size_t n = c.rng.size(6);
                log << "insert range ";
                if constexpr (!is_map || std::is_copy_constructible_v<V>) {
                    std::vector<typename C::value_type> t;
                    t.reserve(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        Entry f { int(c.rng.below(30)), std::is_same_v<K, Key> ? counter++ : 0, is_map ? int(c.rng.below(100)) : 0 };
                        log << f << ",";
                        if constexpr (is_map)
                            t.emplace_back(KT<K>::make(f.k, f.id), VT<V>::make(f.v));
                        else
                            t.push_back(KT<K>::make(f.k, f.id));
                        model_insert(f);
                    }
                    con.insert(t.begin(), t.end());
                }
                log << ";";
                break;
            }
            case 6: case 7: {
                int k = e.k;
                if (!m.empty() && c.rng.chance(1, 2))
                    k = m[c.rng.below(m.size())].k;
                log << "erase " << k << ";";
                std::size_t lo = lower(k), hi = upper(k);
                std::size_t n = con.erase(KT<K>::make(k, -1));
                VF_EQ(n, hi - lo, "erase_result", log.str());
                m.erase(m.begin() + std::ptrdiff_t(lo), m.begin() + std::ptrdiff_t(hi));
                break;
            }
            case 8: {
                if (!c.rng.chance(1, 6))
                    return;
                log << "clear;";
                con.clear();
                m.clear();
                break;
            }
            case 9: {
                if (c.rng.chance(1, 2)) {
                    std::size_t cap = con.capacity();
                    std::size_t k = c.rng.size(20);
                    log << "reserve " << k << ";";
                    bool extra = c.rng.chance(1, 2);
                    if (extra)
                        con.reserve_extra(k);
                    else
                        con.reserve(k);
                    VF_REQUIRE(con.capacity() >= (extra ? m.size() + k : k) && con.capacity() >= cap, "reserve", log.str());
                }
                else {
                    log << "shrink;";
                    con.shrink_to_fit();
                }
                break;
            }
            case 10: {
                if constexpr (W == map && std::is_default_constructible_v<V>) {
                    log << "[]= " << e << ";";
                    K key = KT<K>::make(e.k, e.id);
                    bool had = lower(e.k) < upper(e.k);
                    auto& ref = con[key];
                    if (!had)
                        VF_EQ(VT<V>::get(ref), 0, "subscript_value_initialized", log.str());
                    ref = VT<V>::make(e.v);
                    Entry f = e;
                    auto r = model_insert(f);
                    m[r.first].v = e.v;
                }
                break;
            }
            case 11: {
                if constexpr (is_map) {
                    // Write through mutable iterator
                    if (m.empty())
                        return;
                    std::size_t i = c.rng.below(m.size());
                    log << "write@" << i << ";";
                    (con.begin() + std::ptrdiff_t(i))->second = VT<V>::make(e.v);
                    m[i].v = e.v;
                }
                break;
            }
        }
        check("step");
        c.event("operations");
    }

    static void run(vf::Case& c)
    {
        reg().reset();
        std::string l;
        {
            Driver d(c);
            d.check("init");
            std::size_t n = 10 + c.rng.below(50);
            for (std::size_t i = 0; i < n; ++i)
                d.step();
            l = d.log.str();
        }
        if (!reg().error.empty())
            vf::fail("lifetime", reg().error + " at end " + l);
        if (!reg().live.empty())
            vf::fail("lifetime", "objects never destroyed " + l);
        c.nontrivial(vf::Hash().add(l).get());
        c.sample([&] { return l; });
        c.event("objects_tracked", reg().created);
    }
};

void initializer_lists(vf::Case&)
{
    core::FlatMap<int, int> a = { { 3, 1 }, { 1, 2 }, { 3, 3 }, { 2, 4 } };
    VF_REQUIRE(a.size() == 3 && a.at(1) == 2 && a.at(2) == 4 && a.at(3) == 1, "initializer_list", "map");
    core::FlatMultimap<int, int, 2> b = { { 3, 1 }, { 1, 2 }, { 3, 3 }, { 2, 4 } };
    VF_REQUIRE(b.size() == 4 && b.begin()[2].second == 1 && b.begin()[3].second == 3, "initializer_list", "multimap");
    core::FlatSet<int> s = { 3, 1, 3, 2 };
    VF_REQUIRE(s.size() == 3 && s.begin()[0] == 1 && s.begin()[2] == 3, "initializer_list", "set");
    core::FlatMultiset<int, 9> t = { 3, 1, 3, 2 };
    VF_REQUIRE(t.size() == 4 && t.begin()[2] == 3 && t.count(3) == 2, "initializer_list", "multiset");
}

} // unnamed namespace

VF_MONITOR(flat_map, 3000, 150000)
{
    initializer_lists(c);
    switch (c.index % 5) {
        case 0: Driver<map, core::FlatMap<int, int>, int, int>::run(c); break;
        case 1: Driver<map, core::FlatMap<Key, std::string, 4>, Key, std::string>::run(c); break;
        case 2: Driver<map, core::FlatMap<Key, Val>, Key, Val>::run(c); break;
        case 3: Driver<map, core::FlatMap<Key, MVal, 6>, Key, MVal>::run(c); break;
        case 4: Driver<map, core::FlatMap<int, MVal, 6>, int, MVal>::run(c); break;
    }
}

VF_MONITOR(flat_multimap, 2000, 100000)
{
    switch (c.index % 3) {
        case 0: Driver<multimap, core::FlatMultimap<int, int, 3>, int, int>::run(c); break;
        case 1: Driver<multimap, core::FlatMultimap<Key, std::string>, Key, std::string>::run(c); break;
        case 2: Driver<multimap, core::FlatMultimap<Key, MVal, 4>, Key, MVal>::run(c); break;
    }
}

VF_MONITOR(flat_set, 2000, 100000)
{
    switch (c.index % 2) {
        case 0: Driver<set, core::FlatSet<int, 5>, int, int>::run(c); break;
        case 1: Driver<set, core::FlatSet<Key>, Key, int>::run(c); break;
    }
}

VF_MONITOR(flat_multiset, 2000, 100000)
{
    switch (c.index % 2) {
        case 0: Driver<multiset, core::FlatMultiset<int>, int, int>::run(c); break;
        case 1: Driver<multiset, core::FlatMultiset<Key, 7>, Key, int>::run(c); break;
    }
}
