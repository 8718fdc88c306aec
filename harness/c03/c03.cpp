// C03: range maps, frozen sets, literal hash maps, object registries
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <archon/core/range_map.hpp>
#include <archon/core/frozen_sets.hpp>
#include <archon/core/literal_hash_map.hpp>
#include <archon/core/typed_object_registry.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

// The value records the history of updates that touched the key
using Hist = std::vector<int>;

template<class K> void range_map(vf::Case& c)
{
    core::RangeMap<K, Hist> map;
    std::map<K, Hist> model; // Per key
    std::ostringstream log;
    bool ends = c.rng.chance(1, 3);
    // Window of keys, sometimes at an end of the range of the key type
    using lim = std::numeric_limits<K>;
    int width = 24;
    auto key = [&](int i) -> K {
        if (!ends)
            return K(20 + i);
        if (c.index % 2)
            return K(lim::max() - (width - 1) + i);
        return K(lim::min() + i);
    };
    std::size_t n = 1 + c.rng.below(24);
    int counter = 0;
    for (std::size_t i = 0; i < n; ++i) {
        int a = int(c.rng.below(unsigned(width))), b = a + int(c.rng.below(unsigned(width - a)));
        if (c.rng.chance(1, 4))
            b = a;
        ++counter;
        switch (c.rng.below(5)) {
            case 0:
                log << "assign " << a << ".." << b << ";";
                map.assign({ key(a), key(b) }, Hist { counter });
                for (int k = a; k <= b; ++k)
                    model[key(k)] = Hist { counter };
                break;
            case 1:
                log << "assign1 " << a << ";";
                map.assign(key(a), Hist { counter % 3 });
                model[key(a)] = Hist { counter % 3 };
                break;
            case 2:
                log << "defrag;";
                if (c.rng.chance(1, 2)) {
                    map.defrag();
                    // Adjacent ranges with equal values must have been merged
                    bool first = true;
                    K last = {};
                    Hist v;
                    for (const auto& e : map) {
                        auto r = e.range();
                        if (!first && last < r.first && K(last + 1) == r.first)
                            VF_REQUIRE(!(v == e.value()), "defrag", log.str());
                        first = false;
                        last = r.last;
                        v = e.value();
                    }
                }
                else {
                    map.defrag([](const Hist& x, const Hist& y) { return x == y; });
                }
                c.event("defrag");
                break;
            case 3:
                log << "update1 " << a << ";";
                map.update(key(a), [&](Hist& h) { h.push_back(counter); });
                model[key(a)].push_back(counter);
                break;
            default:
                log << "update " << a << ".." << b << ";";
                map.update({ key(a), key(b) }, [&](Hist& h) { h.push_back(counter); });
                for (int k = a; k <= b; ++k)
                    model[key(k)].push_back(counter);
                break;
        }
        // Oracle
        std::map<K, Hist> got;
        bool first = true;
        K last = {};
        std::size_t ranges = 0;
        for (const auto& e : map) {
            auto r = e.range();
            VF_REQUIRE(r.first <= r.last, "empty_range", log.str());
            VF_REQUIRE(first || last < r.first, "overlap", log.str());
            first = false;
            last = r.last;
            ++ranges;
            VF_REQUIRE(std::size_t(r.last - r.first) < std::size_t(width), "content", log.str());
            for (K k = r.first;; ++k) {
                got[k] = e.value();
                if (k == r.last)
                    break;
            }
        }
        VF_REQUIRE(got == model, "content", log.str());
        c.event("ranges", ranges);
    }
    c.nontrivial(vf::Hash().add(log.str()).add(sizeof(K)).get());
    c.sample([&] { return log.str(); });
}

struct ModLess { // Stateful order, with non-trivial equivalence
    int mod = 0;
    bool operator()(int a, int b) const { return mod ? a % mod < b % mod : a < b; }
};

template<class C> void frozen_sets(vf::Case& c, C cmp)
{
    core::FrozenSets<int, C> sets(cmp);
    using Ident = typename core::FrozenSets<int, C>::Ident;
    using Set = std::set<int, C>;
    struct Item { Ident id; Set set; };
    std::vector<Item> items; // In order of creation
    std::ostringstream log;
    items.push_back({ Ident(), Set(cmp) });
    std::size_t n = 1 + c.rng.below(30);
    auto random_vec = [&] {
        std::vector<int> v(c.rng.size(8));
        for (int& x : v)
            x = int(c.rng.below(12));
        return v;
    };
    for (std::size_t s = 0; s < n; ++s) {
        const Item& a = c.rng.pick(items);
        Item b { a.id, a.set };
        std::vector<int> v = random_vec();
        Set vs(v.begin(), v.end(), cmp);
        Item r { Ident(), Set(cmp) };
        unsigned op = unsigned(c.rng.below(12));
        log << op << ":";
        for (int x : v)
            log << x << ",";
        switch (op) {
            case 0: {
                int x = v.empty() ? 1 : v[0];
                r.id = sets.freeze(x);
                r.set.insert(x);
                break;
            }
            case 1:
                r.id = sets.freeze_unordered(v.begin(), v.end());
                r.set = vs;
                break;
            case 2:
                r.id = sets.freeze_unordered(core::Span<const int>(v));
                r.set = vs;
                break;
            case 3:
                r.id = sets.freeze_ordered(vs.begin(), vs.end());
                r.set = vs;
                break;
            case 4:
                r.id = sets.freeze(vs);
                r.set = vs;
                break;
            case 5: case 6: {
                const Item& d = c.rng.pick(items);
                log << "|" << &a - items.data() << "+" << &d - items.data();
                r.set = a.set;
                r.set.insert(d.set.begin(), d.set.end());
                r.id = sets.unite(a.id, d.id);
                c.event("unite");
                break;
            }
            case 7: {
                int x = v.empty() ? 1 : v[0];
                r.id = sets.unite(b.id, x);
                r.set = b.set;
                r.set.insert(x);
                break;
            }
            case 8:
                r.id = sets.unite_unordered(b.id, v.begin(), v.end());
                r.set = b.set;
                r.set.insert(vs.begin(), vs.end());
                break;
            case 9:
                r.id = sets.unite_ordered(b.id, vs.begin(), vs.end());
                r.set = b.set;
                r.set.insert(vs.begin(), vs.end());
                break;
            case 10:
                r.id = sets.unite(b.id, vs);
                r.set = b.set;
                r.set.insert(vs.begin(), vs.end());
                break;
            case 11: {
                if (!c.rng.chance(1, 4))
                    continue;
                if (c.rng.chance(1, 3)) {
                    sets.clear();
                    items.resize(1);
                }
                else {
                    // Discard a freshly created set and whatever came later
                    r.id = sets.freeze_ordered(vs.begin(), vs.end());
                    sets.freeze_unordered(v.begin(), v.end());
                    sets.discard_from(r.id);
                }
                log << ";";
                continue;
            }
        }
        log << ";";
        items.push_back(r);
        for (const Item& i : items) {
            auto span = sets[i.id];
            std::vector<int> got(span.begin(), span.end()), want(i.set.begin(), i.set.end());
            bool same = got.size() == want.size();
            for (std::size_t j = 0; same && j < got.size(); ++j)
                same = !cmp(got[j], want[j]) && !cmp(want[j], got[j]);
            VF_REQUIRE(same, "content", "set #" << (&i - items.data()) << " got " << vf::show(got) << " want " << vf::show(want) << " history " << log.str());
            VF_EQ(i.id.size(), want.size(), "size", log.str());
            VF_EQ(i.id.empty(), want.empty(), "empty", log.str());
        }
    }
    c.nontrivial(vf::Hash().add(log.str()).get());
    c.sample([&] { return log.str(); });
}

struct BadHash { // Many collisions
    unsigned mod = 3;
    constexpr auto operator()(int k) const noexcept -> std::size_t { return std::size_t(unsigned(k) % mod); }
};

template<std::size_t N, std::size_t M> void literal_hash_map(vf::Case& c)
{
    std::pair<int, int> assocs[N];
    std::pair<int, int> rev[N];
    std::map<int, int> model;
    for (std::size_t i = 0; i < N; ++i) {
        int k;
        do {
            k = c.rng.chance(1, 2) ? int(c.rng.range(-40, 40)) : int(c.rng.next());
        } while (model.count(k));
        int v = int(c.rng.next() % 1000);
        model[k] = v;
        assocs[i] = { k, v };
        rev[i] = { v, k };
    }
    auto probe = [&](const auto& map, const char* what) {
        for (const auto& p : model) {
            int v = -1;
            VF_REQUIRE(map.find(p.first, v), "missing", what << " " << p.first);
            VF_EQ(v, p.second, "value", what << " " << p.first);
        }
        for (int i = 0; i < 40; ++i) {
            int k = c.rng.chance(1, 2) ? int(c.rng.range(-60, 60)) : int(c.rng.next());
            if (model.count(k))
                continue;
            int v = -77;
            VF_REQUIRE(!map.find(k, v), "phantom", what << " " << k);
            VF_EQ(v, -77, "modified", what << " " << k);
        }
    };
    probe(core::make_literal_hash_map<M>(assocs), "map");
    probe(core::make_rev_literal_hash_map<M>(rev), "rev map");
    probe(core::make_literal_hash_map<M>(assocs, BadHash { unsigned(1 + c.rng.below(9)) }), "map bad hash");
    probe(core::make_rev_literal_hash_map<M>(rev, BadHash { unsigned(1 + c.rng.below(9)) }), "rev map bad hash");
    c.nontrivial(vf::mix64(c.index));
    c.event("lookups", 4 * (N + 40));
    c.sample([&] {
        std::ostringstream o;
        for (auto& p : model)
            o << p.first << "->" << p.second << " ";
        return o.str();
    });
}

template<int I> struct Obj : std::conditional_t<(I % 2), std::integral_constant<int, I>, std::enable_if<true>> { int v = I; };
struct Base { int b = 0; virtual ~Base() = default; };
template<int I> struct Derived : Base { int v = I; };
struct Second { int pad = 0; };
template<int I> struct Multi : Second, Base { int v = I; };

template<class R, template<int> class T, int... I> void registry(vf::Case& c, std::integer_sequence<int, I...>)
{
    R r;
    std::ostringstream log;
    std::vector<void*> model(sizeof...(I), nullptr); // Registered object per type
    auto objs1 = std::make_unique<std::tuple<T<I>...>>();
    auto objs2 = std::make_unique<std::tuple<T<I>...>>();
    std::size_t n = 1 + c.rng.below(3 * sizeof...(I));
    for (std::size_t s = 0; s < n; ++s) {
        std::size_t which = c.rng.below(sizeof...(I));
        bool second = c.rng.chance(1, 2);
        log << which << (second ? "b" : "a") << ";";
        ((std::size_t(I) == which ? (void)(r.register_(std::get<I>(second ? *objs2 : *objs1)), model[I] = &std::get<I>(second ? *objs2 : *objs1)) : void()), ...);
        (([&] {
            auto* p = r.template get<T<I>>();
            VF_REQUIRE(static_cast<void*>(p) == model[I], "registry", "type " << I << " " << log.str());
            auto* q = r.template get<const T<I>>();
            VF_REQUIRE(q == p, "registry", "const type " << I << " " << log.str());
            if (p)
                VF_EQ(p->v, I, "registry", log.str());
        }()), ...);
    }
    c.nontrivial(vf::Hash().add(log.str()).get());
    c.sample([&] { return log.str(); });
}

} // unnamed namespace

VF_MONITOR(range_map, 12000, 400000)
{
    switch (c.index / 2 % 5) {
        case 0: range_map<int>(c); break;
        case 1: range_map<signed char>(c); break;
        case 2: range_map<unsigned char>(c); break;
        case 3: range_map<long long>(c); break;
        case 4: range_map<unsigned>(c); break;
    }
}

VF_MONITOR(frozen_sets, 8000, 300000)
{
    switch (c.index % 4) {
        case 0: case 1: frozen_sets(c, std::less<int>()); break;
        case 2: frozen_sets(c, std::greater<int>()); break;
        case 3: frozen_sets(c, ModLess { int(c.rng.below(2)) * 5 }); break;
    }
}

VF_MONITOR(literal_hash_map, 1500, 40000)
{
    switch (c.index % 7) {
        case 0: literal_hash_map<1, 0>(c); break;
        case 1: literal_hash_map<2, 7>(c); break;
        case 2: literal_hash_map<8, 0>(c); break;
        case 3: literal_hash_map<13, 5>(c); break;
        case 4: literal_hash_map<40, 0>(c); break;
        case 5: literal_hash_map<21, 64>(c); break;
        case 6: literal_hash_map<16, 1>(c); break;
    }
}

VF_MONITOR(registry, 1500, 40000)
{
    switch (c.index % 4) {
        case 0: registry<core::TypedObjectRegistry<void>, Obj>(c, std::make_integer_sequence<int, 12>()); break;
        case 1: registry<core::TypedObjectRegistry<void, 5>, Obj>(c, std::make_integer_sequence<int, 9>()); break;
        case 2: registry<core::TypedObjectRegistry<Base>, Derived>(c, std::make_integer_sequence<int, 7>()); break;
        case 3: registry<core::TypedObjectRegistry<Base, 3>, Multi>(c, std::make_integer_sequence<int, 7>()); break;
    }
}
