// Hashing, histograms, inexact comparison, pairs, generic utilities, timers

#include <array>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <compare>
#include <cstdint>
#include <cstring>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#include <archon/core/hash_fnv.hpp>
#include <archon/core/histogram.hpp>
#include <archon/core/inexact_compare.hpp>
#include <archon/core/pair.hpp>
#include <archon/core/timer.hpp>
#include <archon/core/typed_object_registry.hpp>
#include <archon/core/utility.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

struct RefFnv {
    std::uint32_t h = 0x811c9dc5u;
    void octet(std::uint8_t o)
    {
        h ^= o;
        h *= 0x01000193u;
    }
};

template<class T> void hash_int(vf::Case& c, core::Hash_FNV_1a_32& hash, RefFnv& ref, std::string& desc)
{
    T v;
    switch (c.rng.below(4)) {
        case 0:
            v = std::numeric_limits<T>::min();
            break;
        case 1:
            v = std::numeric_limits<T>::max();
            break;
        case 2:
            v = T(-std::int64_t(c.rng.below(200)));
            break;
        default:
            v = T(c.rng.next());
            break;
    }
    if (c.rng.chance(1, 3) && std::endian::native == std::endian::little)
        hash.add_obj(v);
    else
        hash.add_int(v);
    if constexpr (std::is_same_v<T, bool>) {
        ref.octet(std::uint8_t(v));
    }
    else {
        for (std::size_t i = 0; i < sizeof (T); ++i)
            ref.octet(std::uint8_t(std::uint64_t(std::int64_t(v)) >> (8 * i)));
        if (v < T(0))
            c.event("negative", 1);
    }
    desc += std::to_string(sizeof (T)) + ":" + std::to_string(v) + " ";
}

std::uint32_t hash_text(std::string_view s)
{
    core::Hash_FNV_1a_32 h;
    for (char ch : s)
        h.add_byte(std::byte(ch));
    return std::uint32_t(h.get());
}

} // unnamed namespace

VF_MONITOR(hash_fnv, 3000, 300000)
{
    if (c.index == 0) { // Published test vectors
        VF_EQ(hash_text(""), 0x811c9dc5u, "vector", "");
        VF_EQ(hash_text("a"), 0xe40c292cu, "vector", "");
        VF_EQ(hash_text("foobar"), 0xbf9cf968u, "vector", "");
        VF_EQ(hash_text("chongo was here!\n"), 0xd49930d5u, "vector", "");
    }
    core::Hash_FNV_1a_32 hash;
    RefFnv ref;
    std::string desc;
    for (std::size_t k = c.rng.below(12); k > 0; --k) {
        switch (c.rng.below(13)) {
            case 0:
                hash_int<char>(c, hash, ref, desc);
                break;
            case 1:
                hash_int<signed char>(c, hash, ref, desc);
                break;
            case 2:
                hash_int<unsigned char>(c, hash, ref, desc);
                break;
            case 3:
                hash_int<short>(c, hash, ref, desc);
                break;
            case 4:
                hash_int<unsigned short>(c, hash, ref, desc);
                break;
            case 5:
                hash_int<int>(c, hash, ref, desc);
                break;
            case 6:
                hash_int<unsigned>(c, hash, ref, desc);
                break;
            case 7:
                hash_int<long>(c, hash, ref, desc);
                break;
            case 8:
                hash_int<unsigned long>(c, hash, ref, desc);
                break;
            case 9:
                hash_int<wchar_t>(c, hash, ref, desc);
                break;
            case 10:
                hash_int<bool>(c, hash, ref, desc);
                break;
            case 11: {
                auto b = std::uint8_t(c.rng.next());
                hash.add_byte(std::byte(b));
                ref.octet(b);
                break;
            }
            case 12: {
                std::array<unsigned char, 5> a;
                for (auto& e : a)
                    ref.octet(e = static_cast<unsigned char>(c.rng.next()));
                hash.add_obj(a);
                break;
            }
        }
    }
    VF_EQ(std::uint64_t(hash.get()), std::uint64_t(ref.h), "hash", desc);
    c.nontrivial(vf::Hash().add(ref.h).get());
}

namespace {

template<class T> void histogram(vf::Case& c)
{
    // The bin width is a power of two and limits are multiples of it, so the right bin is well defined
    int e = int(c.rng.below(9)) - 4;
    T w = std::ldexp(T(1), e);
    std::size_t n = 1 + c.rng.below(12);
    std::size_t np = 1;
    while (np < n)
        np *= 2;
    n = np; // With a power of two, the scale (number of bins over extent) is exact
    T from = T(int(c.rng.below(41)) - 20) * w;
    T to = from + T(n) * w;
    core::Histogram<T> hist(from, to, n);
    std::vector<long long> bins(n);
    long long under = 0, over = 0, odd = 0;
    std::size_t k = c.rng.below(4) ? c.rng.below(120) : 0;
    for (; k > 0; --k) {
        T v;
        switch (c.rng.below(10)) {
            case 0:
                v = c.rng.pick({ T(1e18), T(1.7e19), T(1.9e19), T(3e38), std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity() });
                c.event("huge", 1);
                break;
            case 1:
                v = -c.rng.pick({ T(1e18), T(1.9e19), std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity() });
                c.event("huge", 1);
                break;
            case 2:
                v = from + T(c.rng.below(n + 1)) * w; // Exact boundary
                break;
            case 3:
                v = from - w * T(c.rng.unit());
                break;
            case 4:
                v = to + w * T(c.rng.unit());
                break;
            default:
                v = from + (to - from) * T(c.rng.unit());
                break;
        }
        hist.add(v);
        if (v < from) {
            ++under;
        }
        else if (v >= to) {
            ++over;
        }
        else {
            auto i = std::size_t(std::floor((v - from) / w));
            ++bins[std::min(i, n - 1)];
        }
    }
    static_cast<void>(odd);
    if (c.rng.chance(1, 30)) { // Not a number: must do no harm, is not counted in any bin proper
        hist.add(std::numeric_limits<T>::quiet_NaN());
        return;
    }
    bool inc = c.rng.chance(1, 2);
    int width = int(c.rng.below(140));
    std::ostringstream out;
    out.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    out.imbue(std::locale::classic());
    hist.print(out, width, inc);
    std::istringstream in(out.str());
    std::vector<std::string> lines;
    for (std::string line; std::getline(in, line);)
        lines.push_back(line);
    std::vector<long long> want = bins;
    if (inc) {
        want.insert(want.begin(), under);
        want.push_back(over);
    }
    VF_EQ(lines.size(), want.size(), "lines", out.str());
    long long max = 0;
    for (long long v : bins)
        max = std::max(max, v);
    max = std::max({ max, under, over });
    std::size_t len = lines[0].size();
    long long prev_n = -1;
    std::size_t room = 0, prev_hashes = 0;
    for (std::size_t i = 0; i < lines.size(); ++i) {
        const std::string& l = lines[i];
        VF_EQ(l.size(), len, "aligned", out.str());
        auto p1 = l.find(" -> "), p2 = l.find(" : "), p3 = l.find(" |", p2 + 3);
        VF_REQUIRE(p1 != l.npos && p2 != l.npos && p3 != l.npos && l.back() == '|', "shape", l);
        long long got = std::stoll(l.substr(p2 + 3, p3 - p2 - 3));
        VF_EQ(got, want[i], "count", "line " << i << " of\n" << out.str());
        std::string bar = l.substr(p3 + 2, l.size() - p3 - 3);
        std::size_t hashes = bar.find_last_not_of(' ') + 1;
        VF_REQUIRE(bar.substr(0, hashes) == std::string(hashes, '#'), "bar", l);
        room = bar.size();
        // Bar length is proportional to count
        if (max == 0) {
            VF_EQ(hashes, std::size_t(0), "bar_empty", l);
        }
        else {
            double ideal = double(got) * double(room) / double(max);
            VF_REQUIRE(std::abs(double(hashes) - ideal) <= 0.5 + 1e-9 * double(room), "bar_length", l << " for " << ideal);
        }
        if (prev_n >= 0)
            VF_REQUIRE((got > prev_n) ? hashes >= prev_hashes : (got < prev_n) ? hashes <= prev_hashes : hashes == prev_hashes, "bar_order", out.str());
        prev_n = got;
        prev_hashes = hashes;
        // Limits as printed: contiguous
        if (i + 1 < lines.size()) {
            std::string a = l.substr(p1 + 4, p2 - p1 - 4), b = lines[i + 1];
            b = b.substr(0, b.find(" -> "));
            auto strip = [](std::string s) {
                while (!s.empty() && s.back() == ' ')
                    s.pop_back();
                return s;
            };
            if (!(inc && i + 2 == lines.size()))
                VF_EQ(strip(a).substr(strip(a)[0] == '+'), strip(b).substr(strip(b)[0] == '+'), "contiguous", out.str());
        }
    }
    VF_REQUIRE(room == 0 || len == std::size_t(width), "width", "line size " << len << " width " << width);
    c.event(max == 0 ? "empty" : "printed", 1);
}

} // unnamed namespace

VF_MONITOR(histogram, 1500, 60000)
{
    switch (c.rng.below(3)) {
        case 0:
            histogram<float>(c);
            break;
        case 1:
            histogram<double>(c);
            break;
        case 2:
            histogram<long double>(c);
            break;
    }
    c.nontrivial(vf::Hash().add(c.index).get());
}

VF_MONITOR(inexact_compare, 5000, 500000)
{
    auto val = [&]() -> long double {
        switch (c.rng.below(5)) {
            case 0:
                return (long double)(std::int64_t(c.rng.below(21)) - 10);
            case 1:
                return 0;
            case 2:
                return std::ldexp((long double)(c.rng.unit()) - 0.5L, int(c.rng.below(60)) - 30);
            default:
                return (long double)(c.rng.unit()) * 2 - 1;
        }
    };
    long double a = val();
    long double b = c.rng.chance(1, 2) ? val() : a * (1 + std::ldexp((long double)(c.rng.unit()) - 0.5L, -int(c.rng.below(40))));
    long double eps = std::ldexp(1.0L, -int(c.rng.below(40)));
    bool approx = core::approximately_equal(a, b, eps), essent = core::essentially_equal(a, b, eps);
    bool less = core::definitely_less(a, b, eps), greater = core::definitely_greater(a, b, eps);
    auto q = [&](std::ostream& o) { o << (double)a << " " << (double)b << " eps " << (double)eps; };
    std::ostringstream os;
    q(os);
    VF_EQ(core::approximately_equal(b, a, eps), approx, "symmetry", os.str());
    VF_EQ(core::essentially_equal(b, a, eps), essent, "symmetry", os.str());
    VF_EQ(core::definitely_less(b, a, eps), greater, "antisymmetry", os.str());
    VF_EQ(core::definitely_greater(b, a, eps), less, "antisymmetry", os.str());
    VF_EQ(core::approximately_equal(-a, -b, eps), approx, "negation", os.str());
    VF_EQ(core::definitely_less(-b, -a, eps), less, "negation", os.str());
    VF_REQUIRE(!essent || approx, "essential_implies_approximate", os.str());
    VF_EQ(int(approx) + int(less) + int(greater), 1, "trichotomy", os.str());
    VF_REQUIRE(!less || a < b, "less_implies_less", os.str());
    VF_REQUIRE(!greater || a > b, "greater_implies_greater", os.str());
    long double rel_max = std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b));
    long double rel_min = std::fabs(a - b) / std::min(std::fabs(a), std::fabs(b));
    if (a == b) {
        VF_REQUIRE(approx && essent, "equal", os.str());
    }
    else {
        if (std::fabs(rel_max / eps - 1) > 1e-6L)
            VF_EQ(approx, rel_max < eps, "approximately_equal", os.str());
        if (a != 0 && b != 0 && std::fabs(rel_min / eps - 1) > 1e-6L)
            VF_EQ(essent, rel_min < eps, "essentially_equal", os.str());
    }
    c.event(approx ? "approx" : less ? "less" : "greater", 1);
    c.nontrivial(vf::Hash().add(double(a)).add(double(b)).get());
}

namespace {

template<class T> struct IsInt : std::is_same<std::decay_t<T>, int> {};
template<class T> struct IsString : std::is_same<std::decay_t<T>, std::string> {};
template<class T> struct IsAny : std::true_type {};

struct Base {
    int tag;
};
struct Derived : Base {
    Derived(int t) { tag = t; }
};

struct Disp {
    template<std::size_t I> static int exec(int a, int& b)
    {
        b += int(I) + 1;
        return a * 100 + int(I);
    }
};

struct RegBase {
    int x;
};
template<int I> struct Reg : RegBase {
    long long y = I;
};

} // unnamed namespace

VF_MONITOR(utilities, 1500, 60000)
{
    // Minimum and maximum over heterogeneous types
    {
        short a = short(c.rng.below(1000)) - 500;
        int b = int(c.rng.below(1000)) - 500;
        double d = double(c.rng.below(10000)) / 8 - 600;
        VF_EQ(core::hetero_min(a, b, d), std::min({ double(a), double(b), d }), "hetero_min", "");
        VF_EQ(core::hetero_max(a, b, d), std::max({ double(a), double(b), d }), "hetero_max", "");
        VF_EQ(core::hetero_max(b, a), std::max({ int(a), b }), "hetero_max", "");
        VF_EQ(core::hetero_min(a), int(a), "hetero_min", "");
    }
    // Dispatch
    {
        std::size_t i = c.rng.below(6);
        int b = 0, a = int(c.rng.below(100));
        auto r = core::dispatch<Disp, 6>(i, a, b);
        VF_EQ(r, a * 100 + int(i), "dispatch", "");
        VF_EQ(b, int(i) + 1, "dispatch_ref", "");
    }
    // Arguments by position and type
    {
        int x = 1;
        std::string s = "s";
        Derived d(7);
        const Derived e(8);
        VF_REQUIRE(&core::get_arg_at<0>(x, s, d) == &x && &core::get_arg_at<1>(x, s, d) == &s && &core::get_arg_at<2>(x, s, d) == &d, "get_arg_at", "");
        VF_REQUIRE(&core::get_first_arg<IsAny>(s, x) == &s, "get_first_arg", "");
        int y = 2;
        VF_REQUIRE(&core::get_first_arg<IsInt>(s, x, y) == &x, "get_first_arg", "");
        VF_REQUIRE(&core::get_unique_arg<IsString>(x, s, y) == &s, "get_unique_arg", "");
        VF_REQUIRE(&core::get_first_arg_by_type<Base>(x, s, d) == &d, "get_first_arg_by_type", "");
        VF_REQUIRE(&core::get_unique_arg_by_type<const Base>(x, s, e) == &e, "get_unique_arg_by_type", "");
        static_assert(core::has_arg<IsInt, std::string, int&, int>() && !core::has_unique_arg<IsInt, std::string, int&, int>());
        static_assert(core::has_unique_arg<IsInt, std::string, int&>() && !core::has_arg<IsInt, std::string>() && !core::has_arg<IsInt>());
        static_assert(core::find_first_arg<IsInt, std::string, int&, int>() == 1 && core::find_unique_arg<IsString, int, int, std::string>() == 2);
        static_assert(std::is_same_v<core::GetArgTypeAt<2, int, char, std::string&>, std::string&>);
    }
    // Tuples
    {
        std::tuple<int, std::string, double> t(int(c.rng.below(100)), "abc", 2.5);
        std::string order;
        core::for_each_tuple_elem(t, [&](auto& e) {
            using E = std::decay_t<decltype(e)>;
            if constexpr (std::is_same_v<E, int>) {
                order += 'i';
                e += 1;
            }
            else if constexpr (std::is_same_v<E, std::string>) {
                order += 's';
                e += "d";
            }
            else {
                order += 'd';
            }
        });
        VF_EQ(order, std::string("isd"), "tuple_order", "");
        VF_EQ(std::get<1>(t), std::string("abcd"), "tuple_ref", "");
        std::array<int, 5> arr;
        for (int& e : arr)
            e = int(c.rng.below(4));
        std::size_t seen = 0, model = 0;
        bool r = core::for_each_tuple_elem_a(arr, [&](int e) { ++seen; return e != 0; });
        bool want = true;
        for (int e : arr) {
            ++model;
            if (e == 0) {
                want = false;
                break;
            }
        }
        VF_EQ(r, want, "tuple_a", "");
        VF_EQ(seen, model, "tuple_a_count", "");
        std::size_t i = c.rng.below(5);
        int found = -1;
        core::with_tuple_elem(arr, i, [&](int& e) { found = e; e = 99; });
        VF_REQUIRE(found >= 0 && found < 4 && arr[i] == 99, "with_tuple_elem", "");
        auto p = std::make_pair(short(3), 4L);
        core::with_tuple_elem(p, i % 2, [&](auto& e) { e = std::decay_t<decltype(e)>(e * 2); });
        VF_REQUIRE((i % 2 == 0) ? (p.first == 6 && p.second == 4) : (p.first == 3 && p.second == 8), "with_tuple_elem_pair", "");
        if constexpr (!std::is_void_v<decltype(core::with_tuple_elem(arr, i, [](int& e) { return e + 1; }))>) {
            int v = core::with_tuple_elem(arr, i, [](int& e) { return e + 1; });
            VF_EQ(v, 100, "with_tuple_elem_value", "");
            c.event("tuple_value", 1);
        }
        else {
            VF_REQUIRE(false, "with_tuple_elem_no_value", "what the function returns is not returned");
        }
        int sum = 0, next = 0;
        core::for_each_int<int, 7>([&](auto obj) {
            constexpr int v = obj.value;
            VF_EQ(v, next, "for_each_int", "");
            ++next;
            sum += v;
        });
        VF_EQ(sum, 21, "for_each_int", "");
    }
    // Pairs order as the pairs of the standard library do
    {
        int a = int(c.rng.below(3)), b = int(c.rng.below(3));
        std::string s = c.rng.pick({ "a", "b", "" }), t = c.rng.pick({ "a", "b", "" });
        core::Pair<int, std::string> p(a, s), q(b, t);
        std::pair<int, std::string> u(a, s), v(b, t);
        VF_EQ(p == q, u == v, "pair_eq", "");
        VF_EQ(p < q, u < v, "pair_less", "");
        VF_EQ(p > q, u > v, "pair_greater", "");
        VF_EQ(p <= q, u <= v, "pair_less_eq", "");
        VF_EQ(p != q, u != v, "pair_ne", "");
        core::Pair<long, std::string> w(p);
        VF_REQUIRE(w == p && w.first == a && w.second == s, "pair_convert", "");
        double nan = std::numeric_limits<double>::quiet_NaN();
        core::Pair<int, double> f(a, nan), g(b, 1.0);
        VF_EQ(f < g, a < b, "pair_partial", "");
        VF_EQ(f > g, a > b, "pair_partial", "");
    }
    // Typed object registry
    {
        core::TypedObjectRegistry<RegBase> reg;
        Reg<0> r0a, r0b;
        Reg<1> r1;
        Reg<2> r2;
        RegBase base;
        Reg<0>* m0 = nullptr;
        Reg<1>* m1 = nullptr;
        Reg<2>* m2 = nullptr;
        RegBase* mb = nullptr;
        for (std::size_t k = c.rng.below(10); k > 0; --k) {
            switch (c.rng.below(6)) {
                case 0:
                    reg.register_(r0a);
                    m0 = &r0a;
                    break;
                case 1:
                    reg.register_(r0b);
                    m0 = &r0b;
                    break;
                case 2:
                    reg.register_(r1);
                    m1 = &r1;
                    break;
                case 3:
                    reg.register_(r2);
                    m2 = &r2;
                    break;
                case 4:
                    reg.register_(base);
                    mb = &base;
                    break;
                case 5:
                    reg.register_<RegBase>(r1);
                    mb = &r1;
                    break;
            }
            VF_REQUIRE(reg.get<Reg<0>>() == m0 && reg.get<Reg<1>>() == m1 && reg.get<Reg<2>>() == m2 && reg.get<RegBase>() == mb, "typed_registry", "");
        }
        VF_REQUIRE(reg.get<Reg<3>>() == nullptr, "typed_registry", "not registered");
    }
    c.nontrivial(vf::Hash().add(c.index).get());
}

VF_MONITOR(timers, 60, 2000)
{
    auto type = c.rng.pick({ core::Timer::Type::monotonic_clock, core::Timer::Type::process_cputime, core::Timer::Type::thread_cputime });
    if ((type == core::Timer::Type::process_cputime && !core::Timer::has_process_cputime()) ||
        (type == core::Timer::Type::thread_cputime && !core::Timer::has_thread_cputime()))
        return;
    using clock = std::chrono::steady_clock;
    auto sec = [](clock::duration d) { return std::chrono::duration<double>(d).count(); };
    auto t0 = clock::now();
    core::Timer timer(type);
    auto t1 = clock::now();
    double prev = 0;
    volatile unsigned sink = 0;
    for (std::size_t k = 3 + c.rng.below(6); k > 0; --k) {
        std::size_t spin = c.rng.below(20000);
        bool sleep = c.rng.chance(1, 4);
        if (sleep)
            std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(3000)));
        for (std::size_t i = 0; i < spin; ++i)
            sink = sink + 1;
        if (c.rng.chance(1, 6)) {
            t0 = clock::now();
            timer.reset();
            t1 = clock::now();
            prev = 0;
        }
        auto t2 = clock::now();
        double e = timer.get_elapsed_time();
        auto t3 = clock::now();
        VF_REQUIRE(e >= prev, "timer_monotonic", e << " after " << prev);
        prev = e;
        if (type == core::Timer::Type::monotonic_clock) {
            bool right = (e >= sec(t2 - t1) - 1e-5 && e <= sec(t3 - t0) + 1e-5);
            VF_REQUIRE(right, "timer_value", e << " not in " << sec(t2 - t1) << " .. " << sec(t3 - t0));
        }
        else if (type == core::Timer::Type::thread_cputime) {
            VF_REQUIRE(e <= sec(t3 - t0) * 1.01 + 0.02, "thread_cpu_time", e << " in " << sec(t3 - t0));
        }
    }
    c.event("timers", 1);
    c.nontrivial(vf::Hash().add(c.index).get());
}
