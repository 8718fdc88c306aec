// Runtime-monitoring framework shared by all harnesses.
//
// A harness registers monitors (VF_MONITOR). Each monitor is a workload plus an oracle; it
// is run for a fixed number of cases. Case k of monitor m under seed s is a pure function of
// (s, m, k), so that every reported violation can be replayed on its own.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace vf {

inline std::uint64_t mix64(std::uint64_t x) noexcept
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) noexcept
{
    const unsigned char* q = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i)
        h = (h ^ q[i]) * 1099511628211ull;
    return mix64(h);
}

class Hash {
public:
    template<class T> Hash& add(const T& v)
    {
        if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
            h = hash_bytes(&v, sizeof v, h ^ 0x55);
        }
        else if constexpr (std::is_convertible_v<const T&, const char*>) {
            std::string_view w = v;
            h = hash_bytes(w.data(), w.size(), h ^ (w.size() + 77));
        }
        else {
            h = hash_bytes(std::data(v), std::size(v) * sizeof(*std::data(v)), h ^ (std::size(v) + 77));
        }
        return *this;
    }
    std::uint64_t get() const noexcept { return h; }
private:
    std::uint64_t h = 0xcbf29ce484222325ull;
};

class Rng {
public:
    using result_type = std::uint64_t;
    explicit Rng(std::uint64_t seed = 0) noexcept : s(mix64(seed)) {}
    std::uint64_t next() noexcept { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    static constexpr std::uint64_t min() { return 0; }
    static constexpr std::uint64_t max() { return ~std::uint64_t(0); }
    std::uint64_t operator()() noexcept { return next(); }
    // Uniform in [0, n), n > 0.
    std::uint64_t below(std::uint64_t n) noexcept { return next() % n; }
    // Uniform in [a, b].
    std::int64_t range(std::int64_t a, std::int64_t b) noexcept
    {
        return a + std::int64_t(below(std::uint64_t(b - a) + 1));
    }
    // True with probability num/den.
    bool chance(unsigned num, unsigned den) noexcept { return below(den) < num; }
    bool chance(double p) noexcept { return unit() < p; }
    double unit() noexcept { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) noexcept { return a + (b - a) * unit(); }
    template<class C> auto& pick(C& c) noexcept { return c[below(std::size(c))]; }
    template<class T> T pick(std::initializer_list<T> l) noexcept { return *(l.begin() + below(l.size())); }
    // Size with emphasis on small values, but with occasional values up to max.
    std::size_t size(std::size_t max) noexcept
    {
        switch (below(4)) {
            case 0: return below(std::min<std::size_t>(max, 3) + 1);
            case 1: return below(std::min<std::size_t>(max, 9) + 1);
            case 2: return below(std::min<std::size_t>(max, 40) + 1);
            default: return below(max + 1);
        }
    }
private:
    std::uint64_t s;
};

// Message stream that also accepts functions taking an output stream
struct Out {
    std::ostringstream s;
    std::string str() const { return s.str(); }
};
template<class T> Out& operator<<(Out& out, const T& v)
{
    if constexpr (std::is_invocable_v<const T&, std::ostream&> && std::is_class_v<T>) {
        v(out.s);
    }
    else {
        out.s << v;
    }
    return out;
}

// Thrown by a monitor when its oracle refutes the property.
struct Fail {
    std::string key; // Stable classification of the violation
    std::string msg; // Full witness
};

[[noreturn]] inline void fail(std::string key, std::string msg) { throw Fail{std::move(key), std::move(msg)}; }

class Case {
public:
    Rng rng;
    std::uint64_t index = 0; // Case number within the monitor
    std::uint64_t total = 0; // Number of cases of the monitor in this tier
    bool thorough = false;
    bool verbose = false;
    std::string tmp_dir; // Scratch directory, private to this process

    // Mark the case as non-trivial, with a signature used for counting distinct cases.
    void nontrivial(std::uint64_t signature) { sigs.push_back(signature); }
    // Count observed events.
    void event(const char* name, std::uint64_t n = 1) { events[name] += n; }
    // Offer a description of the case as sample for the evidence.
    template<class F> void sample(F&& f)
    {
        if (want_sample || verbose) {
            std::string s;
            if constexpr (std::is_invocable_v<F, std::ostream&>) {
                std::ostringstream o;
                f(o);
                s = std::move(o).str();
            }
            else {
                s = f();
            }
            if (s.size() > 600)
                s = s.substr(0, 600) + "...";
            samples.push_back(std::move(s));
        }
    }

    // Internal
    std::vector<std::uint64_t> sigs;
    std::map<std::string, std::uint64_t> events;
    std::vector<std::string> samples;
    bool want_sample = false;
};

// Per process count of cases executed so far by the shard, visible to monitors with
// process-wide state.
struct Options {
    bool leak_check = true; // Compare allocated bytes across repeated executions of a case
    std::uint64_t min_cases = 1;
};

struct Monitor {
    const char* name;
    void (*func)(Case&);
    std::uint64_t quick;
    std::uint64_t thorough;
    Options opt;
};

struct Reg {
    Reg(const char* name, void (*func)(Case&), std::uint64_t quick, std::uint64_t thorough, Options opt = {});
};

#define VF_MONITOR(name, quick, thorough, ...)                                         \
    static void vf_mon_##name(vf::Case& c);                                            \
    static vf::Reg vf_reg_##name{#name, &vf_mon_##name, quick, thorough, ##__VA_ARGS__}; \
    static void vf_mon_##name([[maybe_unused]] vf::Case& c)

#define VF_NO_LEAK_CHECK vf::Options{false}

// VF_REQUIRE(cond, "key", stream << expression)
#define VF_REQUIRE(cond, key, ...)                                                     \
    do {                                                                               \
        if (!(cond)) [[unlikely]] {                                                    \
            vf::Out vf_out;                                                            \
            vf_out << __FILE_NAME__ << ":" << __LINE__ << ": " << #cond << ": " << __VA_ARGS__; \
            vf::fail(key, vf_out.str());                                               \
        }                                                                              \
    } while (false)

#define VF_EQ(a, b, key, ...)                                                          \
    do {                                                                               \
        const auto& vf_a = (a);                                                        \
        const auto& vf_b = (b);                                                        \
        if (!(vf_a == vf_b)) [[unlikely]] {                                            \
            vf::Out vf_out;                                                            \
            vf_out << __FILE_NAME__ << ":" << __LINE__ << ": " << #a << " == " << #b << " (" << vf::show(vf_a) << " vs " \
                   << vf::show(vf_b) << "): " << __VA_ARGS__;                          \
            vf::fail(key, vf_out.str());                                               \
        }                                                                              \
    } while (false)

inline std::string show_str(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += char(ch);
        }
        else if (ch >= 32 && ch < 127) {
            r += char(ch);
        }
        else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02X", ch);
            r += b;
        }
    }
    r += '"';
    return r;
}

template<class T> std::string show(const T& v)
{
    if constexpr (std::is_convertible_v<const T&, std::string_view>) {
        return show_str(std::string_view(v));
    }
    else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> ||
                       std::is_same_v<T, char32_t> || std::is_same_v<T, signed char> ||
                       std::is_same_v<T, unsigned char> || std::is_same_v<T, char8_t>) {
        return "#" + std::to_string(static_cast<long long>(v));
    }
    else if constexpr (std::is_enum_v<T>) {
        return "e" + std::to_string(static_cast<long long>(v));
    }
    else if constexpr (std::is_floating_point_v<T>) {
        char b[64];
        std::snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(v));
        return b;
    }
    else if constexpr (requires (std::ostringstream& o) { o << v; }) {
        std::ostringstream o;
        o << v;
        return std::move(o).str();
    }
    else if constexpr (requires { std::begin(v); std::end(v); }) {
        std::string r = "[";
        bool first = true;
        std::size_t n = 0;
        for (const auto& x : v) {
            if (!first)
                r += ", ";
            first = false;
            if (++n > 200) {
                r += "...";
                break;
            }
            r += show(static_cast<std::decay_t<decltype(x)>>(x));
        }
        return r + "]";
    }
    else if constexpr (requires { v.first; v.second; }) {
        return "(" + show(v.first) + ", " + show(v.second) + ")";
    }
    else {
        return "?";
    }
}

// Hex digits of bytes
inline std::string hex(std::string_view s)
{
    std::string r;
    for (unsigned char ch : s) {
        char b[4];
        std::snprintf(b, sizeof b, "%02x", ch);
        r += b;
    }
    return r;
}

} // namespace vf
