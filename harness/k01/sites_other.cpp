#include "sites.hpp"

#include <list>
#include <stdexcept>
#include <system_error>

namespace k {

namespace {

struct Opaque {
    int v;
    bool operator==(const Opaque& x) const { return v == x.v; }
    bool operator<(const Opaque& x) const { return v < x.v; }
};

struct Shown {
    int v;
    bool operator==(const Shown& x) const { return v == x.v; }
    friend std::ostream& operator<<(std::ostream& out, const Shown& x) { return out << "Shown<" << x.v << ">"; }
};

int maybe_throw(int kind)
{
    switch (kind) {
        case 1:
            throw std::runtime_error("rt msg");
        case 2:
            throw std::logic_error("logic msg");
        case 3:
            throw 7;
        case 4:
            throw MyExc { 3 };
    }
    return 0;
}

void general(check::TestContext& test_context, Gen& g, Out& o)
{
    bool cond = g.chance(3, 4);
    if (g.chance(1, 2)) {
        bool r = ARCHON_CHECK(cond); o.done(r, cond, __FILE__, __LINE__, [&] { return exact("ARCHON_CHECK(cond) failed"); });
    }
    else {
        bool r = ARCHON_CHECK_NOT(!cond); o.done(r, cond, __FILE__, __LINE__, [&] { return exact("ARCHON_CHECK_NOT(!cond) failed"); });
    }
}

void objects(check::TestContext& test_context, Gen& g, Out& o)
{
    Opaque a { int(g.below(2)) }, b { int(g.below(2)) };
    Shown s { int(g.below(2)) }, t { int(g.below(2)) };
    bool p = g.chance(1, 2), q = g.chance(1, 2);
    switch (g.below(4)) {
        case 0: { bool r = ARCHON_CHECK_EQUAL(a, b); o.done(r, a.v == b.v, __FILE__, __LINE__, [&] { return exact("ARCHON_CHECK_EQUAL(a, b) failed with (?, ?)"); }); break; }
        case 1: { bool r = ARCHON_CHECK_LESS(a, b); o.done(r, a.v < b.v, __FILE__, __LINE__, [&] { return exact("ARCHON_CHECK_LESS(a, b) failed with (?, ?)"); }); break; }
        case 2: { bool r = ARCHON_CHECK_EQUAL(s, t); o.done(r, s.v == t.v, __FILE__, __LINE__, [&] { return exact("ARCHON_CHECK_EQUAL(s, t) failed with (Shown<" + std::to_string(s.v) + ">, Shown<" + std::to_string(t.v) + ">)"); }); break; }
        case 3: { bool r = ARCHON_CHECK_EQUAL(p, q); o.done(r, p == q, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_EQUAL", "p, q", p, q); }); break; }
    }
}

void compare(check::TestContext& test_context, Gen& g, Out& o)
{
    int a = int(g.below(5)), b = int(g.below(5));
    int n = 0;
    auto comp = [&](int x, int y) {
        ++n;
        return (x + y) % 2 == 0;
    };
    bool ok = ((a + b) % 2 == 0);
    bool r = ARCHON_CHECK_COMPARE(a, b, comp); o.done(r, ok, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_COMPARE(a, b, comp) failed", { std::to_string(a), std::to_string(b) }); });
    if (n != 1)
        o.slot->violations.push_back("comparator called " + std::to_string(n) + " times");
}

void throws(check::TestContext& test_context, Gen& g, Out& o)
{
    // 0: nothing, 1: runtime_error, 2: logic_error, 3: int, 4: not a std::exception
    int kind = int(g.below(3));
    int any = int(g.below(5));
    int val = 7 + int(g.below(2));
    switch (g.below(8)) {
        case 0: {
            if (kind == 2)
                kind = 1; // The mismatching one escapes, see `escape` in main.cpp
            bool r = ARCHON_CHECK_THROW(maybe_throw(kind), std::runtime_error); o.done(r, kind == 1, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_THROW(maybe_throw(kind), std::runtime_error) failed"); });
            break;
        }
        case 1: {
            bool r = ARCHON_CHECK_THROW(maybe_throw(kind), std::exception); o.done(r, kind != 0, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_THROW(maybe_throw(kind), std::exception) failed"); });
            break;
        }
        case 2: {
            bool r = ARCHON_CHECK_THROW_EX(maybe_throw(kind), std::exception, e.what() == std::string_view("rt msg")); o.done(r, kind == 1, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_THROW_EX(maybe_throw(kind), std::exception, e.what() == std::string_view(\"rt msg\")) failed"); });
            break;
        }
        case 3: {
            int k = (g.chance(1, 2) ? 3 : 0);
            bool r = ARCHON_CHECK_THROW_EX(maybe_throw(k), int, e == val); o.done(r, k == 3 && val == 7, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_THROW_EX(maybe_throw(k), int, e == val) failed"); });
            break;
        }
        case 4: {
            bool r = ARCHON_CHECK_THROW_ANY(maybe_throw(any)); o.done(r, any != 0, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_THROW_ANY(maybe_throw(any)) failed"); });
            break;
        }
        case 5:
        case 6: {
            bool r = ARCHON_CHECK_NOTHROW(maybe_throw(any)); o.done(r, any == 0, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_NOTHROW(maybe_throw(any)) failed", any == 1 ? std::vector<std::string> { "std::runtime_error", "rt msg" } : any == 2 ? std::vector<std::string> { "std::logic_error", "logic msg" } : std::vector<std::string> {}); });
            break;
        }
        case 7: {
            std::error_code ec;
            auto f = [&] {
                if (any < 2) {
                    ec = std::make_error_code(std::errc::permission_denied);
                    return false;
                }
                return true;
            };
            bool r = ARCHON_CHECK_NO_ERROR(f(), ec); o.done(r, any >= 2, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_NO_ERROR(f(), ec) failed", { ec.message() }); });
            break;
        }
    }
}

void sequences(check::TestContext& test_context, Gen& g, Out& o)
{
    std::vector<int> a, b;
    std::size_t n = g.below(6);
    for (std::size_t i = 0; i < n; ++i)
        a.push_back(int(g.below(4)) * 100);
    b = a;
    switch (g.below(5)) {
        case 0:
            b.push_back(700 + int(g.below(4)));
            break;
        case 1:
            if (!b.empty())
                b.resize(g.below(b.size()));
            break;
        case 2:
            if (!b.empty())
                b[g.below(b.size())] += 11;
            break;
        case 3:
            if (!b.empty())
                b.erase(b.begin() + std::ptrdiff_t(g.below(b.size())));
            break;
    }
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    std::vector<std::string> parts = { "index " + std::to_string(i) };
    if (i < a.size())
        parts.push_back(std::to_string(a[i]));
    if (i < b.size())
        parts.push_back(std::to_string(b[i]));
    if (g.chance(1, 2)) {
        bool r = ARCHON_CHECK_EQUAL_SEQ(a, b); o.done(r, a == b, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_EQUAL_SEQ(a, b) failed", parts); });
    }
    else {
        auto eq = [](int x, int y) { return x == y; };
        bool r = ARCHON_CHECK_COMPARE_SEQ(a, b, eq); o.done(r, a == b, __FILE__, __LINE__, [&] { return loose("ARCHON_CHECK_COMPARE_SEQ(a, b, eq) failed", parts); });
    }
}

void once(check::TestContext& test_context, Gen& g, Out& o)
{
    // Arguments must be evaluated exactly once
    int n = 0, m = int(g.below(3));
    auto f = [&] { return n++; };
    auto h = [&] { return m; };
    bool ok = (0 == m);
    bool r = ARCHON_CHECK_EQUAL(f(), h()); o.done(r, ok, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_EQUAL", "f(), h()", 0, m); });
    if (n != 1)
        o.slot->violations.push_back("argument evaluated " + std::to_string(n) + " times");
}

void direct(check::TestContext& test_context, Gen& g, Out& o)
{
    switch (g.below(3)) {
        case 0:
            test_context.check_succeeded();
            o.done(true, true, __FILE__, __LINE__, {});
            break;
        case 1: {
            // Several source files
            static const char* const files[] = { "dir/other_1.cpp", "dir/other_2.cpp", "x<y>&\"z\".cpp", "third.hpp" };
            const char* file = files[g.below(4)];
            long line = 1 + long(g.below(1000));
            std::string msg = "custom message " + std::to_string(g.below(100));
            test_context.check_failed({ file, line }, msg);
            o.done(false, false, file, line, [&] { return exact(msg); });
            break;
        }
        case 2: {
            bool cond = g.chance(1, 2);
            int v = int(g.below(1000));
            bool r = test_context.check_special_cond(cond, "custom.cpp", 17, "CHECK_FOO", check::CheckArg("v", v)); o.done(r, cond, "custom.cpp", 17, [&] { return special("CHECK_FOO", "v", v); });
            break;
        }
    }
}

} // namespace

const std::vector<Site> other_sites = {
    &general, &general, &objects, &compare, &throws, &throws, &throws, &sequences, &sequences, &once, &direct, &direct,
};

} // namespace k
