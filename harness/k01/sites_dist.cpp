#include "sites.hpp"

namespace k {

namespace {

template<class A, class B, class D> void dist_site(check::TestContext& test_context, Gen& g, Out& o)
{
    A a;
    B b;
    D dist;
    int q; // Distance compared to `dist`
    if constexpr (std::is_integral_v<A> && std::is_integral_v<B> && std::is_integral_v<D>) {
        a = draw<A>(g);
        b = draw<B>(g);
        __int128 d = __int128(a) - __int128(b);
        d = (d < 0 ? -d : d);
        dist = draw<D>(g);
        if (g.chance(1, 2)) {
            // Near miss
            __int128 e = d + int(g.below(3)) - 1;
            if (e >= __int128(std::numeric_limits<D>::min()) && e <= __int128(std::numeric_limits<D>::max()))
                dist = D(e);
        }
        __int128 t = dist;
        q = (d < t ? -1 : d > t ? 1 : 0);
    }
    else {
        a = A(int(g.below(9)));
        b = B(int(g.below(9)));
        dist = D(int(g.below(6)));
        if constexpr (std::is_floating_point_v<A>)
            a = a / 4 - 1;
        if constexpr (std::is_floating_point_v<B>)
            b = b / 4 - 1;
        if constexpr (std::is_floating_point_v<D>)
            dist = dist / 4;
        long double d = std::fabs(static_cast<long double>(a) - static_cast<long double>(b));
        q = (d < dist ? -1 : d > dist ? 1 : 0);
    }
    switch (g.below(8)) {
        case 0: { bool r = ARCHON_CHECK_DIST_LESS(a, b, dist); o.done(r, q < 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_LESS", "a, b, dist", a, b, dist); }); break; }
        case 1: { bool r = ARCHON_CHECK_DIST_LESS_EQUAL(a, b, dist); o.done(r, q <= 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_LESS_EQUAL", "a, b, dist", a, b, dist); }); break; }
        case 2: { bool r = ARCHON_CHECK_DIST_NOT_LESS(a, b, dist); o.done(r, q >= 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_NOT_LESS", "a, b, dist", a, b, dist); }); break; }
        case 3: { bool r = ARCHON_CHECK_DIST_NOT_LESS_EQUAL(a, b, dist); o.done(r, q > 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_NOT_LESS_EQUAL", "a, b, dist", a, b, dist); }); break; }
        case 4: { bool r = ARCHON_CHECK_DIST_GREATER(a, b, dist); o.done(r, q > 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_GREATER", "a, b, dist", a, b, dist); }); break; }
        case 5: { bool r = ARCHON_CHECK_DIST_GREATER_EQUAL(a, b, dist); o.done(r, q >= 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_GREATER_EQUAL", "a, b, dist", a, b, dist); }); break; }
        case 6: { bool r = ARCHON_CHECK_DIST_NOT_GREATER(a, b, dist); o.done(r, q <= 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_NOT_GREATER", "a, b, dist", a, b, dist); }); break; }
        case 7: { bool r = ARCHON_CHECK_DIST_NOT_GREATER_EQUAL(a, b, dist); o.done(r, q < 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DIST_NOT_GREATER_EQUAL", "a, b, dist", a, b, dist); }); break; }
    }
}

template<class T> void inexact(check::TestContext& test_context, Gen& g, Out& o)
{
    // Everything is exact in these, so there is no doubt about what is the right answer
    T a = T(std::int64_t(g.below(65)) - 32);
    T b = (g.chance(1, 2) ? a + T(std::int64_t(g.below(9)) - 4) / 4 : T(std::int64_t(g.below(65)) - 32));
    T epsilon = std::ldexp(T(1), -int(g.below(8)));
    long double x = a, y = b, e = epsilon;
    long double d = std::fabs(x - y), mx = std::max(std::fabs(x), std::fabs(y)), mn = std::min(std::fabs(x), std::fabs(y));
    bool approx = (d <= mx * e), ess = (d <= mn * e), less = (y - x > mx * e), greater = (x - y > mx * e);
    switch (g.below(8)) {
        case 0: { bool r = ARCHON_CHECK_APPROXIMATELY_EQUAL(a, b, epsilon); o.done(r, approx, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_APPROXIMATELY_EQUAL", "a, b, epsilon", a, b, epsilon); }); break; }
        case 1: { bool r = ARCHON_CHECK_ESSENTIALLY_EQUAL(a, b, epsilon); o.done(r, ess, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_ESSENTIALLY_EQUAL", "a, b, epsilon", a, b, epsilon); }); break; }
        case 2: { bool r = ARCHON_CHECK_NOT_APPROXIMATELY_EQUAL(a, b, epsilon); o.done(r, !approx, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_APPROXIMATELY_EQUAL", "a, b, epsilon", a, b, epsilon); }); break; }
        case 3: { bool r = ARCHON_CHECK_NOT_ESSENTIALLY_EQUAL(a, b, epsilon); o.done(r, !ess, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_ESSENTIALLY_EQUAL", "a, b, epsilon", a, b, epsilon); }); break; }
        case 4: { bool r = ARCHON_CHECK_DEFINITELY_LESS(a, b, epsilon); o.done(r, less, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DEFINITELY_LESS", "a, b, epsilon", a, b, epsilon); }); break; }
        case 5: { bool r = ARCHON_CHECK_DEFINITELY_GREATER(a, b, epsilon); o.done(r, greater, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_DEFINITELY_GREATER", "a, b, epsilon", a, b, epsilon); }); break; }
        case 6: { bool r = ARCHON_CHECK_NOT_DEFINITELY_LESS(a, b, epsilon); o.done(r, !less, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_DEFINITELY_LESS", "a, b, epsilon", a, b, epsilon); }); break; }
        case 7: { bool r = ARCHON_CHECK_NOT_DEFINITELY_GREATER(a, b, epsilon); o.done(r, !greater, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_DEFINITELY_GREATER", "a, b, epsilon", a, b, epsilon); }); break; }
    }
}

} // namespace

const std::vector<Site> dist_sites = {
    &dist_site<int, int, int>, &dist_site<int, unsigned, int>, &dist_site<long long, long long, unsigned long long>, &dist_site<long long, unsigned long long, short>,
    &dist_site<unsigned long long, int, unsigned long long>, &dist_site<short, short, unsigned char>, &dist_site<unsigned short, short, signed char>,
    &dist_site<double, double, double>, &dist_site<float, int, double>, &dist_site<int, double, int>,
    &inexact<double>, &inexact<float>, &inexact<long double>,
};

} // namespace k
