#include "sites.hpp"

namespace k {

namespace {


template<class A, class B> void rel(check::TestContext& test_context, Gen& g, Out& o)
{
    A a = draw<A>(g);
    B b = draw<B>(g);
    int q = cmp(a, b);
    switch (g.below(10)) {
        case 0: { bool r = ARCHON_CHECK_EQUAL(a, b); o.done(r, q == 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_EQUAL", "a, b", a, b); }); break; }
        case 1: { bool r = ARCHON_CHECK_NOT_EQUAL(a, b); o.done(r, q != 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_EQUAL", "a, b", a, b); }); break; }
        case 2: { bool r = ARCHON_CHECK_LESS(a, b); o.done(r, q == -1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_LESS", "a, b", a, b); }); break; }
        case 3: { bool r = ARCHON_CHECK_LESS_EQUAL(a, b); o.done(r, q <= 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_LESS_EQUAL", "a, b", a, b); }); break; }
        case 4: { bool r = ARCHON_CHECK_NOT_LESS(a, b); o.done(r, q != -1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_LESS", "a, b", a, b); }); break; }
        case 5: { bool r = ARCHON_CHECK_NOT_LESS_EQUAL(a, b); o.done(r, q > 0, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_LESS_EQUAL", "a, b", a, b); }); break; }
        case 6: { bool r = ARCHON_CHECK_GREATER(a, b); o.done(r, q == 1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_GREATER", "a, b", a, b); }); break; }
        case 7: { bool r = ARCHON_CHECK_GREATER_EQUAL(a, b); o.done(r, q == 0 || q == 1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_GREATER_EQUAL", "a, b", a, b); }); break; }
        case 8: { bool r = ARCHON_CHECK_NOT_GREATER(a, b); o.done(r, q != 1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_GREATER", "a, b", a, b); }); break; }
        case 9: { bool r = ARCHON_CHECK_NOT_GREATER_EQUAL(a, b); o.done(r, q != 0 && q != 1, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_GREATER_EQUAL", "a, b", a, b); }); break; }
    }
}

template<class X, class M, class N> void between(check::TestContext& test_context, Gen& g, Out& o)
{
    X x = draw<X>(g);
    M min = draw<M>(g);
    N max = draw<N>(g);
    int p = cmp(min, x), q = cmp(x, max);
    bool in = (p <= 0 && q <= 0);
    if (g.chance(1, 2)) {
        bool r = ARCHON_CHECK_BETWEEN(x, min, max); o.done(r, in, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_BETWEEN", "x, min, max", x, min, max); });
    }
    else {
        bool r = ARCHON_CHECK_NOT_BETWEEN(x, min, max); o.done(r, !in, __FILE__, __LINE__, [&] { return special("ARCHON_CHECK_NOT_BETWEEN", "x, min, max", x, min, max); });
    }
}

} // namespace

const std::vector<Site> relation_sites = {
    &rel<int, int>, &rel<int, unsigned>, &rel<long long, unsigned long long>, &rel<unsigned short, short>, &rel<short, unsigned long long>,
    &rel<double, double>, &rel<float, double>, &rel<double, long long>, &rel<unsigned long long, double>, &rel<int, float>,
    &rel<char, char>, &rel<std::string, std::string>, &rel<std::string_view, std::string_view>, &rel<std::string, const char*>, &rel<unsigned, unsigned long>,
    &between<int, int, int>, &between<int, unsigned, long long>, &between<double, int, double>, &between<unsigned, int, long>, &between<std::string, std::string, std::string>,
};

} // namespace k
