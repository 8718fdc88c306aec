#include "mat.hpp"

namespace m { void more(vf::Case& c, int which, int lim); void dec(vf::Case& c); }
using namespace m;

VF_MONITOR(m01_exact, 20000, 400000)
{
    int lim = (c.rng.chance(1, 2) ? 9 : 1 << c.rng.range(0, 8));
    switch (c.rng.below(16)) {
        case 0: vector_ops<1, float, float>(c, lim); break;
        case 1: vector_ops<2, double, float>(c, lim); break;
        case 2: vector_ops<3, float, double>(c, lim); break;
        case 3: vector_ops<3, double, double>(c, lim); break;
        case 4: vector_ops<4, long double, double>(c, lim); break;
        case 5: vector_ops<5, float, float>(c, lim); break;
        case 6: vector_ops<2, float, float>(c, lim); break;
        default: more(c, int(c.rng.below(9)), lim); break;
    }
}

VF_MONITOR(m01_factor, 40000, 1000000)
{
    dec(c);
}
