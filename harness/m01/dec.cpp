#include "mat.hpp"
namespace m {
void dec(vf::Case& c)
{
    int lim = (c.rng.chance(1, 2) ? 3 : c.rng.chance(1, 2) ? 20 : 1);
    bool fr = c.rng.chance(1, 3);
    switch (c.rng.below(20)) {
        case 0: lup<1, 1, double>(c, lim, fr); break;
        case 1: lup<2, 2, float>(c, lim, fr); break;
        case 2: lup<3, 3, double>(c, lim, fr); break;
        case 3: lup<4, 4, double>(c, lim, fr); break;
        case 4: lup<5, 5, long double>(c, lim, fr); break;
        case 5: lup<5, 3, double>(c, lim, fr); break;
        case 6: lup<3, 5, double>(c, lim, fr); break;
        case 7: lup<2, 4, float>(c, lim, fr); break;
        case 8: lup<4, 1, double>(c, lim, fr); break;
        case 9: lup<1, 4, double>(c, lim, fr); break;
        case 10: inverse<1, double>(c, lim); break;
        case 11: inverse<2, float>(c, lim); break;
        case 12: inverse<2, double>(c, lim); break;
        case 13: inverse<3, double>(c, lim); break;
        case 14: inverse<3, float>(c, lim); break;
        case 15: inverse<4, double>(c, lim); break;
        case 16: inverse<4, float>(c, lim); break;
        case 17: inverse<5, double>(c, lim); break;
        case 18: inverse<5, long double>(c, lim); break;
        default: inverse<6, double>(c, lim); break;
    }
}
}
