#include "mat.hpp"
namespace m {
void more(vf::Case& c, int which, int lim)
{
    switch (which) {
        case 0: exact_ops<1, 1, double, double>(c, lim); break;
        case 1: exact_ops<2, 2, float, double>(c, lim); break;
        case 2: exact_ops<3, 3, double, double>(c, lim); break;
        case 3: exact_ops<4, 4, double, float>(c, lim); break;
        case 4: exact_ops<2, 3, float, float>(c, lim); break;
        case 5: exact_ops<3, 2, long double, double>(c, lim); break;
        case 6: exact_ops<1, 4, double, double>(c, lim); break;
        case 7: exact_ops<4, 1, float, float>(c, lim); break;
        default: exact_ops<5, 3, double, long double>(c, lim); break;
    }
}
}
