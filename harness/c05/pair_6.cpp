#include "pair.hpp"
VF_MONITOR(pairs_6a, 700, 20000) { all_b<unsigned short, ALL_B>(c, 6); }
VF_MONITOR(pairs_6b, 700, 20000) { all_b<signed char, ALL_B>(c, 6); }
