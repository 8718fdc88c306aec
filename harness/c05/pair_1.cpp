#include "pair.hpp"
VF_MONITOR(pairs_1a, 700, 20000) { all_b<bool, ALL_B>(c, 6); }
VF_MONITOR(pairs_1b, 700, 20000) { all_b<char, ALL_B>(c, 6); }
