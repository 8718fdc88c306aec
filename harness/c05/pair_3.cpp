#include "pair.hpp"
VF_MONITOR(pairs_3a, 700, 20000) { all_b<int, ALL_B>(c, 6); }
VF_MONITOR(pairs_3b, 700, 20000) { all_b<unsigned, ALL_B>(c, 6); }
