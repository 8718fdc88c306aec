#include "pair.hpp"
VF_MONITOR(pairs_4a, 700, 20000) { all_b<long, ALL_B>(c, 6); }
VF_MONITOR(pairs_4b, 700, 20000) { all_b<unsigned long long, ALL_B>(c, 6); }
