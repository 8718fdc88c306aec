#include "pair.hpp"
VF_MONITOR(pairs_5a, 700, 20000) { all_b<long long, ALL_B>(c, 6); }
VF_MONITOR(pairs_5b, 700, 20000) { all_b<unsigned long, ALL_B>(c, 6); }
