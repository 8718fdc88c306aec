#include "pair.hpp"
VF_MONITOR(pairs_2a, 700, 20000) { all_b<short, ALL_B>(c, 6); }
VF_MONITOR(pairs_2b, 700, 20000) { all_b<wchar_t, ALL_B>(c, 6); }
