#include "mp.hpp"
VF_MONITOR(ops_3, 2500, 100000, VF_NO_LEAK_CHECK) { parts<unsigned>(c); }
VF_MONITOR(text_3, 600, 20000, VF_NO_LEAK_CHECK) { mp_text<core::MulPrecInt<unsigned, 1, true>>(c); mp_text<core::MulPrecInt<unsigned, 3, true>>(c); mp_text<core::MulPrecInt<unsigned, 2, false>>(c); }
