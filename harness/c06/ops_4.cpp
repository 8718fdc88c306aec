#include "mp.hpp"
VF_MONITOR(ops_4, 2500, 100000, VF_NO_LEAK_CHECK) { parts<unsigned long>(c); }
VF_MONITOR(text_4, 600, 20000, VF_NO_LEAK_CHECK) { mp_text<core::MulPrecInt<unsigned long, 1, true>>(c); mp_text<core::MulPrecInt<unsigned long, 3, true>>(c); mp_text<core::MulPrecInt<unsigned long, 2, false>>(c); }
