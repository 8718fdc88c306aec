#include "mp.hpp"
VF_MONITOR(ops_2, 2500, 100000, VF_NO_LEAK_CHECK) { parts<unsigned short>(c); }
VF_MONITOR(text_2, 600, 20000, VF_NO_LEAK_CHECK) { mp_text<core::MulPrecInt<unsigned short, 1, true>>(c); mp_text<core::MulPrecInt<unsigned short, 3, true>>(c); mp_text<core::MulPrecInt<unsigned short, 2, false>>(c); }
