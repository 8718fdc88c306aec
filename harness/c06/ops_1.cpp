#include "mp.hpp"
VF_MONITOR(ops_1, 2500, 100000, VF_NO_LEAK_CHECK) { parts<unsigned char>(c); }
VF_MONITOR(text_1, 600, 20000, VF_NO_LEAK_CHECK) { mp_text<core::MulPrecInt<unsigned char, 1, true>>(c); mp_text<core::MulPrecInt<unsigned char, 3, true>>(c); mp_text<core::MulPrecInt<unsigned char, 2, false>>(c); }
