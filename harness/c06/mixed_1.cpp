#include "mp.hpp"
using A = core::MulPrecInt<unsigned char, 1, true>;
using B = core::MulPrecInt<unsigned short, 3, false>;
using D = core::MulPrecInt<unsigned long, 2, true>;
template<class T, class... F> void mixed(vf::Case& c) { (mp_mixed<T, F>(c), ...); }
template<class X> void around(vf::Case& c)
{
    mixed<X, bool, signed char, unsigned char, unsigned short, int, long, unsigned long>(c);
    mp_mixed<signed char, X>(c);
    mp_mixed<unsigned, X>(c);
    mp_mixed<long, X>(c);
    mp_mixed<unsigned long, X>(c);
}
VF_MONITOR(mixed_a, 1500, 50000, VF_NO_LEAK_CHECK) { around<A>(c); c.nontrivial(c.rng.next()); }
VF_MONITOR(mixed_b, 1500, 50000, VF_NO_LEAK_CHECK) { around<B>(c); c.nontrivial(c.rng.next()); }
VF_MONITOR(mixed_d, 1500, 50000, VF_NO_LEAK_CHECK) { around<D>(c); c.nontrivial(c.rng.next()); }
