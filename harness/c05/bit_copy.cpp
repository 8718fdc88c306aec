// C05: copying of bits between arrays of integers of different width
#include <array>
#include <vector>
#include <archon/core/integer.hpp>
#include "vf.hpp"

namespace core = archon::core;

namespace {

template<bool sign, class T, std::size_t N, class U, std::size_t M> void copy(vf::Case& c, vf::Hash& h)
{
    constexpr std::size_t w_1 = std::size_t(std::numeric_limits<T>::digits);
    constexpr std::size_t w_2 = std::size_t(std::numeric_limits<U>::digits);
    std::array<T, N> a = {};
    for (T& x : a)
        x = T(c.rng.chance(1, 4) ? 0 : c.rng.chance(1, 4) ? ~T(0) : c.rng.next());
    // Bits, least significant first
    std::vector<bool> bits;
    for (T x : a)
        for (std::size_t i = 0; i < w_1; ++i)
            bits.push_back((x >> i & 1) != 0);
    bool ext = (sign && bits.back());
    bits.resize(M * w_2, ext);
    std::array<U, M> want = {};
    for (std::size_t i = 0; i < M * w_2; ++i)
        if (bits[i])
            want[i / w_2] = U(want[i / w_2] | U(U(1) << i % w_2));
    std::array<U, M> got = {};
    for (U& x : got)
        x = U(c.rng.next()); // Must be overwritten
    core::int_bit_copy<sign>(a, got);
    for (std::size_t i = 0; i < M; ++i)
        VF_EQ(got[i], want[i], "bit-copy", "Part " << i << " when going from " << N << " parts of " << w_1 << " bits to "
              << M << " parts of " << w_2 << " bits, sign = " << sign);
    c.event(ext && M * w_2 > N * w_1 ? "sign_extended" : "copied", 1);
    for (T x : a)
        h.add(std::uint64_t(x));
}

template<class T, std::size_t N, class U> void counts(vf::Case& c, vf::Hash& h)
{
    copy<false, T, N, U, 1>(c, h);
    copy<true, T, N, U, 1>(c, h);
    copy<false, T, N, U, 2>(c, h);
    copy<true, T, N, U, 2>(c, h);
    copy<false, T, N, U, 3>(c, h);
    copy<true, T, N, U, 3>(c, h);
    copy<false, T, N, U, 7>(c, h);
    copy<true, T, N, U, 7>(c, h);
    copy<true, T, N, U, 16>(c, h);
}

template<class T, class U> void types(vf::Case& c, vf::Hash& h)
{
    counts<T, 1, U>(c, h);
    counts<T, 2, U>(c, h);
    counts<T, 5, U>(c, h);
    counts<T, 8, U>(c, h);
}

template<class T> void all(vf::Case& c, vf::Hash& h)
{
    types<T, unsigned char>(c, h);
    types<T, unsigned short>(c, h);
    types<T, unsigned>(c, h);
    types<T, unsigned long>(c, h);
}

} // unnamed namespace

VF_MONITOR(bit_copy, 400, 20000)
{
    vf::Hash h;
    all<unsigned char>(c, h);
    all<unsigned short>(c, h);
    all<unsigned>(c, h);
    all<unsigned long>(c, h);
    c.nontrivial(h.get());
}
