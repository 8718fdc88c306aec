#include "g.hpp"
using namespace g01;

namespace {
using i8 = image::int8_type;
using i16 = image::int16_type;
using i32 = image::int32_type;
using i64 = image::int64_type;
using u8 = unsigned char;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using Lum = image::ChannelSpec_Lum;
using LumA = image::ChannelSpec_LumA;
using RGB = image::ChannelSpec_RGB;
using RGBA = image::ChannelSpec_RGBA;
template<int N, bool A> using Custom = image::CustomChannelSpec<N, A>;
template<class C, class W, int B, class S = W, int D = 1, E O = big, bool F = false, bool G = false>
using Int = image::IntegerPixelFormat<C, W, B, S, D, O, F, G>;

const Entry formats[] = {
    FMT(Int<Lum, i8, 8>),
    FMT(Int<LumA, i8, 8>),
    FMT(Int<RGB, i8, 8>),
    FMT(Int<RGBA, i8, 8>),
    FMT(Int<RGBA, i8, 8, i8, 1, big, true, false>),
    FMT(Int<RGBA, i8, 8, i8, 1, big, false, true>),
    FMT(Int<RGBA, i8, 8, i8, 1, big, true, true>),
    FMT(Int<RGB, i8, 8, i8, 1, big, true, true>),
    FMT(Int<Lum, i16, 16>),
    FMT(Int<RGB, i16, 16>),
    FMT(Int<RGBA, i16, 16, i16, 1, little, false, true>),
    FMT(Int<RGB, i32, 32>),
    FMT(Int<RGBA, i32, 32>),
    FMT(Int<LumA, u32, 32>),
    FMT(Int<RGBA, i64, 64>),
    FMT(Int<Lum, unsigned long long, 64>),
    FMT(Int<RGB, i8, 1>),
    FMT(Int<RGBA, i8, 3>),
    FMT(Int<LumA, u8, 7>),
    FMT(Int<RGB, signed char, 8>),
    FMT(Int<RGBA, u8, 8, int, 1, little, true, false>),
    FMT(Int<RGB, i16, 8>),
    FMT(Int<RGB, i16, 12>),
    FMT(Int<RGBA, u16, 15>),
    FMT(Int<RGBA, i8, 8, i16, 2, big>),
    FMT(Int<RGBA, i8, 8, i16, 2, little>),
    FMT(Int<LumA, i8, 8, i32, 3, big, true, false>),
    FMT(Int<RGB, i8, 8, i32, 4, little, false, true>),
    FMT(Int<RGBA, u8, 7, i64, 9, big>),
    FMT(Int<Lum, i8, 8, i64, 8, little>),
    FMT(Int<RGB, i8, 3, i16, 3, little>),
    FMT(Int<RGBA, i16, 5, u8, 1, big, true, true>),
    FMT(Int<RGB, i16, 9, i32, 2, little>),
    FMT(Int<RGBA, i16, 16, i64, 4, big, false, true>),
    FMT(Int<RGBA, i32, 24, i32>),
    FMT(Int<RGB, i32, 17, i64, 2, big>),
    FMT(Int<Lum, i32, 31>),
    FMT(Int<RGBA, bool, 1, int>),
    FMT(Int<RGB, bool, 1, int, 5, little>),
    FMT(Int<Custom<5, true>, i8, 8>),
    FMT(Int<Custom<5, true>, i16, 11, i16, 1, big, true, false>),
    FMT(Int<Custom<2, false>, i8, 6, i16, 2, little, false, true>),
    FMT(Int<Custom<2, true>, i32, 20, i32, 1, little, true, true>),
    FMT(Int<Custom<1, true>, wchar_t, 30>),
    FMT(Int<RGBA, char16_t, 16>),
    FMT(Int<RGBA, long, 33>),
};
} // namespace

VF_MONITOR(integer_formats, 4600, 200000)
{
    dispatch(c, formats);
}
