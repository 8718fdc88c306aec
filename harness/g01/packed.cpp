#include "g.hpp"
using namespace g01;

namespace {
using i8 = image::int8_type;
using i16 = image::int16_type;
using i32 = image::int32_type;
using i64 = image::int64_type;
using u8 = unsigned char;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64t = std::uint64_t;
using Lum = image::ChannelSpec_Lum;
using LumA = image::ChannelSpec_LumA;
using RGB = image::ChannelSpec_RGB;
using RGBA = image::ChannelSpec_RGBA;
template<int N, bool A> using Custom = image::CustomChannelSpec<N, A>;
template<int A, int B> using P1 = image::OneChannelPacking<A, B>;
template<int A, int B, int C, int D> using P2 = image::TwoChannelPacking<A, B, C, D>;
template<int A, int B, int C, int D, int E, int F> using P3 = image::ThreeChannelPacking<A, B, C, D, E, F>;
template<int A, int B, int C, int D, int E, int F, int G, int H>
using P4 = image::FourChannelPacking<A, B, C, D, E, F, G, H>;
template<class C, class S, class P, class W = S, int B = image::bit_width<W>, int D = 1, E O = big, bool F = false,
         bool G = false>
using Pack = image::PackedPixelFormat<C, S, P, W, B, D, O, F, G>;
template<class C, class W, int B, int D, E O = big, bool F = false, bool G = false, bool H = true>
using Sub = image::SubwordPixelFormat<C, W, B, D, O, F, G, H>;

const Entry packed[] = {
    FMT(Pack<RGB, i8, image::ChannelPacking_332>),
    FMT(Pack<RGB, i8, image::ChannelPacking_233>),
    FMT(Pack<RGB, i16, image::ChannelPacking_555>),
    FMT(Pack<RGB, i16, image::ChannelPacking_565>),
    FMT(Pack<RGB, i16, image::ChannelPacking_565, i8, 8, 2, big>),
    FMT(Pack<RGB, i16, image::ChannelPacking_565, i8, 8, 2, little>),
    FMT(Pack<RGB, i32, image::ChannelPacking_888>),
    FMT(Pack<RGB, i32, image::ChannelPacking_888, i8, 8, 3, little>),
    FMT(Pack<RGBA, i16, image::ChannelPacking_4444>),
    FMT(Pack<RGBA, i16, image::ChannelPacking_5551, i16, 16, 1, big, true, false>),
    FMT(Pack<RGBA, i16, image::ChannelPacking_5551, i16, 16, 1, big, false, true>),
    FMT(Pack<RGBA, i32, image::ChannelPacking_8888>),
    FMT(Pack<RGBA, i32, image::ChannelPacking_8888, i32, 32, 1, big, true, true>),
    FMT(Pack<RGBA, u32, image::ChannelPacking_8888, u8, 8, 4, little, true, false>),
    FMT(Pack<Lum, i8, P1<5, 2>>),
    FMT(Pack<Lum, i64, P1<64, 0>>),
    FMT(Pack<Lum, i64, P1<17, 47>>),
    FMT(Pack<LumA, i8, P2<1, 3, 4, 0>>),
    FMT(Pack<LumA, i32, P2<16, 0, 16, 0>>),
    FMT(Pack<LumA, i32, P2<31, 0, 1, 0>>),
    FMT(Pack<LumA, u64t, P2<32, 0, 32, 0>, u8, 8, 8, big, true, false>),
    FMT(Pack<RGB, i32, P3<1, 1, 2, 3, 5, 8>>),
    FMT(Pack<RGB, i64, P3<21, 0, 21, 1, 21, 0>>),
    FMT(Pack<RGB, i64, P3<21, 0, 20, 0, 22, 0>, i16, 16, 4, little, false, true>),
    FMT(Pack<RGB, i64, P3<10, 0, 11, 0, 10, 0>, i16, 13, 3>),
    FMT(Pack<RGB, u16, P3<5, 0, 5, 0, 5, 1>, u8, 8, 2, little>),
    FMT(Pack<RGBA, i32, P4<10, 0, 10, 0, 10, 0, 2, 0>>),
    FMT(Pack<RGBA, i32, P4<2, 0, 10, 0, 10, 0, 10, 0>, i32, 32, 1, big, true, false>),
    FMT(Pack<RGBA, i32, P4<1, 0, 2, 3, 4, 5, 6, 7>, i16, 16, 2, little>),
    FMT(Pack<RGBA, i64, P4<16, 0, 16, 0, 16, 0, 16, 0>>),
    FMT(Pack<RGBA, i64, P4<17, 0, 16, 0, 15, 0, 16, 0>, i32, 32, 2, little, false, true>),
    FMT(Pack<RGBA, i16, P4<1, 0, 1, 0, 1, 0, 1, 0>, i8, 2, 2, big>),
    FMT(Pack<RGBA, i8, P4<2, 0, 2, 0, 2, 0, 2, 0>, bool, 1, 8, little>),
    FMT(Pack<Custom<3, true>, u16, P4<3, 1, 3, 1, 3, 1, 3, 1>>),
    FMT(Pack<Custom<2, true>, i32, P3<7, 2, 9, 0, 12, 1>, i32, 31, 1, big, true, true>),
};

const Entry subword[] = {
    FMT(Sub<Lum, i8, 1, 8>),
    FMT(Sub<Lum, i8, 1, 8, little>),
    FMT(Sub<Lum, i8, 1, 8, big, false, false, false>),
    FMT(Sub<Lum, i8, 1, 8, little, false, false, false>),
    FMT(Sub<Lum, i8, 2, 4>),
    FMT(Sub<Lum, u8, 4, 2, little, false, false, false>),
    FMT(Sub<Lum, i8, 8, 1>),
    FMT(Sub<Lum, i8, 1, 5>),
    FMT(Sub<Lum, i8, 3, 2, little>),
    FMT(Sub<Lum, i16, 5, 3, big, false, false, false>),
    FMT(Sub<LumA, i8, 1, 4>),
    FMT(Sub<LumA, i8, 2, 2, little, true, false>),
    FMT(Sub<LumA, u16, 4, 2, big, false, true, false>),
    FMT(Sub<RGB, i8, 2, 1>),
    FMT(Sub<RGB, i8, 1, 2, little, false, true>),
    FMT(Sub<RGB, i16, 2, 2, big, false, false, false>),
    FMT(Sub<RGB, i32, 5, 2>),
    FMT(Sub<RGB, i64, 10, 2, little>),
    FMT(Sub<RGB, i64, 21, 1>),
    FMT(Sub<RGBA, i8, 1, 2, big, true, false>),
    FMT(Sub<RGBA, i8, 2, 1, big, true, true>),
    FMT(Sub<RGBA, i16, 4, 1, little, true, false, false>),
    FMT(Sub<RGBA, i32, 2, 4, little, false, true, false>),
    FMT(Sub<RGBA, i32, 8, 1, big, true, false>),
    FMT(Sub<RGBA, i64, 16, 1>),
    FMT(Sub<RGBA, i64, 8, 2, little, false, false, false>),
    FMT(Sub<RGBA, std::uint64_t, 1, 16, big, false, true, false>),
    FMT(Sub<Lum, i64, 1, 64, little, false, false, false>),
    FMT(Sub<Lum, i64, 17, 3, big>),
    FMT(Sub<LumA, i64, 32, 1>),
    FMT(Sub<LumA, i64, 18, 1, little, true, false, false>),
    FMT(Sub<Lum, i32, 32, 1>),
    FMT(Sub<Lum, bool, 1, 1>),
    FMT(Sub<Custom<5, false>, i32, 3, 2, little, false, true, false>),
    FMT(Sub<Custom<2, true>, i16, 1, 5, big, true, false>),
};
} // namespace

VF_MONITOR(packed_formats, 3500, 150000)
{
    dispatch(c, packed);
}

VF_MONITOR(subword_formats, 3500, 150000)
{
    dispatch(c, subword);
}
