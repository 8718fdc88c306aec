#include "images.hpp"

namespace g04 {
namespace {
using i8 = image::int8_type;
using i16 = image::int16_type;
using i32 = image::int32_type;
using u8 = unsigned char;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using Lum = image::ChannelSpec_Lum;
using LumA = image::ChannelSpec_LumA;
using RGB = image::ChannelSpec_RGB;
using RGBA = image::ChannelSpec_RGBA;
using E = core::Endianness;
constexpr E big = E::big, little = E::little;
template<class C, class W, int B, class S = W, int D = 1, E O = big, bool F = false, bool G = false>
using Int = image::IntegerPixelFormat<C, W, B, S, D, O, F, G>;
template<class C, class W, int B, int D, E O = big, bool F = false, bool G = false, bool H = true>
using Sub = image::SubwordPixelFormat<C, W, B, D, O, F, G, H>;
template<class C, class S, class P, class W = S, int B = image::bit_width<W>, int D = 1, E O = big, bool F = false, bool G = false>
using Pack = image::PackedPixelFormat<C, S, P, W, B, D, O, F, G>;
template<class S, int M, int N = 1, E A = big, class W = S, int B = image::bit_width<W>, int D = 1, E O = big, bool H = true>
using Idx = image::IndexedPixelFormat<S, M, N, A, W, B, D, O, H>;

template<class F> auto make(vf::Rng& rng, image::Size size, F format = {}) -> std::shared_ptr<image::BufferedImage<F>>
{
    auto img = std::make_shared<image::BufferedImage<F>>(size, std::move(format));
    bool dull = rng.chance(1, 3);
    std::uint64_t a = rng.next(), b = rng.next();
    for (auto& w : img->get_buffer()) {
        using W = typename F::word_type;
        std::uint64_t v = dull ? (rng.chance(1, 2) ? a : b) : rng.next();
        using U = std::make_unsigned_t<decltype(core::promote(W()))>;
        U u = U(v);
        if constexpr (F::bits_per_word < 64)
            u = U(u & ((std::uint64_t(1) << F::bits_per_word) - 1));
        w = W(u);
    }
    return img;
}

template<class F> void simple(vf::Rng& rng, image::Size size, Subject& s)
{
    auto img = make<F>(rng, size);
    s.image = img.get();
    s.keep.push_back(img);
}

template<class F> void indexed(vf::Rng& rng, image::Size size, Subject& s)
{
    auto pal = std::make_shared<g02::Img>();
    pal->size = rng.chance(1, 2) ? image::Size { 16, 16 } : image::Size { 256, 1 };
    pal->format = { rng.pick({ CompRepr::int8, CompRepr::int16, CompRepr::float_ }), int(rng.below(2)), rng.chance(1, 2) };
    pal->populate(rng);
    auto img = make<F>(rng, size, F(*pal));
    s.image = img.get();
    s.keep.push_back(pal);
    s.keep.push_back(img);
}

// An image with nothing but the required interface, claiming any bit depth
struct Plain : g02::Img {
    int depth = 8;
    auto get_transfer_info() const -> TransferInfo override
    {
        return { format.repr, &g02::space(format.space), format.alpha, depth };
    }
};

void plain_image(vf::Rng& rng, image::Size size, Subject& s)
{
    auto img = std::make_shared<Plain>();
    img->size = size;
    img->format = g02::any_format(rng);
    img->populate(rng);
    img->depth = img->format.repr == CompRepr::int8 ? 8 : 16;
    if (img->format.repr == CompRepr::int8 && rng.chance(1, 3)) {
        img->depth = 1 + int(rng.below(8));
        if (img->format.space == 0 && !img->format.alpha && img->depth <= 4) {
            // Values with the claimed precision
            int b = img->depth == 3 ? 4 : img->depth, m = (1 << b) - 1;
            for (auto& px : img->pixels)
                px[0] = double(rng.below(std::uint64_t(m) + 1) * std::uint64_t(255 / m));
        }
    }
    s.image = img.get();
    s.keep.push_back(img);
}

void computed(vf::Rng& rng, image::Size size, Subject& s)
{
    std::uint64_t salt = rng.next();
    auto img = std::make_shared<image::ComputedImage<image::Pixel_RGBA_16::repr_type, std::function<image::Pixel_RGBA_16(image::Pos)>>>(
        size, [salt](image::Pos pos) {
            vf::Rng r(vf::Hash().add(salt).add(pos.x).add(pos.y).get());
            using T = image::int16_type;
            auto v = [&] { return image::comp_repr_pack<CompRepr::int16>(std::uint16_t(r.next())); };
            T a = v(), b = v(), c = v(), d = v();
            return image::Pixel_RGBA_16(std::array<T, 4> { a, b, c, d });
        });
    s.image = img.get();
    s.keep.push_back(img);
}

struct Entry {
    const char* name;
    void (*func)(vf::Rng&, image::Size, Subject&);
};
#define S_(...) { #__VA_ARGS__, &simple<__VA_ARGS__> }
#define I_(...) { #__VA_ARGS__, &indexed<__VA_ARGS__> }
const Entry entries[] = {
    S_(Int<Lum, i8, 8>), S_(Int<LumA, i8, 8>), S_(Int<RGB, i8, 8>), S_(Int<RGBA, i8, 8>),
    S_(Int<LumA, i8, 8, i8, 1, big, true, false>), S_(Int<LumA, i8, 8, i8, 1, big, false, true>),
    S_(Int<LumA, i8, 8, i8, 1, big, true, true>),
    S_(Int<RGBA, i8, 8, i8, 1, big, true, false>), S_(Int<RGBA, i8, 8, i8, 1, big, false, true>),
    S_(Int<RGBA, i8, 8, i8, 1, big, true, true>), S_(Int<RGB, i8, 8, i8, 1, big, true, true>),
    S_(Int<RGB, i8, 8, i8, 1, little, false, true>), S_(Int<Lum, i8, 8, i8, 1, little, true, true>),
    S_(Int<Lum, i8, 8, i16, 2, big>), S_(Int<LumA, i8, 8, i16, 2, little>), S_(Int<RGB, i8, 8, i16, 2, little, false, true>),
    S_(Int<RGBA, i8, 8, i16, 2, big, true, false>), S_(Int<RGBA, i8, 8, i16, 2, little, true, true>),
    S_(Int<RGBA, i8, 8, i16, 2, little, false, true>),
    S_(Int<LumA, i8, 8, i16, 2, little, true, false>),
    S_(Int<Lum, i16, 16>), S_(Int<LumA, i16, 16>), S_(Int<RGB, i16, 16>), S_(Int<RGBA, i16, 16>),
    S_(Int<LumA, i16, 16, i16, 1, big, true, false>), S_(Int<RGBA, i16, 16, i16, 1, little, false, true>),
    S_(Int<RGB, i16, 8>), S_(Int<RGBA, u16, 15>), S_(Int<LumA, u8, 7>), S_(Int<RGB, i8, 1>), S_(Int<Lum, i8, 1>), S_(Int<Lum, i8, 3>),
    S_(Int<RGB, i32, 32>), S_(Int<RGB, i8, 8, i32, 4, little>), S_(Int<Lum, i8, 8, i32, 3>),
    S_(Sub<Lum, i8, 1, 8>), S_(Sub<Lum, i8, 1, 8, little>), S_(Sub<Lum, i8, 2, 4>), S_(Sub<Lum, i8, 2, 4, little>),
    S_(Sub<Lum, i8, 4, 2>), S_(Sub<Lum, i8, 4, 2, little>),
    S_(Sub<Lum, i8, 1, 8, big, false, false, false>), S_(Sub<Lum, i8, 2, 4, little, false, false, false>),
    S_(Sub<Lum, i8, 4, 2, big, false, false, false>), S_(Sub<Lum, i8, 1, 8, little, false, false, false>),
    S_(Sub<Lum, i8, 1, 4>), S_(Sub<Lum, i8, 3, 2>), S_(Sub<LumA, i8, 1, 4>), S_(Sub<RGB, i8, 2, 1>), S_(Sub<Lum, i16, 1, 16>),
    S_(Sub<Lum, i16, 1, 8>), S_(Sub<Lum, i32, 4, 2>), S_(Sub<RGBA, i8, 1, 2>),
    S_(Pack<RGB, i8, image::ChannelPacking_332>), S_(Pack<RGB, i16, image::ChannelPacking_565>),
    S_(Pack<RGBA, i32, image::ChannelPacking_8888>),
    S_(Pack<RGB, i32, image::ChannelPacking_888, i8, 8, 3, big>), S_(Pack<RGB, i32, image::ChannelPacking_888, i8, 8, 3, little>),
    S_(Pack<RGBA, i32, image::ChannelPacking_8888, i8, 8, 4, little, true, false>), S_(Pack<LumA, i16, image::ChannelPacking_88, i8, 8, 2, little, false, true>),
    S_(Pack<RGBA, i32, image::ChannelPacking_8888, i16, 16, 2, little>), S_(Pack<Lum, i8, image::ChannelPacking_8>),
    I_(Idx<i8, 8>), I_(Idx<i8, 1, 8>), I_(Idx<i8, 2, 4, little>), I_(Idx<i8, 4, 2, little, i8, 8, 1, big, false>),
};
} // unnamed namespace

Format native_format(const image::Image& img)
{
    auto info = img.get_transfer_info();
    return { info.comp_repr, g02::space_index(*info.color_space), info.has_alpha };
}

vector<Comps> raw(const image::Image& img, CompRepr repr, int channels)
{
    vector<Comps> out;
    image::Size size = img.get_size();
    g02::dispatch(repr, [&](auto tag) {
        constexpr CompRepr R = tag.comp_repr;
        using T = image::comp_type<R>;
        std::size_t n = std::size_t(size.width) * std::size_t(size.height);
        vector<T> buf(n * std::size_t(channels));
        image::Tray<T> tray { image::Iter<T> { buf.data(), channels, channels * std::ptrdiff_t(size.width) }, size };
        img.read({ 0, 0 }, tray);
        for (std::size_t i = 0; i < n; ++i) {
            Comps c;
            for (int k = 0; k < channels; ++k)
                c.push_back(g02::load<R>(buf[i * std::size_t(channels) + std::size_t(k)]));
            out.push_back(std::move(c));
        }
    });
    return out;
}

vector<g02::Color> native(const image::Image& img)
{
    Format f = native_format(img);
    vector<g02::Color> out;
    if (const image::Image* pal = img.get_palette()) {
        vector<Comps> entries = raw(*pal, f.repr, f.channels());
        for (const Comps& c : raw(img, CompRepr::int8, 1))
            out.push_back(g02::native_color(f, entries.at(std::size_t(c[0]))));
        return out;
    }
    for (const Comps& c : raw(img, f.repr, f.channels()))
        out.push_back(g02::native_color(f, c));
    return out;
}

Subject any_image(vf::Rng& rng, image::Size size, bool plain)
{
    Subject s;
    if (plain || rng.chance(1, 6)) {
        s.name = "plain";
        plain_image(rng, size, s);
    }
    else if (rng.chance(1, 20)) {
        s.name = "computed";
        computed(rng, size, s);
    }
    else {
        const Entry& e = entries[rng.below(std::size(entries))];
        s.name = e.name;
        e.func(rng, size, s);
    }
    s.format = native_format(*s.image);
    s.depth = s.image->get_transfer_info().bit_depth;
    return s;
}

} // namespace g04
