// Model of pixel storage, written from the documentation of the pixel formats: each channel of each
// pixel occupies a particular run of bits in a particular bit compound, and each bit compound is
// spread over words in a particular order. Every word of the buffer is compared with the model.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <vector>

#include "vf.hpp"
#include <archon/core/endianness.hpp>
#include <archon/image/bit_field.hpp>
#include <archon/image/buffer_format.hpp>
#include <archon/image/buffered_image.hpp>
#include <archon/image/color_space.hpp>
#include <archon/image/comp_repr.hpp>
#include <archon/image/channel_packing.hpp>
#include <archon/image/custom_channel_spec.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/palette_image.hpp>
#include <archon/image/standard_channel_spec.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/tray.hpp>

namespace g01 {
using namespace archon;
using u64 = std::uint64_t;
using E = core::Endianness;
constexpr E big = E::big, little = E::little;

template<class T> using unsigned_of = std::conditional_t<sizeof(T) == 1, std::uint8_t,
    std::conditional_t<sizeof(T) == 2, std::uint16_t,
    std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;

constexpr u64 mask(int n)
{
    return n >= 64 ? ~u64(0) : (u64(1) << n) - 1;
}

// Repetition or truncation of bit pattern
inline u64 rescale(u64 v, int n, int m)
{
    u64 r = 0;
    for (int i = 0; i < m; ++i) {
        int bit = n - 1 - i % n;
        r = (r << 1) | ((v >> bit) & 1);
    }
    return r;
}

inline double expand(double v)
{
    return v > 0.04045 ? std::pow((v + 0.055) / 1.055, 2.4) : v / 12.92;
}

inline double compress(double v)
{
    return v > 0.0031308 ? 1.055 * std::pow(v, 1 / 2.4) - 0.055 : 12.92 * v;
}

// Position of each canonical channel in stored order
inline std::vector<int> stored_order(int num_color, bool alpha, bool first, bool reverse)
{
    std::vector<int> order; // canonical channel at each stored position
    for (int i = 0; i < num_color; ++i)
        order.push_back(reverse ? num_color - 1 - i : i);
    if (alpha) {
        if (first != reverse)
            order.insert(order.begin(), num_color);
        else
            order.push_back(num_color);
    }
    std::vector<int> pos(order.size());
    for (std::size_t i = 0; i < order.size(); ++i)
        pos[order[i]] = int(i);
    return pos;
}

struct Layout {
    bool indexed = false;
    bool alpha = false;
    int n = 1;                    // channels per pixel
    int word_bits = 0;            // used bits per word
    int words_per_compound = 1;
    E word_order = big;
    bool comp_per_channel = false;
    int pixels_per_compound = 1;
    int bits_per_pixel = 0;
    E bit_order = big;
    bool aligned = true;
    std::vector<int> width, shift, pos; // per canonical channel
    int depth = 0;

    struct Loc { std::size_t compound; int shift; };

    std::size_t compounds_per_row(int w) const
    {
        return (std::size_t(w) + pixels_per_compound - 1) / pixels_per_compound;
    }

    std::size_t compounds(int w, int h) const
    {
        if (comp_per_channel)
            return std::size_t(w) * h * n;
        if (aligned)
            return compounds_per_row(w) * h;
        return (std::size_t(w) * h + pixels_per_compound - 1) / pixels_per_compound;
    }

    Loc locate(int x, int y, int w, int ch) const
    {
        std::size_t index = std::size_t(y) * w + x;
        if (comp_per_channel)
            return { index * n + pos[ch], 0 };
        std::size_t compound;
        int slot;
        if (aligned) {
            compound = y * compounds_per_row(w) + x / pixels_per_compound;
            slot = x % pixels_per_compound;
        }
        else {
            compound = index / pixels_per_compound;
            slot = int(index % pixels_per_compound);
        }
        if (bit_order == big)
            slot = pixels_per_compound - 1 - slot;
        return { compound, slot * bits_per_pixel + shift[ch] };
    }
};

template<class F> struct Describe;

template<class C, class W, int B, class S, int D, E O, bool F, bool G>
struct Describe<image::IntegerPixelFormat<C, W, B, S, D, O, F, G>> {
    static Layout get()
    {
        Layout l;
        l.alpha = C::has_alpha_channel;
        l.n = C::num_channels;
        l.word_bits = B;
        l.words_per_compound = D;
        l.word_order = O;
        l.comp_per_channel = true;
        l.pos = stored_order(l.n - int(l.alpha), l.alpha, F, G);
        l.width.assign(l.n, B * D);
        l.shift.assign(l.n, 0);
        l.depth = B * D;
        return l;
    }
};

template<class C, class S, class P, class W, int B, int D, E O, bool F, bool G>
struct Describe<image::PackedPixelFormat<C, S, P, W, B, D, O, F, G>> {
    static Layout get()
    {
        Layout l;
        l.alpha = C::has_alpha_channel;
        l.n = C::num_channels;
        l.word_bits = B;
        l.words_per_compound = D;
        l.word_order = O;
        l.bits_per_pixel = B * D;
        l.pos = stored_order(l.n - int(l.alpha), l.alpha, F, G);
        l.width.resize(l.n);
        l.shift.resize(l.n);
        int shift = 0;
        std::vector<int> shifts(l.n);
        for (int i = l.n - 1; i >= 0; --i) {
            shift += P::fields[i].gap;
            shifts[i] = shift;
            shift += P::fields[i].width;
        }
        for (int i = 0; i < l.n; ++i) {
            l.width[i] = P::fields[l.pos[i]].width;
            l.shift[i] = shifts[l.pos[i]];
            l.depth = std::max(l.depth, l.width[i]);
        }
        return l;
    }
};

template<class C, class W, int B, int D, E O, bool F, bool G, bool H>
struct Describe<image::SubwordPixelFormat<C, W, B, D, O, F, G, H>> {
    static Layout get()
    {
        Layout l;
        l.alpha = C::has_alpha_channel;
        l.n = C::num_channels;
        l.word_bits = B * D * l.n;
        l.pixels_per_compound = D;
        l.bits_per_pixel = B * l.n;
        l.bit_order = O;
        l.aligned = H;
        l.pos = stored_order(l.n - int(l.alpha), l.alpha, F, G);
        l.width.assign(l.n, B);
        l.shift.resize(l.n);
        for (int i = 0; i < l.n; ++i)
            l.shift[i] = (l.n - 1 - l.pos[i]) * B;
        l.depth = B;
        return l;
    }
};

template<class S, int M, int N, E A, class W, int B, int D, E O, bool H>
struct Describe<image::IndexedPixelFormat<S, M, N, A, W, B, D, O, H>> {
    static Layout get()
    {
        Layout l;
        l.indexed = true;
        l.word_bits = B;
        l.words_per_compound = D;
        l.word_order = O;
        l.pixels_per_compound = N;
        l.bits_per_pixel = M;
        l.bit_order = A;
        l.aligned = H;
        l.pos = { 0 };
        l.width = { M };
        l.shift = { 0 };
        l.depth = M;
        return l;
    }
};

// A rectangular arrangement of pixels in memory with arbitrary strides
template<class T> struct Store {
    std::vector<T> mem;
    std::ptrdiff_t base = 0, hs = 0, vs = 0;
    image::Size size;
    int n;

    Store(vf::Case& c, image::Size s, int n_2, T sentinel)
        : size(s)
        , n(n_2)
    {
        std::ptrdiff_t gap_1 = c.rng.chance(1, 2) ? 0 : std::ptrdiff_t(c.rng.below(4));
        std::ptrdiff_t gap_2 = c.rng.chance(1, 2) ? 0 : std::ptrdiff_t(c.rng.below(7));
        if (c.rng.chance(1, 4)) {
            // Column by column
            vs = n + gap_1;
            hs = vs * s.height + gap_2;
        }
        else {
            hs = n + gap_1;
            vs = hs * s.width + gap_2;
        }
        if (c.rng.chance(1, 4))
            hs = -hs;
        if (c.rng.chance(1, 4))
            vs = -vs;
        std::ptrdiff_t lo = 0, hi = 0;
        if (!s.is_empty()) {
            std::ptrdiff_t dx = hs * (s.width - 1), dy = vs * (s.height - 1);
            lo = std::min<std::ptrdiff_t>(dx, 0) + std::min<std::ptrdiff_t>(dy, 0);
            hi = std::max<std::ptrdiff_t>(dx, 0) + std::max<std::ptrdiff_t>(dy, 0) + n;
        }
        base = -lo;
        mem.assign(std::size_t(hi - lo), sentinel);
        mem.shrink_to_fit();
    }

    std::size_t at(int x, int y) const
    {
        return std::size_t(base + x * hs + y * vs);
    }

    auto iter() -> image::Iter<T>
    {
        return { mem.data() + base, hs, vs };
    }

    auto tray() -> image::Tray<T>
    {
        return { iter(), size };
    }
};

template<class F> auto make_format(const image::Image* palette, const image::ColorSpace* cs) -> F
{
    if constexpr (F::is_indexed_color) {
        return F(*palette);
    }
    else if constexpr (std::is_constructible_v<typename F::channel_spec_type, const image::ColorSpace&>) {
        return F(typename F::channel_spec_type(*cs));
    }
    else {
        (void)cs;
        return F();
    }
}

class DummyColorSpace final : public image::ColorSpace {
public:
    DummyColorSpace(int n) noexcept
        : image::ColorSpace(n)
    {
    }
    void from_rgb(const comp_type*, comp_type*, comp_type) const override {}
    void to_rgb(const comp_type*, comp_type*, comp_type) const override {}
};

template<class F> void run_format(vf::Case& c, const char* name)
{
    using W = typename F::word_type;
    using UW = unsigned_of<W>;
    Layout l = Describe<F>::get();
    constexpr image::CompRepr repr = F::transf_repr;
    using T = image::comp_type<repr>;
    constexpr bool is_float = std::is_floating_point_v<T>;
    constexpr int nb = is_float ? 0 : repr == image::CompRepr::int8 ? 8 : 16;
    VF_REQUIRE(l.indexed ? repr == image::CompRepr::int8 : repr == (l.depth <= 8 ? image::CompRepr::int8 :
               l.depth <= 16 ? image::CompRepr::int16 : image::CompRepr::float_), "transfer-repr", name);
    static_assert(std::is_same_v<T, char> || std::is_same_v<T, std::int_least16_t> || std::is_same_v<T, float>);
    int max_w = c.thorough ? 60 : 20, max_h = c.thorough ? 20 : 7;
    int w = c.rng.chance(1, 20) ? 0 : 1 + int(c.rng.below(max_w));
    int h = c.rng.chance(1, 20) ? 0 : 1 + int(c.rng.below(max_h));
    if (c.rng.chance(1, 10))
        w = 1;
    image::Size size(w, h);
    static const image::Pixel_RGBA_8 colors[3] = {};
    static const image::PaletteImage<image::RGBA_8> palette(colors);
    static const DummyColorSpace color_spaces[] = { 1, 2, 3, 4, 5, 6 };
    const image::ColorSpace* cs = &color_spaces[std::max(0, l.n - int(l.alpha) - 1)];
    std::size_t num_words = l.compounds(w, h) * l.words_per_compound;
    VF_EQ(F::get_buffer_size(size), num_words, "buffer-size", name << " " << w << "x" << h);

    // Model
    std::vector<u64> vals(std::size_t(w) * h * l.n);
    auto val = [&](int x, int y, int ch) -> u64& { return vals[(std::size_t(y) * w + x) * l.n + ch]; };
    bool start_random = c.rng.chance(2, 3);
    if (start_random) {
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                for (int ch = 0; ch < l.n; ++ch)
                    val(x, y, ch) = c.rng.next() & mask(l.width[ch]);
    }
    std::vector<UW> expect;
    auto encode = [&] {
        std::vector<u64> comps(l.compounds(w, h));
        for (int y = 0; y < h; ++y) {
            for (int x = 0; x < w; ++x) {
                for (int ch = 0; ch < l.n; ++ch) {
                    auto loc = l.locate(x, y, w, ch);
                    comps[loc.compound] |= val(x, y, ch) << loc.shift;
                }
            }
        }
        expect.assign(num_words, 0);
        for (std::size_t i = 0; i < comps.size(); ++i) {
            for (int j = 0; j < l.words_per_compound; ++j) {
                int k = l.word_order == little ? j : l.words_per_compound - 1 - j; // significance
                int s = k * l.word_bits;
                u64 v = s >= 64 ? 0 : comps[i] >> s;
                expect[i * l.words_per_compound + j] = UW(v & mask(l.word_bits));
            }
        }
    };
    encode();

    // Image
    std::size_t extra = 0;
    std::unique_ptr<W[]> memory; // When the image does not own the buffer
    std::unique_ptr<image::BufferedImage<F>> img;
    int ctor = start_random ? 1 + int(c.rng.below(2)) : int(c.rng.below(3));
    constexpr auto sentinel = W(0x5A);
    if (ctor == 0) {
        img = std::make_unique<image::BufferedImage<F>>(size, make_format<F>(&palette, cs));
    }
    else {
        extra = c.rng.chance(1, 3) ? c.rng.below(9) : 0;
        memory.reset(new W[num_words + extra]);
        for (std::size_t i = 0; i < num_words; ++i)
            std::memcpy(&memory[i], &expect[i], sizeof(W));
        std::fill(memory.get() + num_words, memory.get() + num_words + extra, sentinel);
        if (num_words != 0 && c.rng.chance(1, 4)) {
            std::size_t too_small = c.rng.below(num_words);
            bool failed = false;
            try {
                image::BufferedImage<F> img_2(size, core::Span<W>(memory.get(), too_small),
                                              make_format<F>(&palette, cs));
            }
            catch (const std::invalid_argument&) {
                failed = true;
            }
            VF_REQUIRE(failed, "too-small-buffer-accepted", name << " " << w << "x" << h << " words=" << too_small);
            c.event("too-small-buffers");
        }
        if (ctor == 1) {
            img = std::make_unique<image::BufferedImage<F>>(size, core::Span<W>(memory.get(), num_words + extra),
                                                            make_format<F>(&palette, cs));
        }
        else {
            img = std::make_unique<image::BufferedImage<F>>(size, std::move(memory), num_words + extra,
                                                            make_format<F>(&palette, cs));
        }
    }
    auto buffer = img->get_buffer();
    auto info = [&](std::ostream& out) {
        out << name << " size=" << w << "x" << h << " ctor=" << ctor << " extra=" << extra;
    };
    VF_REQUIRE(img->get_size() == size, "image-size", info);
    VF_REQUIRE(size.is_empty() || buffer.size() == num_words + extra, "image-buffer-size", info);
    {
        auto ti = img->get_transfer_info();
        if (l.indexed) {
            VF_REQUIRE(img->get_palette() == &palette, "palette", info);
            VF_REQUIRE(ti.comp_repr == image::CompRepr::int8 && ti.has_alpha && ti.color_space->is_rgb() &&
                       ti.bit_depth == 8 && ti.get_num_channels() == 4, "indexed-transfer-info", info);
        }
        else {
            VF_REQUIRE(!img->get_palette(), "palette", info);
            VF_REQUIRE(ti.comp_repr == repr && ti.has_alpha == l.alpha && ti.bit_depth == l.depth &&
                       ti.get_num_channels() == l.n, "transfer-info", info);
            VF_REQUIRE(ti.color_space->get_num_channels() == l.n - int(l.alpha), "transfer-color-space", info);
        }
        image::BufferFormat bf;
        const void* data = nullptr;
        void* data_2 = nullptr;
        if (img->try_get_buffer(bf, data))
            VF_REQUIRE(data == buffer.data(), "buffer-access", info);
        if (img->try_get_writable_buffer(bf, data_2))
            VF_REQUIRE(data_2 == buffer.data(), "writable-buffer-access", info);
    }
    image::WritableImage& wi = *img;

    auto stored = [&](int x, int y, int ch) {
        auto loc = l.locate(x, y, w, ch);
        u64 v = 0;
        for (int j = 0; j < l.words_per_compound; ++j) {
            int k = l.word_order == little ? j : l.words_per_compound - 1 - j;
            UW word;
            std::memcpy(&word, &buffer[loc.compound * l.words_per_compound + j], sizeof(UW));
            if (k * l.word_bits < 64)
                v |= (u64(word) & mask(l.word_bits)) << (k * l.word_bits);
        }
        return (v >> loc.shift) & mask(l.width[ch]);
    };
    auto check_buffer = [&](const char* key, auto&& what) {
        if (size.is_empty())
            return;
        encode();
        for (std::size_t i = 0; i < num_words; ++i) {
            UW word;
            std::memcpy(&word, &buffer[i], sizeof(UW));
            VF_REQUIRE(word == expect[i], key, info << " word " << i << " is " << u64(word) << ", expected "
                       << u64(expect[i]) << " after " << what);
        }
        for (std::size_t i = 0; i < extra; ++i)
            VF_REQUIRE(buffer[num_words + i] == sentinel, "beyond-pixels", info << " after " << what);
        c.event("buffer-comparisons");
    };
    auto random_box = [&] {
        image::Box b;
        b.pos = { int(c.rng.below(w + 1)), int(c.rng.below(h + 1)) };
        if (c.rng.chance(1, 5))
            b.pos = {};
        b.size = { int(c.rng.below(w - b.pos.x + 1)), int(c.rng.below(h - b.pos.y + 1)) };
        if (c.rng.chance(1, 5))
            b.size = { w - b.pos.x, h - b.pos.y };
        if (c.rng.chance(1, 5) && b.pos.x < w && b.pos.y < h)
            b.size = { 1, 1 };
        return b;
    };
    bool weird = is_float && c.rng.chance(1, 10); // Out-of-range floating-point components
    auto random_comp = [&](int ch) -> T {
        if constexpr (is_float) {
            (void)ch;
            if (weird) {
                static const float vals[] = { -1, 2, 1e30f, -1e30f, std::numeric_limits<float>::infinity(),
                    -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(),
                    std::numeric_limits<float>::denorm_min(), 0, 1, 1.0000001f, -0.0f };
                return vals[c.rng.below(std::size(vals))];
            }
            switch (c.rng.below(6)) {
                case 0: return 0;
                case 1: return 1;
                case 2: return float(std::pow(10.0, -c.rng.real(0, 6)));
                default: return float(c.rng.unit());
            }
        }
        else {
            u64 v = c.rng.chance(1, 4) ? 0 : c.rng.chance(1, 3) ? mask(nb) : c.rng.next() & mask(nb);
            if (l.indexed && !c.rng.chance(1, 8))
                v &= mask(l.width[0]);
            unsigned_of<T> u = unsigned_of<T>(v);
            T t;
            std::memcpy(&t, &u, sizeof t);
            return t;
        }
    };
    auto random_pixel = [&](T* p) {
        for (int ch = 0; ch < l.n; ++ch)
            p[ch] = random_comp(ch);
        if (is_float && l.alpha && !weird) {
            T alpha = p[l.n - 1];
            for (int ch = 0; ch < l.n - 1; ++ch)
                p[ch] = T(p[ch] * alpha);
        }
    };
    // Enter a written pixel into the model
    auto enter = [&](int x, int y, const T* p, auto&& what) {
        for (int ch = 0; ch < l.n; ++ch) {
            u64& v = val(x, y, ch);
            if constexpr (!is_float) {
                u64 u = u64(unsigned_of<T>(p[ch])) & mask(nb);
                if (l.indexed) {
                    if (u > mask(l.width[0])) {
                        v = stored(x, y, ch); // What is stored for such an index is unspecified
                        c.event("indexes-beyond-depth");
                    }
                    else {
                        v = u;
                    }
                }
                else {
                    v = rescale(u, nb, l.width[ch]);
                }
            }
            else {
                u64 s = stored(x, y, ch);
                v = s;
                if (weird)
                    continue;
                bool is_alpha = (l.alpha && ch == l.n - 1);
                double a = l.alpha ? double(p[l.n - 1]) : 1.0;
                double e;
                if (is_alpha)
                    e = a;
                else if (a == 0)
                    e = 0;
                else
                    e = compress(std::min(1.0, double(p[ch]) / a));
                double m = double(mask(l.width[ch]));
                double tol = 4e-7 * e * m + 1;
                VF_REQUIRE(std::abs(double(s) - e * m) <= tol, "stored-component", info << " at " << x << "," << y
                           << " channel " << ch << " value " << p[ch] << " alpha " << a << " stored " << s
                           << " expected " << e * m << " after " << what);
            }
        }
        c.event("pixels-written");
    };

    int ops = 5 + int(c.rng.below(8));
    for (int op = 0; op < ops; ++op) {
        image::Box b = random_box();
        auto what = [&](std::ostream& out) {
            out << " box=" << b.pos.x << "," << b.pos.y << ";" << b.size.width << "x" << b.size.height;
        };
        switch (c.rng.below(3)) {
            case 0: {
                Store<T> st(c, b.size, l.n, T(0));
                for (int y = 0; y < b.size.height; ++y)
                    for (int x = 0; x < b.size.width; ++x)
                        random_pixel(&st.mem[st.at(x, y)]);
                std::vector<T> orig = st.mem;
                wi.write(b.pos, st.tray());
                VF_REQUIRE(orig.empty() || std::memcmp(orig.data(), st.mem.data(), orig.size() * sizeof(T)) == 0,
                           "source-changed", info << what);
                for (int y = 0; y < b.size.height; ++y)
                    for (int x = 0; x < b.size.width; ++x)
                        enter(b.pos.x + x, b.pos.y + y, &st.mem[st.at(x, y)], what);
                check_buffer("buffer-after-write", what);
                break;
            }
            case 1: {
                std::vector<T> color(l.n);
                random_pixel(color.data());
                wi.fill(b, color.data());
                for (int y = 0; y < b.size.height; ++y)
                    for (int x = 0; x < b.size.width; ++x)
                        enter(b.pos.x + x, b.pos.y + y, color.data(), what);
                check_buffer("buffer-after-fill", what);
                break;
            }
            case 2: {
                T mark = T(0x37);
                Store<T> st(c, b.size, l.n, mark);
                const image::Image& ci = *img;
                ci.read(b.pos, st.tray());
                std::vector<bool> covered(st.mem.size());
                for (int y = 0; y < b.size.height; ++y) {
                    for (int x = 0; x < b.size.width; ++x) {
                        const T* p = &st.mem[st.at(x, y)];
                        for (int ch = 0; ch < l.n; ++ch) {
                            covered[st.at(x, y) + ch] = true;
                            u64 v = val(b.pos.x + x, b.pos.y + y, ch);
                            if constexpr (!is_float) {
                                u64 e = l.indexed ? v : rescale(v, l.width[ch], nb);
                                u64 u = u64(unsigned_of<T>(p[ch]));
                                VF_REQUIRE(u == e, "read-component", info << what << " at " << x << "," << y
                                           << " channel " << ch << " got " << u << " expected " << e);
                            }
                            else {
                                double m = double(mask(l.width[ch]));
                                double a = l.alpha ? double(val(b.pos.x + x, b.pos.y + y, l.n - 1)) /
                                    double(mask(l.width[l.n - 1])) : 1.0;
                                double e = (l.alpha && ch == l.n - 1) ? a : a * expand(double(v) / m);
                                VF_REQUIRE(std::abs(p[ch] - e) <= 1e-6 * e, "read-component", info << what << " at "
                                           << x << "," << y << " channel " << ch << " got " << p[ch] << " expected "
                                           << e << " stored " << v);
                            }
                        }
                        c.event("pixels-read");
                    }
                }
                for (std::size_t i = 0; i < covered.size(); ++i)
                    VF_REQUIRE(covered[i] || st.mem[i] == mark, "read-outside-tray", info << what);
                check_buffer("buffer-after-read", what);
                // Writing back what was read leaves integer-based pixels unchanged
                if (!is_float && c.rng.chance(1, 2)) {
                    wi.write(b.pos, st.tray());
                    check_buffer("buffer-after-write-back", what);
                    c.event("write-backs");
                }
                break;
            }
        }
    }
    if (!size.is_empty())
        c.nontrivial(vf::Hash().add(std::string(name)).add(w).add(h).add(ctor).add(ops).get());
    c.sample(info);
}

struct Entry {
    const char* name;
    void (*func)(vf::Case&, const char*);
};

template<std::size_t N> void dispatch(vf::Case& c, const Entry (&entries)[N])
{
    const Entry& e = entries[c.index % N];
    e.func(c, e.name);
    c.event(e.name);
}
} // namespace g01

#define FMT(...) { #__VA_ARGS__, &run_format<__VA_ARGS__> }
