// Model of color representation, written from the documentation of the image library: a color is
// a list of components in a color space, optionally followed by an alpha component; integer
// components are gamma compressed (alpha is not) and not premultiplied, floating point components
// are linear and premultiplied.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <optional>
#include <vector>

#include "vf.hpp"
#include <archon/image.hpp>

namespace g02 {
using namespace archon;
using i64 = std::int64_t;
using u64 = std::uint64_t;
using image::CompRepr;
using std::vector;

inline double expand(double v)
{
    return v > 0.04045 ? std::pow((v + 0.055) / 1.055, 2.4) : v / 12.92;
}

inline double compress(double v)
{
    return v > 0.0031308 ? 1.055 * std::pow(v, 1 / 2.4) - 0.055 : 12.92 * v;
}

inline double max_of(CompRepr r)
{
    return r == CompRepr::int8 ? 255 : r == CompRepr::int16 ? 65535 : 1;
}

// --- Custom color spaces ---------------------------------------------------------------------

// Linear, 3 channels
struct PairSpace : image::ColorSpace {
    PairSpace() : image::ColorSpace(3) {}
    void from_rgb(const float* rgb, float* n, float) const override
    {
        float r = rgb[0], g = rgb[1], b = rgb[2];
        n[0] = (r + g) / 2;
        n[1] = (g + b) / 2;
        n[2] = (b + r) / 2;
    }
    void to_rgb(const float* n, float* rgb, float) const override
    {
        float a = n[0], b = n[1], c = n[2];
        rgb[0] = a - b + c;
        rgb[1] = a + b - c;
        rgb[2] = -a + b + c;
    }
};

// Subtractive, 4 channels (needs alpha due to premultiplication)
struct SubtSpace : image::ColorSpace {
    SubtSpace() : image::ColorSpace(4) {}
    void from_rgb(const float* rgb, float* n, float alpha) const override
    {
        float r = rgb[0], g = rgb[1], b = rgb[2];
        n[0] = alpha - r;
        n[1] = alpha - g;
        n[2] = alpha - b;
        n[3] = r / 2;
    }
    void to_rgb(const float* n, float* rgb, float alpha) const override
    {
        float a = n[0], b = n[1], c = n[2];
        rgb[0] = alpha - a;
        rgb[1] = alpha - b;
        rgb[2] = alpha - c;
    }
};

// Custom conversion from Lum to SubtSpace
struct LumToSubt : image::ColorSpaceConverter {
    mutable long calls = 0;
    void convert(float* p, float alpha) const override
    {
        ++calls;
        float l = p[0];
        p[0] = l;
        p[1] = alpha - l;
        p[2] = l / 2;
        p[3] = l / 4;
    }
};

inline const PairSpace g_pair;
inline const SubtSpace g_subt;

inline const image::ColorSpace& space(int i)
{
    switch (i) {
        case 0: return image::ColorSpace::get_lum();
        case 1: return image::ColorSpace::get_rgb();
        case 2: return g_pair;
        default: return g_subt;
    }
}

inline int space_index(const image::ColorSpace& s)
{
    for (int i = 0; i < 4; ++i) {
        if (&space(i) == &s)
            return i;
    }
    return -1;
}

inline int num_color(int s)
{
    static const int n[4] = { 1, 3, 3, 4 };
    return n[s];
}

struct Format {
    CompRepr repr = CompRepr::int8;
    int space = 1;
    bool alpha = false;
    int channels() const { return num_color(space) + int(alpha); }
    bool operator==(const Format&) const = default;
};

inline std::ostream& operator<<(std::ostream& out, const Format& f)
{
    static const char* const names[] = { "lum", "rgb", "pair", "subt" };
    out << names[f.space] << (f.alpha ? "+a" : "") << "/"
        << (f.repr == CompRepr::int8 ? "8" : f.repr == CompRepr::int16 ? "16" : "f");
    return out;
}

// Components as numbers (integers, or floats)
using Comps = vector<double>;

inline std::string str(const Comps& c)
{
    std::string s = "(";
    for (double v : c) {
        char buf[40];
        std::snprintf(buf, sizeof buf, s.size() > 1 ? ", %.9g" : "%.9g", v);
        s += buf;
    }
    return s + ")";
}

// Always premultiplied with alpha last
struct Neutral {
    int space = 1;
    Comps c;
    double alpha() const { return c.back(); }
};

inline Neutral to_neutral(const Format& f, const Comps& px)
{
    Neutral n { f.space, {} };
    int k = num_color(f.space);
    double alpha = f.alpha ? px[std::size_t(k)] / max_of(f.repr) : 1;
    for (int i = 0; i < k; ++i) {
        double v = px[std::size_t(i)];
        if (f.repr != CompRepr::float_)
            v = alpha * expand(v / max_of(f.repr));
        n.c.push_back(v);
    }
    n.c.push_back(alpha);
    return n;
}

inline Neutral convert_space(const Neutral& n, int to, bool custom)
{
    if (n.space == to)
        return n;
    Neutral r { to, {} };
    double alpha = n.alpha();
    if (custom && n.space == 0 && to == 3) {
        double l = n.c[0];
        r.c = { l, alpha - l, l / 2, l / 4, alpha };
        return r;
    }
    double R = 0, G = 0, B = 0;
    switch (n.space) {
        case 0: R = G = B = n.c[0]; break;
        case 1: R = n.c[0]; G = n.c[1]; B = n.c[2]; break;
        case 2:
            R = n.c[0] - n.c[1] + n.c[2];
            G = n.c[0] + n.c[1] - n.c[2];
            B = -n.c[0] + n.c[1] + n.c[2];
            break;
        case 3: R = alpha - n.c[0]; G = alpha - n.c[1]; B = alpha - n.c[2]; break;
    }
    switch (to) {
        case 0: r.c = { 0.2126 * R + 0.7152 * G + 0.0722 * B }; break;
        case 1: r.c = { R, G, B }; break;
        case 2: r.c = { (R + G) / 2, (G + B) / 2, (B + R) / 2 }; break;
        case 3: r.c = { alpha - R, alpha - G, alpha - B, R / 2 }; break;
    }
    r.c.push_back(alpha);
    return r;
}

// Ideal (unrounded) components
inline Comps from_neutral(const Neutral& n, const Format& f)
{
    Comps r;
    std::size_t k = n.c.size() - 1;
    double alpha = n.alpha();
    for (std::size_t i = 0; i < k; ++i) {
        double v = n.c[i];
        if (f.repr != CompRepr::float_) {
            if (f.alpha)
                v = alpha != 0 ? v / alpha : 0;
            v = max_of(f.repr) * std::clamp(compress(v), 0.0, 1.0);
        }
        r.push_back(v);
    }
    if (f.alpha)
        r.push_back(alpha * max_of(f.repr));
    return r;
}

// What a component ought to be, and how far from it an implementation based on rounding of single
// precision floating point computations may be
struct Expect {
    Format format;
    Comps c;
    bool exact = false;
    bool cancel = false; // Subtraction of colors was involved
    double alpha = 1;
    bool matches(const Comps& r) const
    {
        if (r.size() != c.size())
            return false;
        for (std::size_t i = 0; i < r.size(); ++i) {
            if (exact) {
                if (r[i] != c[i])
                    return false;
                continue;
            }
            if (format.repr == CompRepr::float_) {
                double tol = (cancel ? 4e-6 : 2e-6) * std::max(1.0, std::fabs(c[i]));
                if (!(std::fabs(r[i] - c[i]) <= tol))
                    return false;
                continue;
            }
            // The unit interval is divided into equally sized bins
            double max = max_of(format.repr);
            double bin = c[i] / max * (max + 1);
            double eps = 1e-3 + 3e-6 * bin;
            if (cancel)
                eps += max * 12.92 * 3e-7 / std::max(alpha, 1e-3);
            double lo = std::clamp(std::floor(bin - eps), 0.0, max), hi = std::clamp(std::floor(bin + eps), 0.0, max);
            if (!(r[i] >= lo && r[i] <= hi))
                return false;
        }
        return true;
    }
};

// A color stored with precision `native` (exact), or as a neutral color
struct Color {
    std::optional<Comps> native; // With alpha
    Format native_format;        // Has alpha
    Neutral neutral;             // Always valid
    bool cancel = false;
    bool solid() const
    {
        return native ? native->back() == max_of(native_format.repr) : neutral.alpha() == 1;
    }
};

inline Format with_alpha(Format f, bool alpha)
{
    f.alpha = alpha;
    return f;
}

inline Color native_color(const Format& f, const Comps& px)
{
    Color c;
    c.native_format = with_alpha(f, true);
    c.neutral = to_neutral(f, px);
    c.native = px;
    if (!f.alpha)
        c.native->push_back(max_of(f.repr));
    return c;
}

// The color, as assigned to a color slot of a reader of an image of the specified native format
inline Color slot_color(const Format& native, const Format& f, const Comps& px, double opacity, bool custom)
{
    if (f.repr == native.repr && f.space == native.space && opacity == 1)
        return native_color(f, px);
    Color c;
    c.native_format = with_alpha(native, true);
    c.neutral = convert_space(to_neutral(f, px), native.space, custom);
    c.cancel = f.space >= 2 || native.space >= 2;
    for (double& v : c.neutral.c)
        v *= opacity;
    return c;
}

// The color seen through the specified format
inline Expect view(const Color& c, const Format& f, bool custom)
{
    Expect e;
    e.format = f;
    bool same = (f.repr == c.native_format.repr && f.space == c.native_format.space);
    if (same && c.native && (f.alpha || f.repr == CompRepr::float_ || c.solid())) {
        e.exact = true;
        e.c = *c.native;
        if (!f.alpha)
            e.c.pop_back();
        return e;
    }
    e.c = from_neutral(convert_space(c.neutral, f.space, custom), f);
    e.cancel = c.cancel || c.native_format.space >= 2 || f.space >= 2;
    e.alpha = c.neutral.alpha();
    return e;
}

// --- Components in memory --------------------------------------------------------------------

template<CompRepr R> double load(image::comp_type<R> v)
{
    if constexpr (R == CompRepr::float_) {
        return double(v);
    }
    else {
        return double(image::comp_repr_unpack<R>(v));
    }
}

template<CompRepr R> image::comp_type<R> store(double v)
{
    if constexpr (R == CompRepr::int8) {
        return image::comp_type<R>(static_cast<unsigned char>(v));
    }
    else if constexpr (R == CompRepr::int16) {
        return image::comp_type<R>(static_cast<std::uint16_t>(v));
    }
    else {
        return float(v);
    }
}

template<class F> auto dispatch(CompRepr r, F&& f)
{
    switch (r) {
        case CompRepr::int8: return f(image::CompReprTag<CompRepr::int8>());
        case CompRepr::int16: return f(image::CompReprTag<CompRepr::int16>());
        case CompRepr::float_: break;
    }
    return f(image::CompReprTag<CompRepr::float_>());
}

inline CompRepr any_repr(vf::Rng& rng)
{
    return rng.pick({ CompRepr::int8, CompRepr::int16, CompRepr::float_ });
}

inline Format any_format(vf::Rng& rng)
{
    Format f;
    f.repr = any_repr(rng);
    f.space = rng.chance(3, 4) ? int(rng.below(2)) : int(rng.below(4));
    f.alpha = rng.chance(1, 2);
    return f;
}

// Any color for which all conversions stay inside the gamut
inline Comps any_color(vf::Rng& rng, const Format& f)
{
    double alpha = 1;
    double m = max_of(f.repr);
    if (f.alpha) {
        switch (rng.below(4)) {
            case 0: alpha = 0; break;
            case 1: alpha = 1; break;
            default: alpha = 0.02 + 0.98 * rng.unit(); break;
        }
        if (f.repr != CompRepr::float_)
            alpha = std::floor(alpha * m);
        else
            alpha = double(float(alpha));
    }
    Comps c;
    int k = num_color(f.space);
    double base = rng.unit();
    for (int i = 0; i < k; ++i) {
        double v = rng.chance(1, 6) ? double(rng.below(2)) : rng.unit();
        if (f.space == 2)
            v = base; // Gray, so that RGB components stay in range
        if (f.repr == CompRepr::float_) {
            v = double(float(v * alpha));
        }
        else {
            v = std::floor(v * m + 0.5);
        }
        c.push_back(v);
    }
    if (f.alpha)
        c.push_back(alpha);
    return c;
}

// --- An image that checks how it is being used -------------------------------------------------

struct Img : image::WritableImage {
    image::Size size;
    Format format;            // Transfer format (or of palette)
    const Img* palette = nullptr;
    vector<Comps> pixels;     // Not used when computed
    bool computed = false;
    u64 salt = 0;
    mutable long reads = 0;
    mutable long writes = 0;
    mutable long fills = 0;
    mutable long bad_area = 0;
    mutable long max_area = 0;

    auto get_size() const noexcept -> image::Size override { return size; }
    bool try_get_buffer(image::BufferFormat&, const void*&) const override { return false; }
    bool try_get_writable_buffer(image::BufferFormat&, void*&) override { return false; }
    auto get_transfer_info() const -> TransferInfo override
    {
        return { format.repr, &space(format.space), format.alpha, format.repr == CompRepr::int8 ? 8 : 16 };
    }
    auto get_palette() const noexcept -> const Image* override { return palette; }

    Comps at(i64 x, i64 y) const
    {
        if (!computed)
            return pixels[std::size_t(y * size.width + x)];
        u64 h = vf::Hash().add(salt).add(u64(x)).add(u64(y)).get();
        vf::Rng rng(h);
        if (palette)
            return { double(rng.below(256)) };
        return any_color(rng, format);
    }
    int width_of_pixel() const { return palette ? 1 : format.channels(); }
    CompRepr pixel_repr() const { return palette ? CompRepr::int8 : format.repr; }

    bool check_area(image::Pos pos, image::Size s) const
    {
        i64 area = i64(s.width) * s.height;
        if (area > max_area)
            max_area = long(area);
        bool good = s.width >= 0 && s.height >= 0 && pos.x >= 0 && pos.y >= 0 &&
            i64(pos.x) + s.width <= size.width && i64(pos.y) + s.height <= size.height;
        if (!good)
            ++bad_area;
        return good;
    }

    void read(image::Pos pos, const image::Tray<void>& tray) const override
    {
        ++reads;
        if (!check_area(pos, tray.size))
            return;
        dispatch(pixel_repr(), [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            auto t = tray.cast_to<image::comp_type<R>>();
            for (int y = 0; y < tray.size.height; ++y) {
                for (int x = 0; x < tray.size.width; ++x) {
                    Comps c = at(i64(pos.x) + x, i64(pos.y) + y);
                    for (std::size_t i = 0; i < c.size(); ++i)
                        t(x, y)[i] = store<R>(c[i]);
                }
            }
        });
    }

    void write(image::Pos pos, const image::Tray<const void>& tray) override
    {
        ++writes;
        if (!check_area(pos, tray.size))
            return;
        dispatch(pixel_repr(), [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            auto t = tray.cast_to<const image::comp_type<R>>();
            for (int y = 0; y < tray.size.height; ++y) {
                for (int x = 0; x < tray.size.width; ++x) {
                    Comps& c = pixels[std::size_t((i64(pos.y) + y) * size.width + pos.x + x)];
                    for (std::size_t i = 0; i < c.size(); ++i)
                        c[i] = load<R>(t(x, y)[i]);
                }
            }
        });
    }

    void fill(const image::Box& area, const void* color) override
    {
        ++fills;
        if (!check_area(area.pos, area.size))
            return;
        dispatch(pixel_repr(), [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            auto p = static_cast<const image::comp_type<R>*>(color);
            for (int y = 0; y < area.size.height; ++y) {
                for (int x = 0; x < area.size.width; ++x) {
                    Comps& c = pixels[std::size_t((i64(area.pos.y) + y) * size.width + area.pos.x + x)];
                    for (std::size_t i = 0; i < c.size(); ++i)
                        c[i] = load<R>(p[i]);
                }
            }
        });
    }

    void populate(vf::Rng& rng)
    {
        std::size_t n = std::size_t(i64(size.width) * size.height);
        pixels.clear();
        for (std::size_t i = 0; i < n; ++i)
            pixels.push_back(palette ? Comps { double(rng.below(256)) } : any_color(rng, format));
    }

    // The color of a pixel, or nothing if it refers outside the palette
    std::optional<Color> resolve(i64 x, i64 y) const
    {
        if (!palette)
            return native_color(format, at(x, y));
        i64 index = i64(at(x, y)[0]);
        return palette->entry(index);
    }
    i64 num_entries() const { return std::min<i64>(256, i64(size.width) * size.height); }
    // As palette
    std::optional<Color> entry(i64 index) const
    {
        if (index >= num_entries())
            return {};
        std::optional<Color> c = resolve(index % size.width, index / size.width);
        if (c)
            return c;
        // Background color of a default reader
        Format f { CompRepr::int8, 1, true };
        return slot_color(format, f, { 0, 0, 0, 0 }, 1, false);
    }
};

// Image together with palettes on which it depends
struct Setup {
    vector<std::unique_ptr<Img>> images;
    Img* image() { return images.back().get(); }

    Setup(vf::Rng& rng, Format format, bool indexed, image::Size size, bool computed = false)
    {
        auto make = [&](const Img* pal, image::Size s) {
            auto img = std::make_unique<Img>();
            img->size = s;
            img->format = format;
            img->palette = pal;
            img->populate(rng);
            images.push_back(std::move(img));
        };
        const Img* pal = nullptr;
        if (indexed) {
            image::Size s { int(rng.below(12)), int(rng.below(12)) };
            if (rng.chance(1, 6))
                s = { int(rng.below(2)) * 20, int(rng.below(2)) * 20 };
            if (rng.chance(1, 6))
                s = { 1 + int(rng.below(40)), 20 };
            make(nullptr, s);
            if (rng.chance(1, 10)) { // Huge palette
                image()->size = { 1 << 30, 1 + int(rng.below(2)) * (1 << 20) };
                if (rng.chance(1, 2))
                    image()->size = { 100, 1 << 30 };
                image()->computed = true;
                image()->salt = rng.next();
            }
            pal = image();
            if (rng.chance(1, 5)) {
                make(pal, { int(rng.below(9)), int(rng.below(9)) });
                pal = image();
            }
        }
        if (computed) {
            auto img = std::make_unique<Img>();
            img->size = size;
            img->format = format;
            img->palette = pal;
            img->computed = true;
            img->salt = rng.next();
            images.push_back(std::move(img));
            return;
        }
        make(pal, size);
    }
    long bad_area() const
    {
        long n = 0;
        for (const auto& i : images)
            n += i->bad_area;
        return n;
    }
};

// Memory with a tray in it, such that everything outside the tray must be left alone
template<CompRepr R> struct Board {
    using comp = image::comp_type<R>;
    int channels;
    image::Size size;
    i64 sx, sy;
    i64 base;
    vector<comp> mem, orig;
    std::unique_ptr<comp[]> heap;
    std::size_t total;

    Board(vf::Rng& rng, int ch, image::Size s) : channels(ch), size(s)
    {
        i64 pad_x = i64(rng.below(2)) * i64(rng.below(4));
        i64 pad_y = i64(rng.below(2)) * i64(rng.below(9));
        i64 w = s.width, h = s.height;
        if (rng.chance(1, 4)) { // Column major
            sy = ch + pad_x;
            sx = h * sy + pad_y;
        }
        else {
            sx = ch + pad_x;
            sy = w * sx + pad_y;
        }
        i64 lead = i64(rng.below(3));
        base = lead;
        i64 lo = 0, hi = 0;
        if (w > 0 && h > 0) {
            bool nx = rng.chance(1, 4), ny = rng.chance(1, 4);
            if (nx) {
                base += (w - 1) * sx;
                sx = -sx;
            }
            if (ny) {
                base += (h - 1) * sy;
                sy = -sy;
            }
            lo = 0;
            hi = lead + (w - 1) * std::abs(sx) + (h - 1) * std::abs(sy) + ch;
        }
        else {
            hi = lead + ch;
        }
        total = std::size_t(hi - lo);
        heap = std::make_unique<comp[]>(total);
        for (std::size_t i = 0; i < total; ++i)
            heap[i] = store<R>(R == CompRepr::float_ ? rng.unit() * 100 : double(rng.below(256)));
        orig.assign(heap.get(), heap.get() + total);
    }
    image::Tray<comp> tray() { return { { heap.get() + base, std::ptrdiff_t(sx), std::ptrdiff_t(sy) }, size }; }
    Comps at(int x, int y) const
    {
        Comps c;
        for (int i = 0; i < channels; ++i)
            c.push_back(load<R>(heap[std::size_t(base + x * sx + y * sy + i)]));
        return c;
    }
    void set(int x, int y, const Comps& c)
    {
        for (int i = 0; i < channels; ++i)
            heap[std::size_t(base + x * sx + y * sy + i)] = store<R>(c[std::size_t(i)]);
    }
    // Whether everything outside the tray was left alone
    bool intact() const
    {
        vector<char> inside(total, 0);
        for (int y = 0; y < size.height; ++y) {
            for (int x = 0; x < size.width; ++x) {
                for (int i = 0; i < channels; ++i)
                    inside[std::size_t(base + x * sx + y * sy + i)] = 1;
            }
        }
        for (std::size_t i = 0; i < total; ++i) {
            if (!inside[i] && std::memcmp(&heap[i], &orig[i], sizeof(comp)) != 0)
                return false;
        }
        return true;
    }
};

} // namespace g02
