// The writer: histories of fills, block transfers, image transfers, stencil operations, and reads,
// on any kind of image, with any kind of source, with and without blending and opacity.
#include "../g02/machine.hpp"

namespace {
using namespace g02;

struct W : Machine<image::Writer> {
    bool blending = false;
    double opacity = 1;

    using Machine::Machine;

    std::string where(const char* op)
    {
        std::ostringstream o;
        o << describe() << " blending " << blending << " opacity " << opacity << " op " << op;
        return o.str();
    }

    Neutral current(i64 x, i64 y)
    {
        std::optional<Color> col = img.resolve(x, y);
        return col ? col->neutral : slots[0].neutral;
    }

    // A pixel to be applied to the image
    struct Source {
        Neutral neutral;           // In native color space of writer, and without opacity
        std::optional<Color> exact; // When it can be transferred without loss
        bool cancel = false;
    };

    static Neutral over(const Neutral& a, const Neutral& b)
    {
        Neutral r = a;
        for (std::size_t i = 0; i < r.c.size(); ++i)
            r.c[i] = a.c[i] + (1 - a.alpha()) * b.c[i];
        return r;
    }

    static double sqdist(const Neutral& a, const Comps& b, int k)
    {
        double s = 0;
        for (int i = 0; i < k; ++i) {
            double d = a.c[std::size_t(i)] - b[std::size_t(i)];
            s += d * d;
        }
        return s;
    }

    // Verify outcome of an operation
    //
    // before: Pixels before operation
    // source: Produces source for each position, or nothing if not affected
    template<class F> void verify(const char* op, const vector<Comps>& before, F&& source)
    {
        VF_REQUIRE(setup.bad_area() == 0, "access outside image", where(op));
        vector<Comps> after = std::move(img.pixels);
        img.pixels = before;
        long changed = 0, kept = 0, blended = 0, exact = 0;
        for (int y = 0; y < img.size.height; ++y) {
            for (int x = 0; x < img.size.width; ++x) {
                std::size_t i = std::size_t(i64(y) * img.size.width + x);
                std::optional<Source> s = source(x, y);
                if (!s) {
                    ++kept;
                    VF_REQUIRE(after[i] == before[i], "pixel outside area changed",
                               where(op) << " at (" << x << ", " << y << "): " << str(before[i]) << " -> "
                               << str(after[i]));
                    continue;
                }
                ++changed;
                Expect e;
                if (s->exact && opacity == 1 && !img.palette && !blending) {
                    e = view(*s->exact, img.format, custom);
                    if (e.exact)
                        ++exact;
                }
                else {
                    Neutral n = s->neutral;
                    for (double& v : n.c)
                        v *= opacity;
                    if (blending) {
                        if (n.alpha() != 1)
                            ++blended;
                        n = over(n, current(x, y));
                    }
                    if (img.palette) {
                        check_index(op, x, y, n, i64(after[i][0]));
                        continue;
                    }
                    e.format = img.format;
                    e.alpha = n.alpha();
                    e.cancel = s->cancel || img.format.space >= 2;
                    e.c = from_neutral(n, img.format);
                }
                VF_REQUIRE(e.matches(after[i]), blending ? "blended pixel" : "written pixel",
                           where(op) << " at (" << x << ", " << y << "): " << str(before[i]) << " -> " << str(after[i])
                           << " expected " << str(e.c) << (e.exact ? " exactly" : ""));
            }
        }
        img.pixels = std::move(after);
        c.event("pixels written", changed);
        c.event("pixels left alone", kept);
        c.event("pixels blended", blended);
        c.event("lossless pixels", exact);
        c.event(op);
    }

    void check_index(const char* op, int x, int y, const Neutral& n, i64 index)
    {
        i64 count = img.palette->num_entries();
        if (count == 0) {
            VF_EQ(index, i64(0), "index for empty palette", where(op));
            return;
        }
        VF_REQUIRE(index < count, "index outside palette", where(op) << " index " << index);
        double best = 1e300, mine = 0;
        int k = img.format.channels();
        for (i64 j = 0; j < count; ++j) {
            double d = sqdist(n, img.palette->entry(j)->neutral.c, k);
            best = std::min(best, d);
            if (j == index)
                mine = d;
        }
        VF_REQUIRE(std::sqrt(mine) <= std::sqrt(best) + 2e-5, "closest palette entry",
                   where(op) << " at (" << x << ", " << y << ") " << str(n.c) << " index " << index << " distance "
                   << std::sqrt(mine) << " best " << std::sqrt(best));
        c.event("closest palette entries");
    }

    Source source_of(const Color& col)
    {
        Source s;
        s.neutral = convert_space(col.neutral, img.format.space, custom);
        s.cancel = col.cancel || col.native_format.space >= 2;
        return s;
    }

    static bool inside(const image::Box& b, int x, int y)
    {
        return x >= b.pos.x && y >= b.pos.y && x - i64(b.pos.x) < b.size.width && y - i64(b.pos.y) < b.size.height;
    }

    image::Box any_box(int max_size)
    {
        image::Size s { int(rng.below(u64(max_size))), int(rng.below(u64(max_size))) };
        if (rng.chance(1, 8))
            s = { int(rng.below(3)), 60 + int(rng.below(600)) };
        return { { any_pos(img.size.width, s.width), any_pos(img.size.height, s.height) }, s };
    }

    void fill()
    {
        vector<Comps> before = img.pixels;
        auto slot = rng.chance(1, 3) ? Slot::background : Slot::foreground;
        image::Box box = any_box(30);
        if (rng.chance(1, 8)) {
            box = { { std::numeric_limits<int>::min(), std::numeric_limits<int>::min() },
                { std::numeric_limits<int>::max(), std::numeric_limits<int>::max() } };
            if (rng.chance(1, 2))
                box.pos = { 0, 0 };
        }
        if (rng.chance(1, 8)) {
            box = { img.size };
            reader.fill(slot);
        }
        else if (slot == Slot::foreground && rng.chance(1, 2)) {
            reader.fill(box);
        }
        else {
            reader.fill(box, slot);
        }
        const Color& col = slots[int(slot)];
        verify("fill", before, [&](int x, int y) -> std::optional<Source> {
            if (!inside(box, x, y))
                return {};
            Source s;
            s.neutral = col.neutral;
            s.cancel = col.cancel;
            s.exact = col;
            return s;
        });
    }

    template<CompRepr R, class F> void put_block_as(const Format& f, const image::Box& box, const char* op, F&& func)
    {
        vector<Comps> before = img.pixels;
        Board<R> board(rng, f.channels(), box.size);
        for (int y = 0; y < box.size.height; ++y) {
            for (int x = 0; x < box.size.width; ++x)
                board.set(x, y, any_color(rng, f));
        }
        func(image::Tray<const image::comp_type<R>>(board.tray()));
        bool same = (f.repr == img.format.repr && f.space == img.format.space);
        verify(op, before, [&](int x, int y) -> std::optional<Source> {
            if (!inside(box, x, y))
                return {};
            Color col = native_color(f, board.at(int(i64(x) - box.pos.x), int(i64(y) - box.pos.y)));
            Source s = source_of(col);
            bool lossless = same && (!f.alpha || img.format.alpha || f.repr == CompRepr::float_);
            if (lossless)
                s.exact = col;
            return s;
        });
    }

    template<class P> void put_pixel_block(const image::Box& box, const Format& f)
    {
        image::PixelBlock<P> block(box.size);
        put_block_as<P::comp_repr>(f, box, "put pixel block", [&](auto t) {
            for (int y = 0; y < box.size.height; ++y) {
                for (int x = 0; x < box.size.width; ++x) {
                    for (int i = 0; i < f.channels(); ++i)
                        block.tray()(x, y)[i] = t(x, y)[i];
                }
            }
#ifdef VF_NO_PIXEL_BLOCK
            reader.template put_block<P>(box.pos, block.tray());
#else
            reader.put_block(box.pos, block);
#endif
        });
    }

    template<class P> void put_single(image::Box box, const Format& f)
    {
        box.size = { 1, 1 };
        if (box.pos.x == std::numeric_limits<int>::max())
            box.pos.x = 0;
        if (box.pos.y == std::numeric_limits<int>::max())
            box.pos.y = 0;
        put_block_as<P::comp_repr>(f, box, "put pixel", [&](auto t) {
            image::Pixel<P> p;
            for (int i = 0; i < f.channels(); ++i)
                p[std::size_t(i)] = t(0, 0)[i];
            if constexpr (std::is_same_v<P, image::RGBA_8>) {
                if (rng.chance(1, 2)) {
                    auto u = [&](int i) { return int(load<CompRepr::int8>(p[std::size_t(i)])); };
                    reader.put_pixel(box.pos, util::Color(u(0), u(1), u(2), u(3)));
                    return;
                }
            }
            reader.put_pixel(box.pos, p);
        });
    }

    void put_block(int max_size)
    {
        image::Box box = any_box(max_size);
        switch (rng.below(10)) {
            case 0:
                put_block_as<CompRepr::int8>({ CompRepr::int8, 0, false }, box, "put_block_lum",
                                             [&](auto t) { reader.put_block_lum(box.pos, t); });
                return;
            case 1:
                put_block_as<CompRepr::int8>({ CompRepr::int8, 0, true }, box, "put_block_luma",
                                             [&](auto t) { reader.put_block_luma(box.pos, t); });
                return;
            case 2:
                put_block_as<CompRepr::int8>({ CompRepr::int8, 1, false }, box, "put_block_rgb",
                                             [&](auto t) { reader.put_block_rgb(box.pos, t); });
                return;
            case 3:
                put_block_as<CompRepr::int8>({ CompRepr::int8, 1, true }, box, "put_block_rgba",
                                             [&](auto t) { reader.put_block_rgba(box.pos, t); });
                return;
            case 4:
                switch (rng.below(3)) {
                    case 0: put_single<image::RGBA_8>(box, { CompRepr::int8, 1, true }); return;
                    case 1: put_single<image::Lum_16>(box, { CompRepr::int16, 0, false }); return;
                    default: put_single<image::RGBA_F>(box, { CompRepr::float_, 1, true }); return;
                }
            case 5:
                switch (rng.below(3)) {
                    case 0: put_pixel_block<image::RGB_8>(box, { CompRepr::int8, 1, false }); return;
                    case 1: put_pixel_block<image::LumA_16>(box, { CompRepr::int16, 0, true }); return;
                    default: put_pixel_block<image::RGBA_F>(box, { CompRepr::float_, 1, true }); return;
                }
        }
        Format f = rng.chance(1, 2) ? with_alpha(img.format, rng.chance(1, 2)) : any_format(rng);
        dispatch(f.repr, [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            put_block_as<R>(f, box, "put_block_a",
                            [&](auto t) { reader.template put_block_a<R>(box.pos, t, space(f.space), f.alpha); });
        });
    }

    void put_mask(int max_size)
    {
        image::Box box = any_box(max_size);
        vector<Comps> before = img.pixels;
        Board<CompRepr::int8> board(rng, 1, box.size);
        for (int y = 0; y < box.size.height; ++y) {
            for (int x = 0; x < box.size.width; ++x)
                board.set(x, y, { double(rng.chance(1, 3) ? 255 * rng.below(2) : rng.below(256)) });
        }
        reader.put_block_mask(box.pos, board.tray());
        verify("stencil", before, [&](int x, int y) -> std::optional<Source> {
            if (!inside(box, x, y))
                return {};
            double mask = board.at(int(i64(x) - box.pos.x), int(i64(y) - box.pos.y))[0] / 255;
            Neutral fg = slots[1].neutral;
            for (double& v : fg.c)
                v *= mask;
            Source s;
            s.neutral = over(fg, slots[0].neutral);
            s.cancel = slots[0].cancel || slots[1].cancel;
            return s;
        });
    }

    void put_image(int max_size)
    {
        vector<Comps> before = img.pixels;
        Format f = any_format(rng);
        if (rng.chance(1, 2))
            f = with_alpha(img.format, rng.chance(1, 2));
        image::Size size { int(rng.below(u64(max_size))), int(rng.below(u64(max_size))) };
        Setup other(rng, f, rng.chance(1, 4), size);
        Img& src = *other.image();
        if (rng.chance(1, 4)) {
            image::Box box { { any_pos(img.size.width, size.width), any_pos(img.size.height, size.height) }, size };
            if (rng.chance(1, 2))
                reader.put_image(box.pos, src);
            else if (!blending && opacity == 1 && !used)
                img.put_image(box.pos, src);
            else
                reader.put_image(box.pos, src);
            transferred("put_image", before, src, box, { 0, 0 }, Mode::background, Mode::background,
                        slot_color(src.format, { CompRepr::int8, 1, true }, { 0, 0, 0, 0 }, 1, false), false);
            VF_REQUIRE(other.bad_area() == 0, "access outside source image", where("put_image"));
            return;
        }
        image::Box box = any_box(max_size);
        image::Pos from { int(rng.below(u64(size.width) * 2 + 3)) - size.width - 1,
            int(rng.below(u64(size.height) * 2 + 3)) - size.height - 1 };
        if (rng.chance(1, 3)) {
            from = { 0, 0 };
            box.size = { std::min(box.size.width, size.width), std::min(box.size.height, size.height) };
        }
        image::Reader r(src);
        auto any = [&] { return rng.pick({ Mode::background, Mode::edge, Mode::repeat }); };
        Mode h = any(), v = any();
        r.set_falloff_mode(h, v);
        bool cust = false;
        if (rng.chance(1, 4)) {
            r.set_custom_color_space_converters(registry);
            cust = true;
        }
        Color bg = slot_color(src.format, { CompRepr::int8, 1, true }, { 0, 0, 0, 0 }, 1, false);
        if (rng.chance(1, 2)) {
            util::Color color(int(rng.below(256)), 0, int(rng.below(256)), rng.chance(1, 2) ? 255 : int(rng.below(256)));
            r.set_background_color(color);
            bg = slot_color(src.format, { CompRepr::int8, 1, true },
                            { double(color.red()), 0, double(color.blue()), double(color.alpha()) }, 1, cust);
        }
        reader.put_image_a(box.pos, r, { from, box.size });
        transferred("put_image_a", before, src, box, from, h, v, bg, cust);
        VF_REQUIRE(other.bad_area() == 0, "access outside source image", where("put_image_a"));
    }

    void transferred(const char* op, const vector<Comps>& before, const Img& src, const image::Box& box, image::Pos from,
                     Mode h, Mode v, const Color& bg, bool cust)
    {
        bool same = (src.format.repr == img.format.repr && src.format.space == img.format.space);
        verify(op, before, [&](int x, int y) -> std::optional<Source> {
            if (!inside(box, x, y))
                return {};
            auto px = falloff(h, i64(x) - box.pos.x + from.x, src.size.width);
            auto py = falloff(v, i64(y) - box.pos.y + from.y, src.size.height);
            std::optional<Color> col;
            if (px && py)
                col = src.resolve(*px, *py);
            bool is_bg = !col;
            if (is_bg) {
                c.event("background pixels transferred");
                col = bg;
            }
            Source s;
            s.neutral = convert_space(col->neutral, img.format.space, cust);
            s.cancel = col->cancel || col->native_format.space >= 2;
            bool lossless = same && (!src.format.alpha || img.format.alpha || src.format.repr == CompRepr::float_);
            if (lossless)
                s.exact = col;
            return s;
        });
    }

    bool used = false;

    void settings()
    {
        if (rng.chance(1, 2)) {
            blending = rng.chance(1, 2);
            switch (rng.below(2)) {
                case 0: reader.set_blending_enabled(blending); break;
                default:
                    if (blending)
                        reader.enable_blending();
                    else
                        reader.disable_blending();
            }
            used = true;
        }
        else {
            opacity = rng.chance(1, 2) ? 1 : double(float(rng.unit()));
            reader.set_opacity(float(opacity));
            used = true;
        }
        VF_EQ(reader.get_blending_enabled(), blending, "blending", what);
        VF_EQ(double(reader.get_opacity()), opacity, "opacity", what);
    }

    void colors()
    {
        Format f1 = any_format(rng), f2 = rng.chance(1, 2) ? f1 : any_format(rng);
        Comps a = any_color(rng, f1), b = any_color(rng, f2);
        // Distances
        Color ca = native_color(f1, a), cb = native_color(f2, b);
        Source sa = source_of(ca), sb = source_of(cb);
        dispatch(f1.repr, [&](auto tag_1) {
            constexpr CompRepr R = tag_1.comp_repr;
            vector<image::comp_type<R>> va;
            for (double d : a)
                va.push_back(store<R>(d));
            std::size_t index = reader.template reverse_palette_lookup_a<R>(va.data(), space(f1.space), f1.alpha);
            if (img.palette)
                check_index("reverse palette lookup", 0, 0, sa.neutral, i64(index));
            else
                VF_EQ(index, std::size_t(0), "reverse lookup in image without palette", what);
            dispatch(f2.repr, [&](auto tag_2) {
                constexpr CompRepr S = tag_2.comp_repr;
                vector<image::comp_type<S>> vb;
                for (double d : b)
                    vb.push_back(store<S>(d));
                double d = double(reader.template color_sqdist_a<R, S>(va.data(), space(f1.space), f1.alpha, vb.data(),
                                                                        space(f2.space), f2.alpha));
                double ideal = sqdist(sa.neutral, sb.neutral.c, int(sa.neutral.c.size()));
                VF_REQUIRE(std::fabs(std::sqrt(d) - std::sqrt(ideal)) < 1e-5 * (1 + std::sqrt(ideal)), "color distance",
                           what << " " << f1 << " " << str(a) << ", " << f2 << " " << str(b) << " in " << img.format
                           << ": " << d << " expected " << ideal);
            });
        });
        c.event("color distances");
    }

    void write_step(int max_size)
    {
        switch (rng.below(14)) {
            case 0: case 1: settings(); break;
            case 2: case 3: fill(); break;
            case 4: case 5: case 6: put_block(max_size); break;
            case 7: case 8: put_image(max_size); break;
            case 9: put_mask(max_size); break;
            case 10: colors(); break;
            case 11: set_color(); break;
            default: step(max_size); break;
        }
    }
};

VF_MONITOR(direct, 2000, 40000)
{
    image::Size size { int(c.rng.below(16)), int(c.rng.below(16)) };
    if (c.rng.chance(1, 12))
        size = { int(c.rng.below(100)), int(c.rng.below(100)) };
    W w(c, any_format(c.rng), false, size, false, "direct");
    w.attributes();
    for (int i = 0; i < 20; ++i)
        w.write_step(size.width > 20 || c.rng.chance(1, 20) ? 120 : 20);
}

VF_MONITOR(indexed, 1200, 25000)
{
    image::Size size { int(c.rng.below(8)), int(c.rng.below(8)) };
    W w(c, any_format(c.rng), true, size, false, "indexed");
    w.attributes();
    for (int i = 0; i < 20; ++i)
        w.write_step(14);
}

} // namespace
