// A reader (or writer) with a history of operations, and its model
#pragma once
#include "model.hpp"

namespace g02 {
using Mode = image::Reader::FalloffMode;
using Slot = image::Reader::ColorSlot;

// Position inside image after falloff, or nothing for background
inline std::optional<i64> falloff(Mode m, i64 p, i64 size)
{
    if (p >= 0 && p < size)
        return p;
    if (size == 0)
        return {};
    switch (m) {
        case Mode::background: return {};
        case Mode::edge: return p < 0 ? 0 : size - 1;
        case Mode::repeat: return ((p % size) + size) % size;
    }
    return {};
}

template<class T> struct Machine {
    vf::Case& c;
    vf::Rng& rng;
    Setup setup;
    Img& img;
    T reader;
    Mode horz = Mode::background, vert = Mode::background;
    bool custom = false;
    LumToSubt converter;
    image::ColorSpaceConverterRegistry registry;
    Color slots[2];
    const char* what;

    Machine(vf::Case& c_, const Format& f, bool indexed, image::Size size, bool computed, const char* w)
        : c(c_), rng(c_.rng), setup(rng, f, indexed, size, computed), img(*setup.image()), reader(img), what(w)
    {
        registry.add(space(0), space(3), converter);
        Format g { CompRepr::int8, 1, true };
        slots[0] = slot_color(img.format, g, { 0, 0, 0, 0 }, 1, false);
        slots[1] = slot_color(img.format, g, { 255, 255, 255, 255 }, 1, false);
        c.nontrivial(vf::Hash().add(int(f.repr)).add(f.space).add(int(f.alpha)).add(int(indexed)).add(img.size.width).add(img.size.height).get());
    }

    std::string describe()
    {
        std::ostringstream o;
        o << what << " image " << img.size.width << "x" << img.size.height << " " << img.format
          << (img.palette ? " indexed" : "") << " falloff " << int(horz) << "," << int(vert);
        return o.str();
    }

    Expect expect(i64 x, i64 y, const Format& f, int& kind)
    {
        auto px = falloff(horz, x, img.size.width);
        auto py = falloff(vert, y, img.size.height);
        std::optional<Color> col;
        kind = 0;
        if (px && py) {
            col = img.resolve(*px, *py);
            kind = (*px == x && *py == y) ? 1 : 2;
            if (!col)
                kind = 3;
        }
        // A color from an image without alpha channel is always solid, and so is what is put in
        // place of it when no alpha is asked for
        return view(col ? *col : slots[0], f, custom);
    }

    void modes()
    {
        auto any = [&] { return rng.pick({ Mode::background, Mode::edge, Mode::repeat }); };
        horz = any();
        if (rng.chance(1, 2)) {
            vert = horz;
            reader.set_falloff_mode(horz);
        }
        else {
            vert = any();
            reader.set_falloff_mode(horz, vert);
        }
    }

    template<class P> void set_pixel(Slot slot, CompRepr r, int sp, bool alpha)
    {
        Format f { r, sp, alpha };
        Comps px = any_color(rng, f);
        P p;
        for (std::size_t i = 0; i < px.size(); ++i)
            p[i] = store<P::comp_repr>(px[i]);
        double opacity = rng.chance(1, 3) ? double(float(rng.unit())) : 1;
        if (slot == Slot::background)
            reader.set_background_color_a(p, float(opacity));
        else
            reader.set_foreground_color_a(p, float(opacity));
        slots[int(slot)] = slot_color(img.format, f, px, opacity, custom);
    }

    void set_color()
    {
        Slot slot = rng.chance(3, 4) ? Slot::background : Slot::foreground;
        switch (rng.below(8)) {
            case 0: set_pixel<image::Pixel_Lum_8>(slot, CompRepr::int8, 0, false); return;
            case 1: set_pixel<image::Pixel_LumA_16>(slot, CompRepr::int16, 0, true); return;
            case 2: set_pixel<image::Pixel_RGB_F>(slot, CompRepr::float_, 1, false); return;
            case 3: set_pixel<image::Pixel_RGBA_F>(slot, CompRepr::float_, 1, true); return;
            case 4: {
                util::Color color(int(rng.below(256)), int(rng.below(256)), int(rng.below(256)),
                                  rng.chance(1, 2) ? 255 : int(rng.below(256)));
                double opacity = rng.chance(1, 3) ? double(float(rng.unit())) : 1;
                if (slot == Slot::background)
                    reader.set_background_color(color, float(opacity));
                else
                    reader.set_foreground_color(color, float(opacity));
                Comps px { double(color.red()), double(color.green()), double(color.blue()), double(color.alpha()) };
                slots[int(slot)] = slot_color(img.format, { CompRepr::int8, 1, true }, px, opacity, custom);
                return;
            }
        }
        Format f = rng.chance(1, 2) ? with_alpha(img.format, rng.chance(1, 2)) : any_format(rng);
        Comps px = any_color(rng, f);
        double opacity = rng.chance(1, 3) ? double(float(rng.unit())) : 1;
        dispatch(f.repr, [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            vector<image::comp_type<R>> v;
            for (double d : px)
                v.push_back(store<R>(d));
            reader.template set_color_a<R>(slot, v.data(), space(f.space), f.alpha, float(opacity));
        });
        slots[int(slot)] = slot_color(img.format, f, px, opacity, custom);
    }

    void get_color()
    {
        Slot slot = rng.chance(1, 2) ? Slot::background : Slot::foreground;
        Format f = rng.chance(1, 2) ? with_alpha(img.format, rng.chance(1, 2)) : any_format(rng);
        bool palette = rng.chance(1, 2) && img.palette;
        std::size_t index = 0;
        if (palette) {
            index = rng.chance(1, 10) ? std::size_t(rng.next()) :
                std::size_t(rng.below(u64(img.palette->num_entries() + 4)));
        }
        dispatch(f.repr, [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            using comp = image::comp_type<R>;
            std::unique_ptr<comp[]> v(new comp[std::size_t(f.channels())]);
            Expect e;
            if (palette) {
                reader.template palette_lookup_a<R>(index, v.get(), space(f.space), f.alpha);
                std::optional<Color> col;
                if (index < std::size_t(img.palette->num_entries()))
                    col = img.palette->entry(i64(index));
                e = view(col ? *col : slots[0], f, custom);
                c.event(col ? "palette entries looked up" : "palette lookups out of range");
            }
            else {
                reader.template get_color_a<R>(slot, v.get(), space(f.space), f.alpha);
                e = view(slots[int(slot)], f, custom);
                c.event("colors read from slots");
            }
            Comps r;
            for (int i = 0; i < f.channels(); ++i)
                r.push_back(load<R>(v[std::size_t(i)]));
            VF_REQUIRE(e.matches(r), palette ? "palette lookup" : "color slot",
                       describe() << " as " << f << " index " << index << ": " << str(r) << " expected " << str(e.c)
                       << (e.exact ? " exactly" : ""));
        });
    }

    int any_pos(int image, int size)
    {
        i64 p;
        switch (rng.below(6)) {
            case 0: p = i64(rng.below(u64(image) + 1)); break;
            case 1: p = i64(rng.below(u64(image) + 2 * u64(size) + 3)) - size - 1; break;
            case 2: p = i64(rng.below(7)) - 3 - (rng.chance(1, 2) ? size : 0); break;
            case 3: p = std::numeric_limits<int>::min() + i64(rng.below(8)); break;
            case 4: p = i64(std::numeric_limits<int>::max()) - size - i64(rng.below(8)); break;
            default:
                p = i64(rng.below(u64(8) * (u64(image) + 1))) - 4 * i64(image);
                break;
        }
        p = std::clamp<i64>(p, std::numeric_limits<int>::min(), i64(std::numeric_limits<int>::max()) - size);
        return int(p);
    }

    template<CompRepr R> void check(Board<R>& board, image::Pos pos, const Format& f, const char* how)
    {
        VF_REQUIRE(board.intact(), "memory outside tray modified", describe() << " " << how << " as " << f);
        // Everything, or a sample of the pixels
        i64 area = i64(board.size.width) * board.size.height;
        i64 step = area > 3000 ? 1 + i64(rng.below(u64(area / 800))) : 1;
        static const char* const names[] = { "background pixels", "pixels inside image",
            "pixels obtained by falloff", "color indexes out of range" };
        long kinds[4] = {};
        for (i64 i = 0; i < area; i += step) {
            int x = int(i % board.size.width), y = int(i / board.size.width);
            int kind;
            Expect e = expect(i64(pos.x) + x, i64(pos.y) + y, f, kind);
            ++kinds[kind];
            Comps r = board.at(x, y);
            VF_REQUIRE(e.matches(r), names[kind],
                       describe() << " " << how << " " << board.size.width << "x" << board.size.height << " at ("
                       << pos.x << ", " << pos.y << ") as " << f << ": pixel (" << x << ", " << y << ") is " << str(r)
                       << " expected " << str(e.c) << (e.exact ? " exactly" : ""));
        }
        for (int i = 0; i < 4; ++i)
            c.event(names[i], kinds[i]);
    }

    template<CompRepr R, class F> void read_as(const Format& f, image::Pos pos, image::Size size, const char* how, F&& func)
    {
        Board<R> board(rng, f.channels(), size);
        img.max_area = 0;
        func(board.tray());
        check(board, pos, f, how);
    }

    template<class P> void block(image::Pos pos, image::Size size, const Format& f)
    {
        image::PixelBlock<P> block(size);
        reader.get_block(pos, block);
        Board<P::comp_repr> board(rng, f.channels(), size);
        auto t = board.tray();
        for (int y = 0; y < size.height; ++y) {
            for (int x = 0; x < size.width; ++x) {
                for (int i = 0; i < f.channels(); ++i)
                    t(x, y)[i] = block.tray()(x, y)[i];
            }
        }
        check(board, pos, f, "pixel block");
    }

    template<class P> void single(image::Pos pos, const Format& f)
    {
        image::Pixel<P> p;
        reader.get_pixel_a(pos, p);
        Board<P::comp_repr> board(rng, f.channels(), { 1, 1 });
        for (int i = 0; i < f.channels(); ++i)
            board.tray()(0, 0)[i] = p[std::size_t(i)];
        check(board, pos, f, "pixel");
    }

    void read(int max_size)
    {
        image::Size size { int(rng.below(u64(max_size))), int(rng.below(u64(max_size))) };
        if (rng.chance(1, 12))
            size = { int(rng.below(3)), 60 + int(rng.below(9000)) };
        else if (rng.chance(1, 12))
            size = { 60 + int(rng.below(9000)), int(rng.below(3)) };
        image::Pos pos { any_pos(img.size.width, size.width), any_pos(img.size.height, size.height) };
        switch (rng.below(9)) {
            case 0:
                read_as<CompRepr::int8>({ CompRepr::int8, 0, false }, pos, size, "get_block_lum",
                                        [&](auto t) { reader.get_block_lum(pos, t); });
                return;
            case 1:
                read_as<CompRepr::int8>({ CompRepr::int8, 0, true }, pos, size, "get_block_luma",
                                        [&](auto t) { reader.get_block_luma(pos, t); });
                return;
            case 2:
                read_as<CompRepr::int8>({ CompRepr::int8, 1, false }, pos, size, "get_block_rgb",
                                        [&](auto t) { reader.get_block_rgb(pos, t); });
                return;
            case 3:
                read_as<CompRepr::int8>({ CompRepr::int8, 1, true }, pos, size, "get_block_rgba",
                                        [&](auto t) { reader.get_block_rgba(pos, t); });
                return;
            case 4:
                switch (rng.below(4)) {
                    case 0: block<image::LumA_16>(pos, size, { CompRepr::int16, 0, true }); return;
                    case 1: block<image::RGB_F>(pos, size, { CompRepr::float_, 1, false }); return;
                    case 2: block<image::RGBA_8>(pos, size, { CompRepr::int8, 1, true }); return;
                    default: block<image::Lum_F>(pos, size, { CompRepr::float_, 0, false }); return;
                }
            case 5: {
                if (size.width == 0)
                    pos.x = std::min(pos.x, std::numeric_limits<int>::max() - 1);
                if (size.height == 0)
                    pos.y = std::min(pos.y, std::numeric_limits<int>::max() - 1);
                switch (rng.below(4)) {
                    case 0: single<image::Lum_8>(pos, { CompRepr::int8, 0, false }); return;
                    case 1: single<image::RGBA_16>(pos, { CompRepr::int16, 1, true }); return;
                    case 2: single<image::RGB_F>(pos, { CompRepr::float_, 1, false }); return;
                }
                util::Color color = reader.get_pixel(pos);
                Board<CompRepr::int8> board(rng, 4, { 1, 1 });
                board.set(0, 0, { double(color.red()), double(color.green()), double(color.blue()),
                                  double(color.alpha()) });
                check(board, pos, { CompRepr::int8, 1, true }, "get_pixel");
                return;
            }
        }
        Format f = rng.chance(1, 2) ? with_alpha(img.format, rng.chance(1, 2)) : any_format(rng);
        dispatch(f.repr, [&](auto tag) {
            constexpr CompRepr R = tag.comp_repr;
            read_as<R>(f, pos, size, "get_block_a",
                       [&](auto t) { reader.template get_block_a<R>(pos, t, space(f.space), f.alpha); });
        });
    }

    void step(int max_size)
    {
        switch (rng.below(10)) {
            case 0: modes(); break;
            case 1: set_color(); break;
            case 2: case 3: get_color(); break;
            case 4:
                if (rng.chance(1, 6) && !custom) {
                    reader.set_custom_color_space_converters(registry);
                    // Default colors are resolved on demand
                    custom = true;
                    c.event("custom converters");
                }
                break;
            default: read(max_size); break;
        }
        VF_REQUIRE(setup.bad_area() == 0, "read outside image", describe());
    }

    void attributes()
    {
        VF_REQUIRE(&reader.get_image() == &img, "image", what);
        VF_REQUIRE(reader.get_image_size() == img.size, "size", what);
        VF_REQUIRE(&reader.get_color_space() == &space(img.format.space), "color space", what);
        VF_EQ(reader.has_alpha_channel(), img.format.alpha, "alpha channel", what);
        VF_EQ(reader.has_indexed_color(), bool(img.palette), "indexed", what);
        VF_REQUIRE(reader.get_comp_repr() == img.format.repr, "component representation", what);
        VF_REQUIRE(reader.get_palette() == img.palette, "palette", what);
        VF_EQ(reader.get_num_channels(), img.format.channels(), "channels", what);
        VF_EQ(reader.get_num_channels_ext(), num_color(img.format.space) + 1, "channels with alpha", what);
        VF_EQ(i64(reader.get_palette_size()), img.palette ? img.palette->num_entries() : i64(0), "palette size", what);
    }
};

} // namespace g02
