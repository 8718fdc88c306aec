// The reader: any image (direct or indexed color, any component representation, color space, and
// with or without alpha), any falloff mode, any read area, any requested format.
#include "machine.hpp"

namespace {
using namespace g02;
VF_MONITOR(direct, 2000, 40000)
{
    image::Size size { int(c.rng.below(20)), int(c.rng.below(20)) };
    if (c.rng.chance(1, 10))
        size = { int(c.rng.below(200)), int(c.rng.below(200)) };
    if (c.rng.chance(1, 12))
        size.width = 0;
    Machine<image::Reader> m(c, any_format(c.rng), false, size, false, "direct");
    m.attributes();
    for (int i = 0; i < 12; ++i)
        m.step(c.rng.chance(1, 12) ? 160 : 30);
}

VF_MONITOR(indexed, 1500, 40000)
{
    image::Size size { int(c.rng.below(16)), int(c.rng.below(16)) };
    Machine<image::Reader> m(c, any_format(c.rng), true, size, false, "indexed");
    m.attributes();
    for (int i = 0; i < 12; ++i)
        m.step(c.rng.chance(1, 12) ? 160 : 24);
}

// Images whose extent is close to the largest representable extent
VF_MONITOR(huge, 500, 12000)
{
    constexpr int max = std::numeric_limits<int>::max();
    int a = max - int(c.rng.below(3)), b = 1 + int(c.rng.below(100));
    image::Size size { a, b };
    if (c.rng.chance(1, 2))
        std::swap(size.width, size.height);
    if (c.rng.chance(1, 4))
        size = { 1 << 30, 1 << 20 };
    Machine<image::Reader> m(c, any_format(c.rng), c.rng.chance(1, 3), size, true, "huge");
    m.attributes();
    for (int i = 0; i < 8; ++i)
        m.step(20);
}

// The result is the same when an area is read in pieces, and by another reader
VF_MONITOR(pieces, 200, 6000)
{
    vf::Rng& rng = c.rng;
    Format nf = any_format(rng);
    Setup setup(rng, nf, rng.chance(1, 3), { 1 + int(rng.below(20)), 1 + int(rng.below(20)) });
    Img& img = *setup.image();
    auto any = [&] { return rng.pick({ Mode::background, Mode::edge, Mode::repeat }); };
    Mode h = any(), v = any();
    Format f = any_format(rng);
    image::Size size { 1 + int(rng.below(90)), 1 + int(rng.below(90)) };
    image::Pos pos { int(rng.below(80)) - 60, int(rng.below(80)) - 60 };
    dispatch(f.repr, [&](auto tag) {
        constexpr CompRepr R = tag.comp_repr;
        Board<R> a(rng, f.channels(), size), b(rng, f.channels(), size);
        image::Reader r1(img), r2(img);
        r1.set_falloff_mode(h, v);
        r2.set_falloff_mode(h, v);
        r1.set_background_color(util::Color(10, 100, 200, 100));
        r2.set_background_color(util::Color(10, 100, 200, 100));
        r1.template get_block_a<R>(pos, a.tray(), space(f.space), f.alpha);
        int w0 = int(rng.below(u64(size.width) + 1)), h0 = int(rng.below(u64(size.height) + 1));
        vector<image::Box> parts {
            { { 0, 0 }, { w0, h0 } },
            { { w0, 0 }, { size.width - w0, h0 } },
            { { 0, h0 }, { w0, size.height - h0 } },
            { { w0, h0 }, { size.width - w0, size.height - h0 } },
        };
        for (const image::Box& p : parts) {
            r2.template get_block_a<R>({ pos.x + p.pos.x, pos.y + p.pos.y }, b.tray().subtray(p), space(f.space),
                                       f.alpha);
        }
        for (int y = 0; y < size.height; ++y) {
            for (int x = 0; x < size.width; ++x) {
                VF_REQUIRE(a.at(x, y) == b.at(x, y), "reading in pieces",
                           nf << " as " << f << " (" << x << ", " << y << ") " << str(a.at(x, y)) << " vs "
                           << str(b.at(x, y)));
            }
        }
    });
    VF_REQUIRE(setup.bad_area() == 0, "read outside image", nf);
    c.event("areas read in pieces");
    c.nontrivial(vf::Hash().add(int(h)).add(int(v)).add(size.width).get());
}

} // namespace
