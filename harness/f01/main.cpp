// Fonts: the real loaders and faces are driven by random histories and compared with FreeType used
// directly, and with the font description that the fallback loader was given.
#include "fonts.hpp"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_OUTLINE_H
#include <archon/core/value_parser.hpp>
#include <archon/core/format.hpp>
#include <archon/log.hpp>
#include <archon/image.hpp>
#include <archon/util/colors.hpp>
#include <archon/font/face.hpp>
#include <archon/font/loader.hpp>
#include <archon/font/loader_fallback.hpp>
#include <archon/font/loader_freetype.hpp>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <thread>

using namespace archon;
using namespace f01;
namespace fs = std::filesystem;

namespace {
using Vec = font::Face::vector_type;

struct Recorder : log::RootLogger {
    std::mutex mutex;
    vector<string> lines;
    Recorder() : log::RootLogger(std::locale::classic()) {}
    void root_log(std::string_view s) override
    {
        std::lock_guard lock(mutex);
        lines.push_back(string(s));
    }
};

struct OracleError {};

// Glyph in the state in which it was loaded, and what is to be rendered
struct Glyph {
    bool gf = true;
    double horz_advance = 0, vert_advance = 0;
    bool vert_known = false;
    double horz_bearing[2] = {}, vert_bearing[2] = {};
    double size[2] = {};
    FT_Pos bx = 0, by = 0; // Lower left corner of bounding box in outline coordinates
    bool bitmap = false;
};

class Oracle {
public:
    FT_Library lib = nullptr;
    FT_Face face = nullptr;
    FT_Outline outline = {};
    bool have_outline = false;
    Glyph glyph;
    double width = 0, height = 0;
    string data;

    explicit Oracle(string d)
        : data(std::move(d))
    {
        check(FT_Init_FreeType(&lib));
        check(FT_New_Memory_Face(lib, reinterpret_cast<const FT_Byte*>(data.data()), FT_Long(data.size()), 0, &face));
    }
    ~Oracle()
    {
        drop();
        if (face)
            FT_Done_Face(face);
        FT_Done_FreeType(lib);
    }
    void drop()
    {
        if (have_outline)
            FT_Outline_Done(lib, &outline);
        have_outline = false;
    }
    static void check(FT_Error e)
    {
        if (e != 0)
            throw OracleError {};
    }
    void select(int i)
    {
        check(FT_Select_Size(face, i));
        width = double(face->available_sizes[i].x_ppem) / 64;
        height = double(face->available_sizes[i].y_ppem) / 64;
    }
    void scale(double w, double h)
    {
        width = std::round(64 * w) / 64;
        height = std::round(64 * h) / 64;
        check(FT_Set_Char_Size(face, FT_F26Dot6(width * 64), FT_F26Dot6(height * 64), 0, 0));
    }
    void load(unsigned index, bool gf, bool vertical)
    {
        drop();
        check(FT_Load_Glyph(face, index, gf ? FT_LOAD_TARGET_NORMAL : FT_LOAD_NO_HINTING));
        FT_GlyphSlot slot = face->glyph;
        const FT_Glyph_Metrics& m = slot->metrics;
        glyph = {};
        glyph.gf = gf;
        glyph.bitmap = slot->format == FT_GLYPH_FORMAT_BITMAP;
        auto r = [&](double v) { return gf ? std::round(v / 64) : v / 64; };
        auto lo = [&](double v) { return gf ? std::floor(v / 64) : v / 64; };
        auto hi = [&](double v) { return gf ? std::ceil(v / 64) : v / 64; };
        double left = lo(double(m.horiBearingX)), right = hi(double(m.horiBearingX + m.width));
        double bottom = lo(double(m.horiBearingY - m.height)), top = hi(double(m.horiBearingY));
        glyph.horz_advance = r(double(m.horiAdvance));
        glyph.horz_bearing[0] = -left;
        glyph.horz_bearing[1] = -bottom;
        glyph.size[0] = right - left;
        glyph.size[1] = top - bottom;
        glyph.vert_known = vertical;
        if (vertical) {
            glyph.vert_advance = r(double(m.vertAdvance));
            glyph.vert_bearing[0] = -left - r(double(m.vertBearingX - m.horiBearingX));
            glyph.vert_bearing[1] = -bottom - r(double(m.vertAdvance - m.vertBearingY - m.horiBearingY));
        }
        glyph.bx = m.horiBearingX;
        glyph.by = m.horiBearingY - m.height;
        if (!glyph.bitmap) {
            check(FT_Outline_New(lib, FT_UInt(slot->outline.n_points), slot->outline.n_contours, &outline));
            have_outline = true;
            check(FT_Outline_Copy(&slot->outline, &outline));
        }
    }
    // Opacity of pixels of the box that the translated glyph occupies, by rows from the top
    vector<unsigned char> render(Vec t, int left, int bottom, int w, int h)
    {
        vector<unsigned char> out(std::size_t(w) * std::size_t(h));
        if (out.empty() || glyph.bitmap)
            return out;
        FT_Pos x = FT_Pos(std::round(64 * t[0])) - glyph.bx - 64 * FT_Pos(left);
        FT_Pos y = FT_Pos(std::round(64 * t[1])) - glyph.by - 64 * FT_Pos(bottom);
        FT_Outline_Translate(&outline, x, y);
        FT_Bitmap map = {};
        map.rows = unsigned(h);
        map.width = unsigned(w);
        map.pitch = w;
        map.buffer = out.data();
        map.num_grays = 256;
        map.pixel_mode = FT_PIXEL_MODE_GRAY;
        check(FT_Outline_Get_Bitmap(lib, &outline, &map));
        FT_Outline_Translate(&outline, -x, -y);
        return out;
    }
};

fs::path case_dir(vf::Case& c, const char* name = "r")
{
    fs::path d = fs::path(c.tmp_dir) / name;
    fs::create_directories(d);
    return d;
}

auto new_loader(const font::Loader::Implementation& impl, const fs::path& dir, log::Logger& logger) -> std::unique_ptr<font::Loader>
{
    font::Loader::Config config;
    config.logger = &logger;
    return impl.new_loader(dir, std::locale::classic(), config);
}

auto freetype() -> const font::Loader::Implementation&
{
    auto impl = font::Loader::lookup_implementation("freetype");
    VF_REQUIRE(impl && impl == font::loader_freetype_impl() && impl == &font::Loader::get_default_implementation(), "freetype-implementation", "");
    return *impl;
}

int floor_int(double v) { return int(std::floor(v)); }
int ceil_int(double v) { return int(std::ceil(v)); }

// Mask of the current glyph of any face is rendered into part of a block of memory. Everything else
// has to be left alone.
void check_render(vf::Case& c, font::Face& face, const vector<unsigned char>& mask, image::Pos corner, image::Size size, bool overlay, const string& why)
{
    int left = 0, right = 0, bottom = 0, top = 0;
    face.get_glyph_pa_box(left, right, bottom, top);
    VF_REQUIRE(left == corner.x && top == corner.y && right - left == size.width && top - bottom == size.height, "pixel-aligned-box",
               left << " " << right << " " << bottom << " " << top << ", expected " << size.width << "x" << size.height << " at " << corner.x << " " << corner.y << ": " << why);
    image::Size s = face.get_glyph_pa_size();
    VF_REQUIRE(s == size, "pixel-aligned-size", s.width << "x" << s.height << ": " << why);
    if (std::int64_t(size.width) * size.height > 200000)
        return;

    // Placed anywhere relative to a target of any size
    image::Size target { int(c.rng.below(60)), int(c.rng.below(60)) };
    image::Pos pos { int(c.rng.range(-size.width - 2, target.width + 2)) - left, int(c.rng.range(-size.height - 2, target.height + 2)) + top };
    if (c.rng.chance(1, 2)) {
        target = { size.width + int(c.rng.below(4)), size.height + int(c.rng.below(4)) };
        pos = { int(c.rng.below(3)) - left, int(c.rng.below(3)) + top };
    }
    face.set_target_pos(pos);
    image::Box box = face.get_target_glyph_box();
    image::Box expect { { pos.x + left, pos.y - top }, size };
    VF_REQUIRE(box.pos == expect.pos && box.size == expect.size, "target-box", box.pos.x << " " << box.pos.y << " with target " << pos.x << " " << pos.y << ": " << why);
    int hs = 1 + int(c.rng.below(2));
    std::ptrdiff_t horz = hs, vert = std::ptrdiff_t(hs) * target.width + std::ptrdiff_t(c.rng.below(3));
    std::size_t n = target.width == 0 || target.height == 0 ? 0 : std::size_t((target.width - 1) * horz + (target.height - 1) * vert + 1);
    std::unique_ptr<image::int8_type[]> mem(new image::int8_type[n]);
    std::unique_ptr<image::int8_type[]> old(new image::int8_type[n]);
    bool zero = c.rng.chance(1, 2);
    for (std::size_t i = 0; i < n; ++i)
        old[i] = mem[i] = zero ? image::int8_type(0) : image::int8_type(c.rng.next());
    image::int8_type* base = mem.get();
    bool flip = n > 0 && c.rng.chance(1, 4);
    if (flip) { // Bottom row first
        base += (target.height - 1) * vert;
        vert = -vert;
    }
    face.render_glyph_mask_a({ base, horz, vert }, target);
    vector<image::int8_type> e(old.get(), old.get() + n);
    std::size_t inside = 0;
    for (int y = 0; y < target.height; ++y) {
        for (int x = 0; x < target.width; ++x) {
            int gx = x - expect.pos.x, gy = y - expect.pos.y;
            if (gx < 0 || gy < 0 || gx >= size.width || gy >= size.height)
                continue;
            ++inside;
            unsigned char v = mask[std::size_t(gy) * std::size_t(size.width) + std::size_t(gx)];
            // Fully transparent pixels of an outline may or may not be written
            auto& old_value = e[std::size_t(base - mem.get() + x * horz + y * vert)];
            auto new_value = mem[std::size_t(base - mem.get() + x * horz + y * vert)];
            if (overlay && v <= 24 && (old_value == new_value || static_cast<unsigned char>(new_value) <= v + 24)) {
                old_value = new_value;
                continue;
            }
            {
                e[std::size_t(base - mem.get() + x * horz + y * vert)] = image::int8_type(v);
            }
        }
    }
    for (std::size_t i = 0; i < n; ++i)
        VF_REQUIRE(mem[i] == e[i] || (overlay && std::abs(int(static_cast<unsigned char>(mem[i])) - int(static_cast<unsigned char>(e[i]))) <= 24), "rendered-pixel", "at " << i << " of " << n << ": " << int(mem[i]) << " expected " << int(e[i]) << ", target " << target.width << "x" << target.height << " pos " << pos.x << " " << pos.y << " flip " << flip << ": " << why);
    c.event("pixels_compared", inside);
    c.event("pixels_left_alone", n - inside);
    if (inside > 0 && inside < std::size_t(size.width) * std::size_t(size.height))
        c.event("clipped", 1);

    // Through image writer
    if (size.width > 0 && size.height > 0 && c.rng.chance(1, 2)) {
        image::Size is { 1 + int(c.rng.below(40)), 1 + int(c.rng.below(40)) };
        image::BufferedImage_LumA_8 img(is);
        for (auto& w : img.get_buffer())
            w = 77;
        image::Writer writer(img);
        writer.set_foreground_color(util::colors::white);
        writer.set_background_color(util::colors::transparent);
        pos = { int(c.rng.range(-5, 20)) - left, int(c.rng.range(-5, 20)) + top };
        face.set_target_pos(pos);
        face.render_glyph_mask(writer);
        for (int y = 0; y < is.height; ++y) {
            for (int x = 0; x < is.width; ++x) {
                int gx = x - (pos.x + left), gy = y - (pos.y - top);
                bool in = gx >= 0 && gy >= 0 && gx < size.width && gy < size.height;
                int alpha = in ? mask[std::size_t(gy) * std::size_t(size.width) + std::size_t(gx)] : 77;
                int lum = in ? alpha == 0 ? -1 : 255 : 77;
                const image::int8_type* q = &img.get_buffer()[2 * (std::size_t(y) * std::size_t(is.width) + std::size_t(x))];
                int p[2] = { static_cast<unsigned char>(q[0]), static_cast<unsigned char>(q[1]) };
                VF_REQUIRE((int(p[1]) == alpha || (in && overlay && std::abs(p[1] - alpha) <= 24)) && (lum < 0 || (overlay && p[1] == 0) || int(p[0]) == lum), "written-pixel", "at " << x << " " << y << ": " << int(p[0]) << " " << int(p[1]) << " expected " << lum << " " << alpha << ": " << why);
            }
        }
        c.event("written", 1);
    }
}

bool whole(double v) { return v == std::round(v); }

// Random history of one face
VF_MONITOR(f01_history, 1600, 20000)
{
    FontFile f = any_font(c.rng);
    string data = f.ttf.build();
    fs::path dir = case_dir(c);
    write_file(dir / "LiberationMono-Regular.ttf", data);
    Oracle o(data);
    auto loader = new_loader(freetype(), dir, log::Logger::get_null());
    VF_REQUIRE(&loader->get_implementation() == &freetype(), "implementation", "");
    auto face = loader->load_default_face();
    string name = std::to_string(c.index) + " " + f.what;
    VF_EQ(face->get_family_name(), f.family, "family", name);
    VF_EQ(face->is_bold(), f.bold, "bold", name);
    VF_EQ(face->is_italic(), f.italic, "italic", name);
    VF_EQ(face->is_monospace(), f.mono, "monospace", name);
    VF_EQ(face->is_scalable(), f.scalable, "scalable", name);
    int m = int(f.strikes.size());
    VF_EQ(face->get_num_fixed_sizes(), m, "num-fixed-sizes", name);
    for (int i = 0; i < m; ++i) {
        font::Size s = face->get_fixed_size(i);
        VF_REQUIRE(s.width == f.strikes[std::size_t(i)].first && s.height == f.strikes[std::size_t(i)].second, "fixed-size", name);
    }
    auto approx = [&](double w, double h) {
        for (int i = 0; i < m; ++i) {
            auto s = f.strikes[std::size_t(i)];
            if (std::round(64 * w) == 64 * s.first && std::round(64 * h) == 64 * s.second) {
                o.select(i);
                return;
            }
        }
        if (f.scalable) {
            o.scale(w, h);
            return;
        }
        int best = -1;
        double min = 0;
        bool tie = false;
        for (int i = 0; i < m; ++i) {
            auto s = f.strikes[std::size_t(i)];
            double d = (w - s.first) * (w - s.first) + (h - s.second) * (h - s.second);
            if (best < 0 || d < min) {
                best = i;
                min = d;
                tie = false;
            }
            else if (d == min) {
                tie = true;
            }
        }
        if (tie) {
            // Either is fine
            for (int i = 0; i < m; ++i) {
                auto s = f.strikes[std::size_t(i)];
                if (face->get_size().width == s.first && face->get_size().height == s.second && (w - s.first) * (w - s.first) + (h - s.second) * (h - s.second) == min)
                    best = i;
            }
        }
        o.select(best);
    };
    approx(12, 12);
    o.load(0, true, f.vertical);
    Vec t = { 0, 0 };
    int n = f.ttf.num_glyphs();
    vf::Hash sig;
    sig.add(f.what);
    string trace;
    auto why = [&] { return name + ":" + trace; };
    auto note = [&](auto... x) {
        std::ostringstream out;
        out << " [";
        ((out << x << " "), ...);
        out << "]";
        trace += out.str();
        sig.add(out.str());
    };
    auto verify = [&] {
        font::Size s = face->get_size();
        VF_REQUIRE(s.width == o.width && s.height == o.height, "size", s.width << " " << s.height << " expected " << o.width << " " << o.height << ": " << why());
        const Glyph& g = o.glyph;
        VF_EQ(face->get_glyph_advance(), g.horz_advance, "advance", why());
        Vec b = face->get_glyph_bearing();
        VF_REQUIRE(b[0] == g.horz_bearing[0] && b[1] == g.horz_bearing[1], "bearing", b[0] << " " << b[1] << " expected " << g.horz_bearing[0] << " " << g.horz_bearing[1] << ": " << why());
        double va = face->get_glyph_advance(true);
        Vec vb = face->get_glyph_bearing(true);
        if (g.vert_known) {
            VF_EQ(va, g.vert_advance, "vertical-advance", why());
            VF_REQUIRE(vb[0] == g.vert_bearing[0] && vb[1] == g.vert_bearing[1], "vertical-bearing", vb[0] << " " << vb[1] << " expected " << g.vert_bearing[0] << " " << g.vert_bearing[1] << ": " << why());
        }
        VF_REQUIRE(!g.gf || (whole(va) && whole(vb[0]) && whole(vb[1])), "fractional-vertical-metrics", va << " " << vb[0] << " " << vb[1] << ": " << why());
        // Lines
        for (bool vertical : { false, true }) {
            VF_REQUIRE(whole(face->get_baseline_spacing(vertical)) && whole(face->get_baseline_offset(vertical)), "fractional-line-metrics", face->get_baseline_spacing(vertical) << " " << face->get_baseline_offset(vertical) << ": " << why());
        }
        // FreeType may snap to a fixed size
        bool snapped = false;
        for (auto x : f.strikes)
            snapped = snapped || (std::round(o.width) == x.first && std::round(o.height) == x.second);
        if (f.scalable && !snapped) {
            double em = o.face->units_per_EM, up = o.face->ascender, down = o.face->descender, full = o.face->height;
            double spacing = face->get_baseline_spacing(false, false), offset = face->get_baseline_offset(false, false);
            double scale = o.height / em;
            VF_REQUIRE(std::fabs(spacing - full * scale) <= 0.05 + 0.0005 * o.height, "baseline-spacing", spacing << " expected " << full * scale << ": " << why());
            VF_REQUIRE(std::fabs(offset - (full - up - down) / 2 * scale) <= 0.05 + 0.0005 * o.height, "baseline-offset", offset << " expected " << (full - up - down) / 2 * scale << ": " << why());
            scale = std::round(o.height) / em;
            spacing = face->get_baseline_spacing(false, true);
            offset = face->get_baseline_offset(false, true);
            VF_REQUIRE(std::fabs(spacing - full * scale) <= 0.55, "fitted-baseline-spacing", spacing << " expected " << full * scale << ": " << why());
            VF_REQUIRE(std::fabs(offset - (full - up - down) / 2 * scale) <= 1.05, "fitted-baseline-offset", offset << " expected " << (full - up - down) / 2 * scale << ": " << why());
            double max = o.face->max_advance_width;
            scale = o.width / em;
            spacing = face->get_baseline_spacing(true, false);
            offset = face->get_baseline_offset(true, false);
            VF_REQUIRE(std::fabs(spacing - max * scale) <= 0.05 + 0.0005 * o.width, "vertical-baseline-spacing", spacing << " expected " << max * scale << ": " << why());
            VF_REQUIRE(std::fabs(offset - max * scale / 2) <= 0.05 + 0.0005 * o.width, "vertical-baseline-offset", offset << " expected " << max * scale / 2 << ": " << why());
            scale = std::round(o.width) / em;
            spacing = face->get_baseline_spacing(true, true);
            offset = face->get_baseline_offset(true, true);
            VF_REQUIRE(std::fabs(spacing - max * scale) <= 0.55, "fitted-vertical-baseline-spacing", spacing << " expected " << max * scale << ": " << why());
            VF_REQUIRE(std::fabs(offset - max * scale / 2) <= 1.05, "fitted-vertical-baseline-offset", offset << " expected " << max * scale / 2 << ": " << why());
            c.event("line_metrics", 1);
        }
        // Pixels
        int left = floor_int(t[0]), bottom = floor_int(t[1]);
        int right = ceil_int(t[0] + g.size[0]), top = ceil_int(t[1] + g.size[1]);
        if (g.bitmap) {
            left = int(std::round(t[0]));
            bottom = int(std::round(t[1]));
            right = left;
            top = bottom;
        }
        image::Size size { right - left, top - bottom };
        vector<unsigned char> mask;
        if (std::int64_t(size.width) * size.height <= 200000)
            mask = o.render(t, left, bottom, size.width, size.height);
        check_render(c, *face, mask, { left, top }, size, true, why());
        bool ink = false;
        for (unsigned char v : mask)
            ink = ink || v != 0;
        c.event(ink ? "ink" : "blank", 1);
    };
    verify();
    for (int k = 0; k < 10; ++k) {
        switch (c.rng.below(6)) {
            case 0: {
                double w = c.rng.chance(1, 2) ? double(1 + c.rng.below(40)) : 1 + 60 * c.rng.unit(), h = c.rng.chance(1, 2) ? w : 1 + 60 * c.rng.unit();
                if (c.rng.chance(1, 8))
                    h = w = double(200 + c.rng.below(400));
                if (m > 0 && c.rng.chance(1, 2)) {
                    auto s = f.strikes[c.rng.below(f.strikes.size())];
                    w = s.first + c.rng.pick({ 0.0, 0.001, 0.25, -1.5 });
                    h = s.second + c.rng.pick({ 0.0, -0.001, 0.25, 3.0 });
                }
                bool scaled = c.rng.chance(1, 2);
                note(scaled ? "scaled" : "approx", w, h);
                if (!scaled) {
                    face->set_approx_size({ w, h });
                    approx(w, h);
                    c.event("approx_size", 1);
                }
                else if (f.scalable) {
                    face->set_scaled_size({ w, h });
                    o.scale(w, h);
                    c.event("scaled_size", 1);
                }
                else {
                    bool threw = false;
                    try {
                        face->set_scaled_size({ w, h });
                    }
                    catch (std::exception&) {
                        threw = true;
                    }
                    VF_REQUIRE(threw, "scaled-bitmap-font", why());
                    c.event("not_scalable", 1);
                }
                break;
            }
            case 1: {
                int i = int(c.rng.range(-1, m));
                note("fixed", i);
                bool threw = false;
                try {
                    face->set_fixed_size(i);
                }
                catch (std::out_of_range&) {
                    threw = true;
                }
                VF_EQ(threw, i < 0 || i >= m, "fixed-size-range", why());
                bool threw_2 = false;
                try {
                    static_cast<void>(face->get_fixed_size(i));
                }
                catch (std::out_of_range&) {
                    threw_2 = true;
                }
                VF_EQ(threw_2, threw, "get-fixed-size-range", why());
                if (!threw) {
                    o.select(i);
                    c.event("fixed_size", 1);
                }
                break;
            }
            case 2:
            case 3: {
                std::size_t i = c.rng.below(std::uint64_t(n));
                if (c.rng.chance(1, 3))
                    i = face->find_glyph(wchar_t(33 + c.rng.below(94)));
                if (c.rng.chance(1, 8))
                    i = c.rng.pick({ std::size_t(n), std::size_t(n) + 1, ~std::size_t(0), std::size_t(1) << 32, std::size_t(0x80000000) });
                bool gf = c.rng.chance(1, 2);
                note("load", i, gf);
                bool threw = false;
                try {
                    face->load_glyph(i, gf);
                }
                catch (std::out_of_range&) {
                    threw = true;
                }
                VF_EQ(threw, i >= std::size_t(n), "glyph-range", why());
                if (!threw) {
                    o.load(unsigned(i), gf, f.vertical);
                    t = { 0, 0 };
                    c.event("glyph_loaded", 1);
                }
                break;
            }
            case 4: {
                Vec d = { double(c.rng.range(-20, 20)), double(c.rng.range(-20, 20)) };
                if (c.rng.chance(1, 2)) {
                    d[0] += double(c.rng.below(64)) / 64;
                    d[1] += c.rng.unit();
                }
                note("translate", d[0], d[1]);
                face->translate_glyph(d);
                t += d;
                c.event("translated", 1);
                break;
            }
            default: {
                for (int j = 0; j < 20; ++j) {
                    wchar_t ch = wchar_t(c.rng.chance(1, 2) ? c.rng.below(700) : c.rng.chance(1, 2) ? c.rng.below(0x110000) : c.rng.next() & 0x7FFFFFFF);
                    std::size_t i = face->find_glyph(ch), e = FT_Get_Char_Index(o.face, FT_ULong(ch));
                    VF_REQUIRE(i == e && i < std::size_t(n), "find-glyph", long(ch) << " " << i << " expected " << e << ": " << why());
                    c.event(i == 0 ? "not_found" : "found", 1);
                }
                std::size_t a = c.rng.chance(1, 4) ? 0 : c.rng.below(std::uint64_t(n)), b = c.rng.chance(1, 4) ? 0 : c.rng.below(std::uint64_t(n));
                if (c.rng.chance(1, 2)) {
                    a = face->find_glyph(c.rng.pick({ L'A', L'V', L'T', L'L', L'P' }));
                    b = face->find_glyph(c.rng.pick({ L'A', L'V', L'T', L'o', L'y', L'.' }));
                }
                bool gf = c.rng.chance(1, 2), vertical = c.rng.chance(1, 4);
                double k = face->get_kerning(a, b, vertical, gf);
                FT_Vector e = {};
                if (!vertical)
                    Oracle::check(FT_Get_Kerning(o.face, unsigned(a), unsigned(b), gf ? FT_KERNING_DEFAULT : FT_KERNING_UNFITTED, &e));
                VF_REQUIRE(k == double(e.x) / 64 && (!gf || whole(k)), "kerning", a << " " << b << " " << vertical << " " << gf << " " << k << ": " << why());
                if (gf)
                    VF_EQ(face->get_kerning(a, b, vertical), k, "kerning-default", why());
                VF_REQUIRE(k == 0 || (a != 0 && b != 0), "kerning-of-replacement", a << " " << b << " " << k << ": " << why());
                if (k != 0)
                    c.event("kerned", 1);
            }
        }
        verify();
    }
    c.nontrivial(sig.get());
    c.sample([&](std::ostream& o) { o << name << ":" << trace; });
}

// ---------------------------------------------------------------- Fallback font

struct SpecGlyph {
    int x = 0, y = 0, w = 0, h = 0, hbx = 0, hby = 0, vbx = 0, vby = 0, ha = 0, va = 0;
    vector<long> chars;
};

struct SpecModel {
    string family;
    vector<std::pair<long, long>> ranges;
    int width = 0, height = 0;
    bool bold = false, italic = false, mono = false;
    double rw = 0, rh = 0;
    int m[4] = {};
    vector<SpecGlyph> glyphs;
};

template<class Image> vector<unsigned char> crop(const Image& img, int width, int x, int y, int w, int h)
{
    vector<unsigned char> v;
    for (int j = 0; j < h; ++j) {
        for (int i = 0; i < w; ++i)
            v.push_back(static_cast<unsigned char>(img[std::size_t(y + j) * std::size_t(width) + std::size_t(x + i)]));
    }
    return v;
}

auto fallback() -> const font::Loader::Implementation&
{
    auto impl = font::Loader::lookup_implementation("fallback");
    VF_REQUIRE(impl && impl == &font::loader_fallback_impl(), "fallback-implementation", "");
    return *impl;
}

void check_fallback_glyph(vf::Case& c, font::Face& face, const vector<unsigned char>& mask, image::Size size, const string& why)
{
    Vec t = { 0, 0 };
    for (int i = 0; i < 2; ++i) {
        int x = int(std::round(t[0])), y = int(std::round(t[1]));
        check_render(c, face, mask, { x, y + size.height }, size, false, why);
        Vec d = { 20 * c.rng.unit() - 10, 20 * c.rng.unit() - 10 };
        face.translate_glyph(d);
        t += d;
    }
}

VF_MONITOR(f01_fallback, 4000, 60000)
{
    SpecModel s;
    auto& rng = c.rng;
    s.family = rng.pick({ string("Foo"), string("Foo Bar"), string("A  b-c"), string("12 7") });
    {
        long at = 0;
        for (std::uint64_t k = 1 + rng.below(4); k > 0; --k) {
            long first = at + long(rng.below(100)), last = first + long(rng.chance(1, 2) ? 0 : rng.below(1000));
            s.ranges.push_back({ first, last });
            at = last + 1;
        }
    }
    s.width = 1 + int(rng.below(40));
    s.height = 1 + int(rng.below(40));
    s.bold = rng.chance(1, 2);
    s.italic = rng.chance(1, 2);
    s.mono = rng.chance(1, 2);
    s.rw = double(1 + rng.below(400)) / 4;
    s.rh = double(1 + rng.below(400)) / 4;
    for (int& v : s.m)
        v = int(rng.range(-30, 60));
    std::set<long> used;
    for (std::uint64_t k = 1 + rng.below(8); k > 0; --k) {
        SpecGlyph g;
        g.w = int(rng.below(std::uint64_t(s.width + 1)));
        g.h = int(rng.below(std::uint64_t(s.height + 1)));
        g.x = int(rng.below(std::uint64_t(s.width - g.w + 1)));
        g.y = int(rng.below(std::uint64_t(s.height - g.h + 1)));
        for (int* v : { &g.hbx, &g.hby, &g.vbx, &g.vby })
            *v = int(rng.range(-20, 20));
        g.ha = int(rng.below(30));
        g.va = int(rng.below(30));
        if (!s.glyphs.empty()) {
            for (std::uint64_t j = 1 + rng.below(3); j > 0; --j) {
                long ch = long(rng.chance(1, 2) ? rng.below(200) : rng.below(0x110000));
                while (!used.insert(ch).second)
                    ++ch;
                g.chars.push_back(ch);
            }
        }
        s.glyphs.push_back(g);
    }

    // Description as lines of words
    vector<vector<string>> lines;
    auto num = [](auto v) {
        std::ostringstream o;
        o << v;
        return o.str();
    };
    lines.push_back({ s.family });
    lines.emplace_back();
    for (auto [a, b] : s.ranges)
        lines.back().push_back(a == b ? num(a) : num(a) + "-" + num(b));
    lines.push_back({ num(s.width), num(s.height), num(int(s.bold)), num(int(s.italic)), num(int(s.mono)), num(s.rw), num(s.rh), num(s.m[0]), num(s.m[1]), num(s.m[2]), num(s.m[3]) });
    for (auto& g : s.glyphs) {
        lines.push_back({ num(g.x), num(g.y), num(g.w), num(g.h), num(g.hbx), num(g.hby), num(g.vbx), num(g.vby), num(g.ha), num(g.va) });
        for (long ch : g.chars)
            lines.back().push_back(num(ch));
    }

    // Distort
    int error = -1; // Line that contains the error. Zero means elsewhere.
    string what = "ok";
    std::size_t gi = 3 + rng.below(s.glyphs.size());
    bool first = gi == 3;
    image::Size image_size { s.width, s.height };
    string damage;
    if (rng.chance(1, 2)) {
        std::size_t at = gi;
        switch (rng.below(17)) {
            case 0: what = "empty"; lines.clear(); at = 0; error = 0; break;
            case 1: what = "no ranges"; lines.resize(1); at = 0; error = 0; break;
            case 2: what = "no metrics"; lines.resize(2); at = 0; error = 0; break;
            case 3: what = "no glyphs"; lines.resize(3); at = 0; error = 0; break;
            case 4: what = "bad number"; at = 2 + rng.below(lines.size() - 2); lines[at][rng.below(lines[at].size())] = rng.pick({ string("x"), string("1x"), string(at == 2 ? "y" : "99999999999"), string("--1"), string("0x"), string("1,5") }); break;
            case 5: what = "missing word"; at = 2 + rng.below(lines.size() - 2); lines[at].resize(rng.below(std::min(lines[at].size(), std::size_t(10))) + 0); if (lines[at].empty()) lines[at].push_back("1"); break;
            case 6: what = "additional metric"; at = 2; lines[2].push_back("1"); break;
            case 7: what = "code point of replacement glyph"; at = 3; lines[3].push_back("65"); break;
            case 8: what = "no code point"; if (first) { lines.push_back(lines[3]); at = lines.size() - 1; } else lines[gi].resize(10); break;
            case 9: what = "glyph outside image"; {
                bool horz = rng.chance(1, 2);
                switch (rng.below(3)) {
                    case 0: lines[gi][horz ? 0 : 1] = num(-1 - int(rng.below(3))); break;
                    case 1: lines[gi][horz ? 2 : 3] = num(horz ? s.width - s.glyphs[gi - 3].x + 1 : s.height - s.glyphs[gi - 3].y + 1); break;
                    default: lines[gi][horz ? 2 : 3] = rng.pick({ string("2147483647"), string("2147483646") }); break;
                }
                break;
            }
            case 10: what = "negative advance"; lines[gi][rng.chance(1, 2) ? 8 : 9] = num(-1 - int(rng.below(3))); break;
            case 11: what = "repeated code point"; {
                auto line = lines.back();
                if (lines.size() == 4)
                    line.push_back("70");
                lines.push_back(line);
                if (lines.size() == 5)
                    lines.push_back(line);
                at = lines.size() - 1;
                break;
            }
            case 12: what = "overlapping ranges"; at = 1; lines[1].push_back(num(s.ranges.back().second)); break;
            case 13: what = "bad range"; at = 1; lines[1][rng.below(lines[1].size())] = rng.pick({ string("7-3"), string("-"), string("3-"), string("-3"), string("x"), string("1-2-3"), string("-5") }); break;
            case 14: what = "image size"; error = 0; at = 0; (rng.chance(1, 2) ? image_size.width : image_size.height) += 1; break;
            case 15: what = "no image"; error = 0; at = 0; damage = "no"; break;
            default: what = "bad image"; error = 0; at = 0; damage = "bad";
        }
        if (error != 0)
            error = int(at) + 1;
    }

    // Text, with line numbers
    string text;
    int row = 0, error_row = 0, index = 0;
    for (auto& line : lines) {
        while (rng.chance(1, 4)) {
            text += rng.pick({ string("\n"), string("   \n"), string("# Comment\n"), string("  # 1 2 3\n") });
            ++row;
        }
        ++row;
        if (++index == error)
            error_row = row;
        string l(rng.below(3), ' ');
        for (std::size_t i = 0; i < line.size(); ++i)
            l += (i == 0 ? "" : string(1 + rng.below(4), ' ')) + line[i];
        if (rng.chance(1, 4))
            l += " # Comment";
        text += l + "\n";
    }
    if (!text.empty() && rng.chance(1, 4))
        text.pop_back();

    fs::path dir = case_dir(c);
    write_file(dir / "fallback-font.txt", text);
    image::BufferedImage_Lum_8 img(image_size);
    for (auto& w : img.get_buffer())
        w = image::int8_type(rng.next());
    fs::path image_path = dir / "fallback-font.png";
    fs::remove(image_path);
    if (damage != "no")
        image::save(img, image_path, std::locale::classic());
    if (damage == "bad") {
        string d = read_file(image_path);
        write_file(image_path, rng.chance(1, 2) ? d.substr(0, rng.below(d.size())) : string("foo"));
    }

    string why = what + ":\n" + text;
    Recorder log;
    auto loader = new_loader(fallback(), dir, log);
    VF_REQUIRE(log.lines.empty(), "early-log", vf::show(log.lines[0]));
    std::unique_ptr<font::Face> face, face_2;
    string message;
    for (int i = 0; i < 2; ++i) {
        try {
            (i == 0 ? face : face_2) = loader->load_default_face();
        }
        catch (std::exception& e) {
            message = e.what();
        }
        VF_REQUIRE(bool(i == 0 ? face : face_2) == (error < 0), error < 0 ? "font-rejected" : "bad-font-accepted", vf::show(message) << " " << (log.lines.empty() ? "" : log.lines[0]) << " " << why);
    }
    c.nontrivial(vf::Hash().add(text).add(damage).add(image_size.width).add(image_size.height).get());
    c.sample([&](std::ostream& o) { o << "specification with " << s.glyphs.size() << " glyphs and image of " << s.width << "x" << s.height << (error < 0 ? string() : ", defect: " + damage); });
    if (error >= 0) {
        bool found = false, any = false;
        for (auto& l : log.lines) {
            any = any || l.find("ERROR") != string::npos;
            found = found || l.find("fallback-font.txt:" + num(error_row) + ":") != string::npos;
        }
        VF_REQUIRE(any, "unexplained-failure", vf::show(log.lines.empty() ? string() : log.lines[0]) << " " << why);
        VF_REQUIRE(error == 0 || found, "line-of-error", error_row << ", but " << log.lines[0] << " " << why);
        c.event("rejected", 1);
        return;
    }
    c.event("accepted", 1);
    VF_EQ(face->get_family_name(), s.family, "fallback-family", why);
    VF_REQUIRE(face->is_bold() == s.bold && face->is_italic() == s.italic && face->is_monospace() == s.mono && !face->is_scalable(), "fallback-style", why);
    VF_EQ(face->get_num_fixed_sizes(), 1, "fallback-num-fixed-sizes", why);
    for (int i = -1; i < 2; ++i) {
        for (int k = 0; k < 2; ++k) {
            bool threw = false;
            try {
                if (k == 0)
                    face->set_fixed_size(i);
                else
                    static_cast<void>(face->get_fixed_size(i));
            }
            catch (std::out_of_range&) {
                threw = true;
            }
            VF_EQ(threw, i != 0, "fallback-fixed-size-range", i);
        }
    }
    bool threw = false;
    try {
        face->set_scaled_size({ 12, 12 });
    }
    catch (std::exception&) {
        threw = true;
    }
    VF_REQUIRE(threw, "fallback-scaled", why);
    face->set_approx_size({ double(rng.below(100)), double(rng.below(100)) });
    font::Size a = face->get_size(), b = face->get_fixed_size(0);
    VF_REQUIRE(a.width == s.rw && a.height == s.rh && b.width == s.rw && b.height == s.rh, "fallback-size", why);
    for (bool gf : { false, true }) {
        VF_REQUIRE(face->get_baseline_offset(false, gf) == s.m[0] && face->get_baseline_spacing(false, gf) == s.m[1] && face->get_baseline_offset(true, gf) == s.m[2] && face->get_baseline_spacing(true, gf) == s.m[3], "fallback-line-metrics", why);
    }
    for (int k = 0; k < 30; ++k) {
        long ch = long(rng.chance(1, 2) ? rng.below(210) : rng.below(0x110000));
        std::size_t e = 0;
        if (rng.chance(1, 3) && !used.empty())
            ch = *std::next(used.begin(), std::ptrdiff_t(rng.below(used.size())));
        for (std::size_t i = 0; i < s.glyphs.size(); ++i) {
            for (long x : s.glyphs[i].chars) {
                if (x == ch)
                    e = i;
            }
        }
        VF_EQ(face->find_glyph(wchar_t(ch)), e, "fallback-find", ch << " " << why);
    }
    // The initial glyph is the replacement glyph
    for (int k = 0; k < 4; ++k) {
        std::size_t i = 0;
        font::Face& f = rng.chance(1, 2) ? *face : *face_2;
        if (k > 0) {
            i = rng.below(s.glyphs.size() + 2);
            threw = false;
            try {
                f.load_glyph(i, rng.chance(1, 2));
            }
            catch (std::out_of_range&) {
                threw = true;
            }
            VF_EQ(threw, i >= s.glyphs.size(), "fallback-glyph-range", i);
            if (threw)
                continue;
        }
        const SpecGlyph& g = s.glyphs[i];
        string w = "glyph " + num(i) + " " + why;
        Vec hb = f.get_glyph_bearing(false), vb = f.get_glyph_bearing(true);
        VF_REQUIRE(hb[0] == g.hbx && hb[1] == g.hby && vb[0] == g.vbx && vb[1] == g.vby && f.get_glyph_advance(false) == g.ha && f.get_glyph_advance(true) == g.va, "fallback-metrics", w);
        VF_EQ(f.get_kerning(rng.below(s.glyphs.size()), i), 0.0, "fallback-kerning", w);
        check_fallback_glyph(c, f, crop(img.get_buffer(), s.width, g.x, g.y, g.w, g.h), { g.w, g.h }, w);
        c.event("fallback_glyphs", 1);
    }
}

// A regenerated fallback font has the glyphs of the original font
VF_MONITOR(f01_regen, 240, 3000)
{
    auto& rng = c.rng;
    FontFile f = any_font(rng);
    while (!f.scalable || f.what.find("line-metrics") != string::npos)
        f = any_font(rng);
    fs::path dir = case_dir(c, "g");
    write_file(dir / "LiberationMono-Regular.ttf", f.ttf.build());
    for (auto n : { "fallback-font.txt", "fallback-font.png", "fallback-font-new.txt", "fallback-font-new.png" })
        fs::remove(dir / n);
    int old = int(rng.below(3));
    vector<std::pair<long, long>> ranges, old_ranges = { { 0, 127 } };
    double old_size = 0;
    if (old == 1) {
        old_ranges = { { 40, 80 }, { 200, 220 + long(rng.below(100)) } };
        old_size = double(6 + rng.below(20));
        std::ostringstream o;
        o << "Foo\n40-80 200-" << old_ranges[1].second << "\n5 5 0 0 0 " << old_size << " " << old_size << " 1 1 1 1\n0 0 1 1 0 0 0 0 1 1\n";
        write_file(dir / "fallback-font.txt", o.str());
    }
    else if (old == 2) {
        write_file(dir / "fallback-font.txt", "Foo\n40-30\n");
    }
    auto loader = new_loader(freetype(), dir, log::Logger::get_null());
    auto face = loader->load_default_face();
    double size = double(4 + rng.below(30));
    face->set_approx_size({ size, rng.chance(1, 2) ? size : size + 3 });
    font::Size chosen = face->get_size();
    bool keep = rng.chance(1, 2);
    if (rng.chance(2, 3)) {
        long at = 0;
        for (std::uint64_t k = 1 + rng.below(4); k > 0; --k) {
            long first = at + long(rng.below(300)), last = first + long(rng.chance(1, 3) ? 0 : rng.below(60));
            ranges.push_back({ first, last });
            at = last + 1;
        }
    }
    vector<font::CodePointRange> r;
    for (auto [a, b] : ranges) {
        font::CodePoint x, y;
        VF_REQUIRE(x.try_from_int(font::CodePoint::int_type(a)) && y.try_from_int(font::CodePoint::int_type(b)), "code-point", a << " " << b);
        r.push_back(a == b ? font::CodePointRange(x) : font::CodePointRange(x, y));
    }
    std::ostringstream w;
    w << f.what << " size " << chosen.width << "x" << chosen.height << " keep " << keep << " old " << old << " ranges";
    for (auto [a, b] : ranges)
        w << " " << a << "-" << b;
    string why = w.str();
    Recorder log;
    font::Loader::Config config;
    config.logger = &log;
    font::regen_fallback_font(*face, keep, core::Span<const font::CodePointRange>(r.data(), r.size()), dir, std::locale::classic(), config);
    if (keep && old == 1)
        chosen = { old_size, old_size };
    font::Size now = face->get_size();
    VF_REQUIRE(now.width == chosen.width && now.height == chosen.height, "regen-size", now.width << "x" << now.height << ": " << why);
    VF_REQUIRE(fs::exists(dir / "fallback-font-new.txt") && fs::exists(dir / "fallback-font-new.png"), "regen-files", why);
    fs::rename(dir / "fallback-font-new.txt", dir / "fallback-font.txt");
    fs::rename(dir / "fallback-font-new.png", dir / "fallback-font.png");
    Recorder log_2;
    auto loader_2 = new_loader(fallback(), dir, log_2);
    std::unique_ptr<font::Face> face_2;
    try {
        face_2 = loader_2->load_default_face();
    }
    catch (std::exception&) {
        VF_REQUIRE(false, "regen-load", (log_2.lines.empty() ? "" : log_2.lines[0]) << ": " << why);
    }
    VF_REQUIRE(face_2->get_family_name() == f.family && face_2->is_bold() == f.bold && face_2->is_italic() == f.italic && face_2->is_monospace() == f.mono, "regen-properties", why);
    now = face_2->get_size();
    VF_REQUIRE(std::fabs(now.width - chosen.width) < 0.001 && std::fabs(now.height - chosen.height) < 0.001, "regen-render-size", now.width << "x" << now.height << ": " << why);
    for (bool v : { false, true })
        VF_REQUIRE(face_2->get_baseline_offset(v) == face->get_baseline_offset(v) && face_2->get_baseline_spacing(v) == face->get_baseline_spacing(v), "regen-line-metrics", why);
    if (ranges.empty())
        ranges = old == 1 ? old_ranges : vector<std::pair<long, long>> { { 0, 127 } };
    std::map<std::size_t, std::size_t> indices = { { 0, 0 } };
    std::set<long> inside;
    for (auto [a, b] : ranges) {
        for (long ch = a; ch <= b; ++ch) {
            inside.insert(ch);
            std::size_t i = face->find_glyph(wchar_t(ch)), j = face_2->find_glyph(wchar_t(ch));
            VF_REQUIRE((i == 0) == (j == 0), "regen-code-point", ch << " " << i << " " << j << ": " << why);
            auto p = indices.emplace(i, j);
            VF_REQUIRE(p.first->second == j, "regen-different-glyphs", ch << ": " << why);
        }
    }
    for (int k = 0; k < 50; ++k) {
        long ch = long(rng.below(1000));
        VF_REQUIRE(inside.count(ch) > 0 || face_2->find_glyph(wchar_t(ch)) == 0, "regen-extra-code-point", ch << ": " << why);
    }
    for (auto [i, j] : indices) {
        face->load_glyph(i);
        face_2->load_glyph(j);
        image::Size s = face->get_glyph_pa_size();
        auto n = std::size_t(s.width) * std::size_t(s.height);
        vector<image::int8_type> mask(n);
        face->set_target_pos({ 0, s.height });
        face->render_glyph_mask_a({ mask.data(), 1, s.width }, s);
        for (bool v : { false, true }) {
            Vec x = face->get_glyph_bearing(v), y = face_2->get_glyph_bearing(v);
            VF_REQUIRE(x[0] == y[0] && x[1] == y[1] && face->get_glyph_advance(v) == face_2->get_glyph_advance(v), "regen-glyph-metrics", i << ": " << why);
        }
        check_fallback_glyph(c, *face_2, { mask.begin(), mask.end() }, s, "glyph " + std::to_string(i) + " " + why);
        c.event("regenerated_glyphs", 1);
    }
    c.nontrivial(vf::Hash().add(why).get());
}

// Damaged font files
VF_MONITOR(f01_damaged, 2500, 40000)
{
    auto& rng = c.rng;
    FontFile f = any_font(rng);
    for (std::uint64_t k = rng.below(4); k > 0; --k) {
        auto i = f.ttf.tables.begin();
        if (rng.chance(1, 2))
            i = f.ttf.tables.find(rng.pick({ string("head"), string("hhea"), string("maxp"), string("OS/2") }));
        else
            std::advance(i, std::ptrdiff_t(rng.below(f.ttf.tables.size())));
        if (i == f.ttf.tables.end())
            continue;
        string& t = i->second;
        switch (rng.below(6)) {
            case 0:
                f.ttf.tables.erase(i);
                break;
            case 1:
                t.resize(rng.below(t.size() + 1));
                break;
            default:
                for (std::uint64_t j = 1 + rng.below(4); j > 0 && !t.empty(); --j)
                    t[rng.below(t.size())] = char(rng.chance(1, 2) ? int(rng.below(256)) : rng.pick({ 0, 1, 0x7F, 0x80, 0xFF }));
        }
    }
    string data = f.ttf.build();
    for (std::uint64_t k = rng.below(3); k > 0; --k)
        data[rng.below(400)] = char(rng.next());
    if (rng.chance(1, 10))
        data.resize(rng.below(data.size()));
    fs::path dir = case_dir(c, "d");
    write_file(dir / "LiberationMono-Regular.ttf", data);
    auto loader = new_loader(freetype(), dir, log::Logger::get_null());
    std::unique_ptr<font::Face> face;
    try {
        face = loader->load_default_face();
    }
    catch (std::exception&) {
        c.event("unusable", 1);
    }
    if (face) {
        c.event("usable", 1);
        static_cast<void>(face->get_family_name());
        for (int k = 0; k < 12; ++k) {
            try {
                switch (rng.below(4)) {
                    case 0:
                        face->set_approx_size({ 1 + 40 * rng.unit(), 1 + 40 * rng.unit() });
                        break;
                    case 1:
                        static_cast<void>(face->get_kerning(rng.below(100), rng.below(100)));
                        break;
                    default:
                        face->load_glyph(rng.chance(1, 2) ? face->find_glyph(wchar_t(rng.below(300))) : rng.below(700), rng.chance(1, 2));
                        face->translate_glyph({ 10 * rng.unit(), -10 * rng.unit() });
                }
                image::Size size { 50, 40 };
                vector<image::int8_type> mask(50 * 40);
                face->set_target_pos({ int(rng.range(-10, 50)), int(rng.range(-10, 50)) });
                face->render_glyph_mask_a({ mask.data(), 1, 50 }, size);
                c.event("rendered", 1);
            }
            catch (std::exception&) {
                c.event("error", 1);
            }
        }
    }
    c.nontrivial(vf::Hash().add(data).get());
}

// Many threads share a loader, each with a face of its own
VF_MONITOR(f01_threads, 60, 600)
{
    auto& rng = c.rng;
    fs::path dir = case_dir(c, "t");
    FontFile f = any_font(rng);
    write_file(dir / "LiberationMono-Regular.ttf", f.ttf.build());
    fs::copy_file(FONT_DIR "/fallback-font.txt", dir / "fallback-font.txt", fs::copy_options::overwrite_existing);
    fs::copy_file(FONT_DIR "/fallback-font.png", dir / "fallback-font.png", fs::copy_options::overwrite_existing);
    bool ft = rng.chance(1, 2);
    Recorder log;
    auto& impl = ft ? freetype() : fallback();
    auto run = [](const font::Loader& loader, std::uint64_t seed) {
        vf::Rng rng(seed);
        vf::Hash h;
        for (int k = 0; k < 2; ++k) {
            auto face = loader.load_default_face();
            for (int i = 0; i < 6; ++i) {
                if (rng.chance(1, 3))
                    face->set_approx_size({ double(5 + rng.below(20)) });
                face->load_glyph(face->find_glyph(wchar_t(rng.below(300))), rng.chance(1, 2));
                vector<image::int8_type> mask(30 * 30);
                face->set_target_pos({ 3, 25 });
                face->render_glyph_mask_a({ mask.data(), 1, 30 }, { 30, 30 });
                for (auto v : mask)
                    h.add(int(v));
                h.add(std::int64_t(64 * face->get_glyph_advance()));
            }
        }
        return h.get();
    };
    int n = 2 + int(rng.below(5));
    std::uint64_t seed = rng.next();
    vector<std::uint64_t> expect(std::size_t(n), 0), got(std::size_t(n), 0);
    {
        auto loader = new_loader(impl, dir, log);
        for (int i = 0; i < n; ++i)
            expect[std::size_t(i)] = run(*loader, seed + std::uint64_t(i));
    }
    {
        auto loader = new_loader(impl, dir, log);
        vector<std::thread> threads;
        for (int i = 0; i < n; ++i)
            threads.emplace_back([&, i] { got[std::size_t(i)] = run(*loader, seed + std::uint64_t(i)); });
        for (auto& t : threads)
            t.join();
    }
    for (int i = 0; i < n; ++i)
        VF_EQ(got[std::size_t(i)], expect[std::size_t(i)], "concurrent-result", f.what << " " << ft);
    c.event(ft ? "freetype_threads" : "fallback_threads", std::uint64_t(n));
    c.nontrivial(vf::Hash().add(seed).add(n).add(f.what).get());
}

// Code points, ranges and sizes as text
VF_MONITOR(f01_values, 20000, 200000)
{
    auto& rng = c.rng;
    std::locale loc = std::locale::classic();
    core::ValueParser parser(loc);
    using Int = font::CodePoint::int_type;
    Int a = Int(rng.chance(1, 2) ? rng.below(300) : rng.chance(1, 2) ? rng.below(0x110000) : rng.next());
    Int b = Int(rng.chance(1, 2) ? a + Int(rng.below(30)) : Int(rng.below(0x110000)));
    font::CodePoint p, q;
    bool ok = p.try_from_int(a), ok_2 = q.try_from_int(b);
    VF_EQ(ok, a != WEOF, "code-point-from-int", a);
    VF_EQ(ok_2, b != WEOF, "code-point-from-int", b);
    if (ok && ok_2) {
        VF_REQUIRE(p.to_int() == a && p.to_char() == wchar_t(a), "code-point-value", a);
        font::CodePoint r;
        VF_REQUIRE(r.try_from_char(wchar_t(a)) && r.to_int() == a, "code-point-from-char", a);
        string s = core::format(loc, "%s", p);
        VF_EQ(s, std::to_string(a), "code-point-text", a);
        font::CodePoint t;
        VF_REQUIRE(parser.parse(std::string_view(s), t) && t.to_int() == a, "code-point-parse", s);
        font::CodePointRange range(p, q), range_2;
        if (a <= b) {
            s = core::format(loc, "%s", range);
            VF_EQ(s, a == b ? std::to_string(a) : std::to_string(a) + "-" + std::to_string(b), "range-text", a << " " << b);
        }
        else {
            s = std::to_string(a) + "-" + std::to_string(b);
        }
        bool parsed = parser.parse(std::string_view(s), range_2);
        VF_EQ(parsed, a <= b, "range-parse", s);
        if (parsed)
            VF_REQUIRE(range_2.first().to_int() == a && range_2.last().to_int() == b, "range-value", s);
    }
    double w = double(rng.range(-1000, 4000)) / 8, h = rng.chance(1, 2) ? w : double(rng.range(-1000, 4000)) / 8;
    font::Size size { w, h }, size_2;
    string s = core::format(loc, "%s", size);
    VF_REQUIRE(parser.parse(std::string_view(s), size_2) && size_2.width == w && size_2.height == h, "size-text", s << " of " << w << " " << h);
    std::ostringstream o;
    o << w;
    font::Size size_3;
    VF_REQUIRE(parser.parse(std::string_view(o.view()), size_3) && size_3.width == w && size_3.height == w, "size-of-one-number", o.str());
    c.event("values", 1);
    c.nontrivial(vf::Hash().add(a).add(b).add(s).get());
}
} // unnamed namespace
