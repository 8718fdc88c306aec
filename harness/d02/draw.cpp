// D02: What is seen in windows when drawing through the X11-based implementation, on simulated X
// servers with visuals of all classes, and with colormaps in various states.

#include "world.hpp"

using namespace d02;

namespace {

struct Lin {
    double r = 0, g = 0, b = 0;
};

double expand(double v) { return (v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4)); }
double compress(double v) { return (v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055); }
double lum(const Lin& c) { return 0.2126 * c.r + 0.7152 * c.g + 0.0722 * c.b; }

struct Target {
    bool known = false;
    bool blended = false; // Not opaque
    double r = 0, g = 0, b = 0, a = 1; // Compressed
};

enum class Kind { levels, gray, palette };

struct Scheme {
    Kind kind = Kind::levels;
    double max[3] = { 255, 255, 255 };
    vector<Lin> palette;
    bool gray_palette = false;
    const char* name = "";
};

struct Win {
    std::unique_ptr<disp::Window> win;
    disp::WindowEventHandler handler;
    XID id = 0;
    int w = 0, h = 0;
    bool mapped = false, dbe = false, fullscreen = false;
    vector<Target> front, back;
    Scheme scheme;
    bool resizable = false;
    int min_w = 0, min_h = 0;
    string title;
    int screen = 0;
    struct Tex {
        std::unique_ptr<disp::Texture> tex;
        int w = 0, h = 0;
        vector<Target> px;
    };
    vector<Tex> textures;
};

struct Draw {
    vf::Case& c;
    vf::Rng& rng;
    Sim sim;
    vf::Hash sig;
    std::unique_ptr<disp::Connection> conn;
    disp::Connection::Config config;
    vector<std::unique_ptr<Win>> windows;
    // For each visual: whether a format for it is expected to be supported
    std::map<VisualID, int> bpps;
    std::map<VisualID, bool> fake;
    string trace;
    double dev = 0;
    long checked = 0, colors = 0;

    Draw(vf::Case& case_)
        : c(case_)
        , rng(case_.rng)
    {
    }

    int below(int n) { return int(rng.below(std::uint64_t(n))); }
    int range(int a, int b) { return int(rng.range(a, b)); }

    VisOpt random_visual()
    {
        VisOpt o;
        o.dbe = rng.chance(1, 2);
        static const ulong masks[][4] = {
            { 24, 0xFF0000, 0xFF00, 0xFF },
            { 24, 0xFF, 0xFF00, 0xFF0000 },
            { 16, 0xF800, 0x7E0, 0x1F },
            { 16, 0x1F, 0x7E0, 0xF800 },
            { 15, 0x7C00, 0x3E0, 0x1F },
            { 15, 0x1F, 0x3E0, 0x7C00 },
            { 8, 0xE0, 0x1C, 3 },
            { 8, 7, 0x38, 0xC0 },
            { 32, 0xFF0000, 0xFF00, 0xFF }, // With alpha channel
        };
        switch (below(8)) {
            case 0:
            case 1:
            case 2: {
                auto& m = masks[below(9)];
                o.cls = (rng.chance(2, 3) ? TrueColor : DirectColor);
                o.depth = int(m[0]);
                o.red = m[1];
                o.green = m[2];
                o.blue = m[3];
                o.colormap_size = (o.depth >= 24 ? 256 : o.depth == 8 ? 8 : o.depth == 15 ? 32 : 64);
                break;
            }
            case 3:
                o.cls = StaticGray;
                o.depth = 8;
                break;
            case 4:
                o.cls = GrayScale;
                o.depth = 8;
                break;
            case 5:
                o.cls = StaticColor;
                o.depth = 8;
                if (rng.chance(1, 2)) {
                    auto& m = masks[6 + below(2)];
                    o.red = m[1];
                    o.green = m[2];
                    o.blue = m[3];
                }
                break;
            default:
                o.cls = PseudoColor;
                o.depth = rng.pick({ 8, 8, 8, 15, 16 });
                o.colormap_size = 1 << o.depth;
                break;
        }
        return o;
    }

    // Colors of default colormap
    void init_cmap(const mock::Vis& v, XID id)
    {
        mock::Cmap& cm = sim.server.cmaps.at(id);
        int n = v.info.colormap_size;
        auto field = [&](ulong mask, ulong p) {
            ulong max = mask >> mock::shift_of(mask);
            return int(((p & mask) >> mock::shift_of(mask)) * 65535 / max);
        };
        switch (v.info.c_class) {
            case StaticGray:
                for (int i = 0; i < n; ++i) {
                    int val = i * 65535 / (n - 1);
                    cm.cells[i].color = { val, val, val };
                }
                break;
            case StaticColor:
                for (int i = 0; i < n; ++i) {
                    if (v.info.red_mask != 0)
                        cm.cells[i].color = { field(v.info.red_mask, i), field(v.info.green_mask, i),
                                              field(v.info.blue_mask, i) };
                    else
                        cm.cells[i].color = { below(256) * 257, below(256) * 257, below(256) * 257 };
                }
                break;
            case TrueColor:
                break;
            case DirectColor:
            case GrayScale:
            case PseudoColor: {
                int free = rng.pick({ 0, 5, 20, 63, 64, 100, n });
                for (int i = 0; i < n; ++i) {
                    mock::Cell& cell = cm.cells[i];
                    if (below(n) < free)
                        continue;
                    cell.foreign = true;
                    cell.shared = rng.chance(3, 4);
                    cell.color = { below(65536), below(65536), below(65536) };
                    if (rng.chance(1, 6))
                        cell.color = { below(4) * 21845, below(4) * 21845, below(4) * 21845 };
                    if (v.info.c_class == GrayScale)
                        cell.color.g = cell.color.b = cell.color.r;
                }
            }
        }
    }

    void add_std_map(int screen, const mock::Vis& v)
    {
        int n = v.info.colormap_size;
        bool gray = (v.info.c_class == StaticGray || v.info.c_class == GrayScale);
        bool decomposed = (v.info.c_class == TrueColor || v.info.c_class == DirectColor);
        XStandardColormap m{};
        m.visualid = v.visual.visualid;
        XID id = sim.cmap(v);
        m.colormap = id;
        mock::Cmap& cm = sim.server.cmaps.at(id);
        if (v.info.c_class == StaticGray || v.info.c_class == StaticColor)
            cm.cells = sim.server.cmaps.at(sim.default_cmaps[std::size_t(screen)]).cells;
        for (mock::Cell& cell : cm.cells) {
            cell.foreign = cell.shared = true;
            if (v.info.c_class == GrayScale || v.info.c_class == PseudoColor || v.info.c_class == DirectColor) {
                int x = below(65536);
                cell.color = { x, x, x };
            }
        }
        if (decomposed) {
            m.red_max = v.info.red_mask >> mock::shift_of(v.info.red_mask);
            m.green_max = v.info.green_mask >> mock::shift_of(v.info.green_mask);
            m.blue_max = v.info.blue_mask >> mock::shift_of(v.info.blue_mask);
            m.red_mult = 1ul << mock::shift_of(v.info.red_mask);
            m.green_mult = 1ul << mock::shift_of(v.info.green_mask);
            m.blue_mult = 1ul << mock::shift_of(v.info.blue_mask);
            if (v.info.c_class == DirectColor) {
                if (rng.chance(1, 3))
                    m.red_max /= 2; // Invalid
                for (ulong i = 0; i < cm.cells.size(); ++i) {
                    cm.cells[i].color.r = int(std::min(i * 65535 / m.red_max, 65535ul));
                    cm.cells[i].color.g = int(std::min(i * 65535 / m.green_max, 65535ul));
                    cm.cells[i].color.b = int(std::min(i * 65535 / m.blue_max, 65535ul));
                }
            }
        }
        else if (gray) {
            m.red_max = ulong(rng.pick({ 1, 15, 31, 200, n - 1 }));
            m.red_mult = 1;
            m.base_pixel = ulong(range(0, n - 1 - int(m.red_max)));
            if (v.info.c_class == StaticGray) {
                m.red_max = ulong(n - 1);
                m.base_pixel = 0;
            }
            if (rng.chance(1, 4)) {
                if (rng.chance(1, 2))
                    m.red_max = ulong(n); // Invalid
                else
                    m.red_mult = 2;
                m.base_pixel = (rng.chance(1, 2) ? 0 : 1);
            }
            for (ulong i = 0; i <= m.red_max; ++i) {
                if (m.base_pixel + i < cm.cells.size() && v.info.c_class == GrayScale) {
                    int x = int(i * 65535 / m.red_max);
                    cm.cells[m.base_pixel + i].color = { x, x, x };
                }
            }
        }
        else if (v.info.c_class == PseudoColor) {
            static const int sizes[][3] = { { 6, 6, 6 }, { 8, 8, 4 }, { 5, 7, 3 }, { 2, 2, 2 }, { 4, 4, 4 }, { 16, 4, 4 } };
            auto& s = sizes[below(6)];
            m.red_max = ulong(s[0] - 1);
            m.green_max = ulong(s[1] - 1);
            m.blue_max = ulong(s[2] - 1);
            ulong* mults[3] = { &m.red_mult, &m.green_mult, &m.blue_mult };
            ulong maxs[3] = { m.red_max, m.green_max, m.blue_max };
            int order[3] = { 0, 1, 2 };
            for (int i = 2; i > 0; --i)
                std::swap(order[i], order[range(0, i)]);
            ulong mult = 1;
            for (int i : order) {
                *mults[i] = mult;
                mult *= maxs[i] + 1;
            }
            m.base_pixel = ulong(range(0, n - int(mult)));
            if (rng.chance(1, 4)) {
                switch (below(3)) {
                    case 0:
                        m.base_pixel = ulong(n); // Invalid
                        break;
                    case 1:
                        m.green_mult = m.red_mult;
                        break;
                    default:
                        m.red_max *= 1000;
                }
            }
            else {
                for (ulong i = 0; i < mult; ++i) {
                    auto x = [&](ulong mu, ulong mx) { return int(i / mu % (mx + 1) * 65535 / mx); };
                    cm.cells[m.base_pixel + i].color = { x(m.red_mult, m.red_max), x(m.green_mult, m.green_max),
                                                         x(m.blue_mult, m.blue_max) };
                }
            }
        }
        else {
            m.red_max = 1000; // Invalid
            m.red_mult = m.green_mult = m.blue_mult = 1;
        }
        sim.server.std_maps[std::size_t(screen)].push_back(m);
    }

    static bool valid_nondecomposed(const XStandardColormap& m, const mock::Vis& v)
    {
        ulong n = ulong(v.info.colormap_size);
        if (v.info.c_class == StaticGray || v.info.c_class == GrayScale)
            return (m.red_mult == 1 && m.base_pixel + m.red_max < n);
        ulong total = (m.red_max + 1) * (m.green_max + 1) * (m.blue_max + 1);
        if (m.base_pixel + total > n)
            return false;
        struct F {
            ulong mult, size;
        };
        F f[3] = { { m.red_mult, m.red_max + 1 }, { m.green_mult, m.green_max + 1 }, { m.blue_mult, m.blue_max + 1 } };
        std::sort(f, f + 3, [](F a, F b) { return a.mult < b.mult; });
        return (f[0].mult == 1 && f[1].mult == f[0].size && f[2].mult == f[0].size * f[1].size);
    }

    void setup()
    {
        mock::Server& s = sim.server;
        s.garbage = rng.next();
        s.have_dbe = rng.chance(3, 4);
        s.have_glx = rng.chance(1, 2);
        s.have_randr = rng.chance(1, 2);
        s.have_render = rng.chance(1, 2);
        s.display_name = ":7";
        // Pixmap formats
        sim.format(1, 1);
        sim.format(4, 8);
        sim.format(8, 8);
        sim.format(15, 16);
        sim.format(16, 16);
        sim.format(24, 32);
        sim.format(32, 32);
        int num_screens = rng.pick({ 1, 1, 2 });
        for (int i = 0; i < num_screens; ++i) {
            int n = range(1, 4);
            vector<mock::Vis*> v;
            for (int j = 0; j < n; ++j) {
                mock::Vis& w = sim.visual(i, random_visual());
                if (w.info.c_class == StaticGray && rng.chance(1, 3))
                    w.info.bits_per_rgb = w.visual.bits_per_rgb = 16;
                v.push_back(&w);
            }
            mock::Vis& root = *v[std::size_t(below(n))];
            sim.screen(root);
            init_cmap(root, sim.default_cmaps.back());
            for (mock::Vis* w : v) {
                if (rng.chance(1, 3) && (w == &root || !is_static(*w)))
                    add_std_map(i, *w);
            }
        }
        // Static visuals, that are not the default visual, have colormaps too
        for (mock::Vis& v : s.visuals) {
            if (is_static(v) && v.visual.visualid != s.screens[std::size_t(v.screen)].root_visual->visualid) {
                XID id = sim.cmap(v);
                init_cmap(v, id);
            }
        }
        s.finish_setup();
        config.x11.display = ":7";
        config.x11.disable_double_buffering = rng.chance(1, 3);
        config.x11.prefer_default_nondecomposed_colormap = rng.chance(1, 2);
        config.x11.install_colormaps = rng.chance(1, 3);
        config.x11.synchronous_mode = rng.chance(1, 8);
        config.x11.colormap_weirdness = false;
        switch (below(5)) {
            case 0:
                config.x11.visual_type = s.visuals[std::size_t(below(int(s.visuals.size())))].visual.visualid;
                break;
            case 1:
                config.x11.visual_depth = s.visuals[std::size_t(below(int(s.visuals.size())))].info.depth;
                break;
            case 2:
                config.x11.visual_class = disp::x11_connection_config::VisualClass(
                    s.visuals[std::size_t(below(int(s.visuals.size())))].info.c_class);
                break;
        }
        if (rng.chance(1, 4))
            config.x11.fullscreen_monitors = disp::x11_fullscreen_monitors{ 1, 2, 3, 4 };
    }

    static bool is_static(const mock::Vis& v)
    {
        return (v.info.c_class == StaticGray || v.info.c_class == StaticColor || v.info.c_class == TrueColor);
    }

    // Which levels of color are available to a window
    Scheme scheme_of(const Win& w)
    {
        mock::Server& s = sim.server;
        const mock::Drawable_& d = s.drawables.at(w.id);
        const mock::Vis& v = *d.vis;
        const mock::Cmap& cm = s.cmaps.at(d.cmap);
        Scheme scheme;
        bool is_default = (v.visual.visualid == s.screens[std::size_t(w.screen)].root_visual->visualid);
        const XStandardColormap* sm = nullptr;
        for (const XStandardColormap& m : s.std_maps[std::size_t(w.screen)])
            if (m.visualid == v.visual.visualid)
                sm = &m;
        auto width = [](ulong mask) { return double((1ul << mock::width_of(mask)) - 1); };
        bool fake_true = (v.info.c_class == StaticColor && v.info.red_mask != 0);
        if (v.info.c_class == TrueColor || v.info.c_class == DirectColor || fake_true) {
            scheme.max[0] = width(v.info.red_mask);
            scheme.max[1] = width(v.info.green_mask);
            scheme.max[2] = width(v.info.blue_mask);
            scheme.name = (fake_true ? "fake truecolor" : v.info.c_class == TrueColor ? "truecolor" : "directcolor");
            return scheme;
        }
        bool gray = (v.info.c_class == StaticGray || v.info.c_class == GrayScale);
        if (sm && valid_nondecomposed(*sm, v)) {
            VF_EQ(d.cmap, sm->colormap, "d02-colormap", "Standard colormap should be used");
            scheme.kind = (gray ? Kind::gray : Kind::levels);
            scheme.max[0] = double(sm->red_max);
            scheme.max[1] = double(sm->green_max);
            scheme.max[2] = double(sm->blue_max);
            scheme.name = (gray ? "standard gray" : "standard color");
            return scheme;
        }
        if (is_static(v)) {
            scheme.kind = Kind::palette;
            scheme.gray_palette = gray;
            for (const mock::Cell& cell : cm.cells)
                scheme.palette.push_back({ expand(cell.color.r / 65535.0), expand(cell.color.g / 65535.0),
                                           expand(cell.color.b / 65535.0) });
            scheme.name = (gray ? "static gray" : "static color");
            if (is_default)
                VF_EQ(d.cmap, sim.default_cmaps[std::size_t(w.screen)], "d02-colormap",
                      "Default colormap should be used");
            return scheme;
        }
        if (!cm.owned) {
            VF_REQUIRE(is_default && d.cmap == sim.default_cmaps[std::size_t(w.screen)] &&
                           config.x11.prefer_default_nondecomposed_colormap,
                       "d02-colormap", "Unexpected use of default colormap");
            scheme.kind = (gray ? Kind::gray : Kind::levels);
            scheme.max[0] = scheme.max[1] = scheme.max[2] = (gray ? 15 : 3);
            scheme.name = (gray ? "default gray" : "default color");
            return scheme;
        }
        if (is_default) {
            for (const mock::Cell& cell : s.cmaps.at(sim.default_cmaps[std::size_t(w.screen)]).cells)
                VF_REQUIRE(cell.mine == 0, "d02-colormap", "Colors in default colormap remain allocated");
        }
        if (gray) {
            scheme.kind = Kind::gray;
            scheme.max[0] = double((1 << v.info.depth) - 1);
            scheme.name = "new gray";
        }
        else {
            int blue = v.info.depth / 3, red = (v.info.depth - blue) / 2, green = v.info.depth - blue - red;
            scheme.max[0] = double((1 << red) - 1);
            scheme.max[1] = double((1 << green) - 1);
            scheme.max[2] = double((1 << blue) - 1);
            scheme.name = (v.info.depth > 8 ? "new color (large)" : "new color");
        }
        return scheme;
    }

    static Lin linear(const Target& t)
    {
        return { t.a * expand(t.r), t.a * expand(t.g), t.a * expand(t.b) };
    }

    // By how much a level of color is worse than that of the nearest level, or than that of the
    // level to whose interval the color belongs when the range is divided into intervals of
    // equal size.
    static double error(double seen, double expected, double max)
    {
        double e = std::abs(seen - expected) - 0.5 / max;
        double k = std::round(seen * max);
        double e_2 = std::max(k / (max + 1) - expected, expected - (k + 1) / (max + 1)) + std::abs(seen - k / max);
        return std::min(e, e_2);
    }

    void check_pixel(const Win& w, const Target& t, mock::Rgb seen, const string& where)
    {
        ++checked;
        double s[3] = { seen.r / 65535.0, seen.g / 65535.0, seen.b / 65535.0 };
        Lin lin = linear(t);
        double x[3] = { compress(lin.r), compress(lin.g), compress(lin.b) };
        // Darkest translucent colors are sensitive to the quantization of the alpha channel
        double eps = (t.a < 1 ? 0.012 : 0.005);
        auto show = [&] {
            return where + ", scheme " + w.scheme.name + ": Expected (" + num(x[0]) + ", " + num(x[1]) + ", " +
                num(x[2]) + "), but saw (" + num(s[0]) + ", " + num(s[1]) + ", " + num(s[2]) + ")\n" + trace;
        };
        switch (w.scheme.kind) {
            case Kind::levels:
                for (int i = 0; i < 3; ++i) {
                    double e = error(s[i], x[i], w.scheme.max[i]);
                    dev = std::max(dev, e);
                    VF_REQUIRE(e <= eps, "d02-color", show());
                }
                break;
            case Kind::gray: {
                double y = compress(lum(lin));
                double e = error(s[0], y, w.scheme.max[0]);
                dev = std::max(dev, e);
                VF_REQUIRE(e <= eps, "d02-color", show());
                break;
            }
            case Kind::palette: {
                auto dist_1 = [&](const Lin& p) {
                    if (w.scheme.gray_palette)
                        return std::abs(p.r - lum(lin));
                    return std::sqrt((p.r - lin.r) * (p.r - lin.r) + (p.g - lin.g) * (p.g - lin.g) +
                                     (p.b - lin.b) * (p.b - lin.b));
                };
                double best = 1e9;
                for (const Lin& p : w.scheme.palette)
                    best = std::min(best, dist_1(p));
                double e = dist_1({ expand(s[0]), expand(s[1]), expand(s[2]) }) - best;
                dev = std::max(dev, e);
                VF_REQUIRE(e <= 0.01, "d02-color", show() << "\nDistance is greater by " << e);
                break;
            }
        }
    }

    void check_front(Win& w, const string& where)
    {
        if (!w.mapped)
            return;
        const mock::Drawable_& d = sim.server.drawables.at(w.id);
        VF_REQUIRE(d.w == w.w && d.h == w.h, "d02-size", "Size of window is " << d.w << "x" << d.h);
        for (int y = 0; y < w.h; ++y) {
            for (int x = 0; x < w.w; ++x) {
                const Target& t = w.front[std::size_t(y * w.w + x)];
                if (t.known)
                    check_pixel(w, t, sim.server.at(w.id, x, y), where + " at (" + num(x) + ", " + num(y) + ")");
            }
        }
    }

    Target random_color()
    {
        Target t;
        t.known = true;
        auto comp = [&] { return rng.pick({ 0, 255, below(256), below(256), below(256), 128, 1 }); };
        int r = comp(), g = comp(), b = comp(), a = 255;
        if (rng.chance(1, 4))
            g = b = r;
        if (rng.chance(1, 3))
            a = rng.pick({ 0, 1, 128, below(256), below(256) });
        t.r = r / 255.0;
        t.g = g / 255.0;
        t.b = b / 255.0;
        t.a = a / 255.0;
        return t;
    }

    static arc::util::Color color_of(const Target& t)
    {
        auto v = [](double x) { return arc::util::Color::comp_type(std::lround(x * 255)); };
        return arc::util::Color(v(t.r), v(t.g), v(t.b), v(t.a));
    }

    vector<Target>& target(Win& w) { return (w.dbe ? w.back : w.front); }

    void new_window()
    {
        mock::Server& s = sim.server;
        auto w = std::make_unique<Win>();
        w->screen = rng.chance(1, 2) ? -1 : below(int(s.screens.size()));
        disp::Window::Config wc;
        wc.screen = w->screen;
        wc.cookie = int(windows.size());
        if (w->screen < 0)
            w->screen = 0;
        w->w = rng.pick({ 0, 1, 2, 13, 20, 70, below(60), below(60) });
        w->h = rng.pick({ 0, 1, 2, 13, 20, 70, below(60), below(60) });
        w->resizable = rng.chance(1, 2);
        wc.resizable = w->resizable;
        wc.fullscreen = w->fullscreen = rng.chance(1, 4);
        disp::Size size(w->w, w->h);
        if (rng.chance(1, 3)) {
            w->min_w = below(30);
            w->min_h = below(30);
            wc.minimum_size = disp::Size(w->min_w, w->min_h);
            if (w->resizable) {
                w->w = std::max(w->w, w->min_w);
                w->h = std::max(w->h, w->min_h);
            }
        }
        w->title = rng.pick<string>({ "", "x", "Hello", string(below(50), 'y') });
        trace += "window " + num(w->w) + "x" + num(w->h) + "\n";
        vector<XID> before = all_windows();
        // Expected to be found
        bool suitable = false;
        for (const mock::Vis& v : s.visuals) {
            if (v.screen == w->screen &&
                (!config.x11.visual_type.has_value() || v.visual.visualid == *config.x11.visual_type) &&
                (!config.x11.visual_depth.has_value() || v.info.depth == *config.x11.visual_depth) &&
                (!config.x11.visual_class.has_value() || v.info.c_class == int(*config.x11.visual_class)))
                suitable = true;
        }
        string error = "-";
        bool ok = conn->try_new_window(w->title, size, wc, w->win, error);
        VF_EQ(ok, suitable, "d02-suitable", "Creation of window: " << error);
        check_errors("Creation of window");
        if (!ok) {
            c.event("no_suitable_visual");
            return;
        }
        // A window is never empty
        w->w = std::max(w->w, 1);
        w->h = std::max(w->h, 1);
        w->id = find_new(before);
        VF_REQUIRE(w->id != 0, "d02-window", "No window was created");
        const mock::Drawable_& d = s.drawables.at(w->id);
        VF_REQUIRE(d.vis->screen == w->screen, "d02-window", "Window was created on wrong screen");
        if (config.x11.visual_type)
            VF_EQ(d.vis->visual.visualid, VisualID(*config.x11.visual_type), "d02-window", "Wrong visual");
        if (config.x11.visual_depth)
            VF_EQ(d.depth, *config.x11.visual_depth, "d02-window", "Wrong depth");
        if (config.x11.visual_class)
            VF_EQ(d.vis->info.c_class, int(*config.x11.visual_class), "d02-window", "Wrong class");
        VF_REQUIRE(d.w == w->w && d.h == w->h, "d02-size", "Size of new window is " << d.w << "x" << d.h);
        VF_EQ(d.title, w->title, "d02-title", "Title of new window");
        VF_REQUIRE(!d.mapped, "d02-window", "New window is not hidden");
        VF_REQUIRE(d.input_hint, "d02-window", "No input hint");
        VF_REQUIRE(d.protocols == vector<Atom>{ s.atoms["WM_DELETE_WINDOW"] }, "d02-window", "Protocols");
        if (!w->resizable) {
            VF_REQUIRE(d.minsize && d.maxsize && d.min_w == d.max_w && d.min_h == d.max_h && d.min_w >= size.width &&
                           d.min_h >= size.height && d.min_w <= w->w && d.min_h <= w->h,
                       "d02-window", "Window is resizable");
        }
        else {
            VF_REQUIRE(!d.maxsize, "d02-window", "Window is not resizable");
            if (wc.minimum_size)
                VF_REQUIRE(d.minsize && d.min_w == w->min_w && d.min_h == w->min_h, "d02-window", "Minimum size");
        }
        for (auto& p : s.drawables)
            if (p.second.kind == mock::Drawable_::back && p.second.parent == w->id)
                w->dbe = true;
        VF_REQUIRE(!w->dbe || !config.x11.disable_double_buffering, "d02-window", "Double buffering was disabled");
        if (d.vis->dbe && s.have_dbe && !config.x11.disable_double_buffering)
            VF_REQUIRE(w->dbe, "d02-window", "Double buffering is not used");
        w->scheme = scheme_of(*w);
        w->front.assign(std::size_t(w->w * w->h), {});
        w->back = w->front;
        w->win->set_event_handler(w->handler);
        c.event((string("scheme_") + w->scheme.name).c_str());
        sig.add(string(w->scheme.name));
        if (config.x11.install_colormaps)
            VF_REQUIRE(s.installed.count(d.cmap), "d02-window", "Colormap was not installed");
        windows.push_back(std::move(w));
    }

    void fill(Win& w)
    {
        Target t = random_color();
        ++colors;
        if (rng.chance(1, 4)) {
            trace += "fill\n";
            w.win->fill(color_of(t));
            for (Target& p : target(w))
                p = t;
            return;
        }
        auto pos = [&] {
            return rng.pick({ 0, 1, range(-30, 70), range(-30, 70), -32769, 65536, -65536, 40000,
                              std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - 5 });
        };
        auto len = [&] { return rng.pick({ 0, 1, below(40), below(40), 70, 65536, 65540, 200000, 100000 }); };
        disp::Box box;
        box.pos.x = pos();
        box.pos.y = pos();
        box.size.width = len();
        box.size.height = len();
        if (rng.chance(1, 2)) {
            box.pos.x = range(-3, w.w);
            box.size.width = range(0, w.w + 4);
        }
        if (rng.chance(1, 2)) {
            box.pos.y = range(-3, w.h);
            box.size.height = range(0, w.h + 4);
        }
        if (!box.is_valid()) {
            c.event("invalid_boxes");
            return;
        }
        trace += "fill " + num(box.pos.x) + "," + num(box.pos.y) + " " + num(box.size.width) + "x" +
            num(box.size.height) + "\n";
        w.win->fill(color_of(t), box);
        auto& px = target(w);
        for (int y = 0; y < w.h; ++y)
            for (int x = 0; x < w.w; ++x)
                if (x >= box.pos.x && y >= box.pos.y && long(x) < long(box.pos.x) + box.size.width &&
                    long(y) < long(box.pos.y) + box.size.height)
                    px[std::size_t(y * w.w + x)] = t;
    }

    template<class I> void put_image(Win::Tex& tex, int iw, int ih, bool gray, bool alpha, int max)
    {
        I img(arc::image::Size(iw, ih));
        arc::image::Writer writer(img);
        vector<Target> v(std::size_t(iw * ih));
        Target base = random_color();
        for (int y = 0; y < ih; ++y) {
            for (int x = 0; x < iw; ++x) {
                Target t = (rng.chance(1, 3) ? base : random_color());
                if (!alpha)
                    t.a = 1;
                if (gray)
                    t.g = t.b = t.r;
                v[std::size_t(y * iw + x)] = t;
                arc::image::Pos pos(x, y);
                if (max == 255) {
                    using P = arc::image::Pixel<arc::image::RGBA_8>;
                    auto f = [](double d) { return arc::image::int8_type(std::lround(d * 255)); };
                    std::array<arc::image::int8_type, 4> comps = { f(t.r), f(t.g), f(t.b), f(t.a) };
                    writer.put_pixel(pos, P(comps));
                }
                else {
                    using P = arc::image::Pixel<arc::image::RGBA_16>;
                    auto f = [](double d) { return arc::image::int16_type(std::lround(d * 65535)); };
                    std::array<arc::image::int16_type, 4> comps = { f(t.r), f(t.g), f(t.b), f(t.a) };
                    writer.put_pixel(pos, P(comps));
                }
            }
        }
        colors += iw * ih;
        tex.tex->put_image(img);
        for (int y = 0; y < tex.h; ++y) {
            for (int x = 0; x < tex.w; ++x) {
                Target& t = tex.px[std::size_t(y * tex.w + x)];
                if (x < iw && y < ih) {
                    t = v[std::size_t(y * iw + x)];
                }
                else {
                    t = {};
                    t.known = true;
                }
            }
        }
    }

    void texture(Win& w)
    {
        if (w.textures.empty() || (w.textures.size() < 4 && rng.chance(1, 4))) {
            Win::Tex t;
            t.w = rng.pick({ 0, 1, 7, 65, 130, below(30), below(90) });
            t.h = rng.pick({ 0, 1, 7, 65, 130, below(30), below(90) });
            if (t.w * t.h > 4000)
                t.w = 4000 / t.h;
            trace += "new_texture " + num(t.w) + "x" + num(t.h) + "\n";
            t.tex = w.win->new_texture(disp::Size(t.w, t.h));
            t.px.assign(std::size_t(t.w * t.h), {});
            w.textures.push_back(std::move(t));
            check_errors("Creation of texture");
            return;
        }
        std::size_t i = std::size_t(below(int(w.textures.size())));
        Win::Tex& t = w.textures[i];
        switch (below(8)) {
            case 0:
                if (w.textures.size() > 2) {
                    trace += "destroy texture\n";
                    w.textures.erase(w.textures.begin() + std::ptrdiff_t(i));
                    return;
                }
                [[fallthrough]];
            case 1:
            case 2:
            case 3: {
                int iw = rng.pick({ t.w, t.w, t.w / 2, below(40), t.w + 5, 0 });
                int ih = rng.pick({ t.h, t.h, t.h / 2, below(40), t.h + 5, 0 });
                trace += "put_image " + num(iw) + "x" + num(ih) + " in texture " + num(i) + "\n";
                namespace im = arc::image;
                switch (below(6)) {
                    case 0:
                        put_image<im::BufferedImage_RGB_8>(t, iw, ih, false, false, 255);
                        break;
                    case 1:
                        put_image<im::BufferedImage_RGBA_8>(t, iw, ih, false, true, 255);
                        break;
                    case 2:
                        put_image<im::BufferedImage_Lum_8>(t, iw, ih, true, false, 255);
                        break;
                    case 3:
                        put_image<im::BufferedImage_LumA_8>(t, iw, ih, true, true, 255);
                        break;
                    case 4:
                        put_image<im::BufferedImage_RGB_16>(t, iw, ih, false, false, 65535);
                        break;
                    default:
                        put_image<im::BufferedImage_RGBA_16>(t, iw, ih, false, true, 65535);
                }
                check_errors("Placing image in texture");
                return;
            }
        }
        // Put texture
        disp::Box src(disp::Size(t.w, t.h));
        disp::Pos pos;
        pos.x = rng.pick({ 0, range(-20, 60), range(-20, 60), range(-20, 60) });
        pos.y = rng.pick({ 0, range(-20, 60), range(-20, 60), range(-20, 60) });
        if (rng.chance(1, 10))
            pos.x = rng.pick({ 65536, 65540, -65536, -65540, 131072 });
        if (rng.chance(1, 10))
            pos.y = rng.pick({ 65536, 65540, -65536, -65540, 131072 });
        if (rng.chance(1, 2)) {
            trace += "put_texture " + num(i) + " at " + num(pos.x) + "," + num(pos.y) + "\n";
            w.win->put_texture(*t.tex, pos);
        }
        else {
            src.pos.x = range(0, t.w);
            src.pos.y = range(0, t.h);
            src.size.width = range(0, t.w - src.pos.x);
            src.size.height = range(0, t.h - src.pos.y);
            trace += "put_texture " + num(i) + " (" + num(src.pos.x) + "," + num(src.pos.y) + " " +
                num(src.size.width) + "x" + num(src.size.height) + ") at " + num(pos.x) + "," + num(pos.y) + "\n";
            w.win->put_texture(*t.tex, src, pos);
            if (rng.chance(1, 6)) {
                disp::Box bad = src;
                if (rng.chance(1, 2))
                    bad.size.width = t.w - bad.pos.x + 1;
                else
                    bad.pos.y = -1;
                bool threw = false;
                try {
                    w.win->put_texture(*t.tex, bad, pos);
                }
                catch (std::invalid_argument&) {
                    threw = true;
                }
                VF_REQUIRE(threw, "d02-texture", "Source area escapes texture");
            }
        }
        check_errors("Placing texture in window");
        auto& px = target(w);
        for (int y = 0; y < src.size.height; ++y) {
            for (int x = 0; x < src.size.width; ++x) {
                long x2 = long(pos.x) + x, y2 = long(pos.y) + y;
                if (x2 >= 0 && y2 >= 0 && x2 < w.w && y2 < w.h)
                    px[std::size_t(y2 * w.w + x2)] = t.px[std::size_t((src.pos.y + y) * t.w + src.pos.x + x)];
            }
        }
    }

    void fullscreen(Win& w, bool show)
    {
        mock::Server& s = sim.server;
        std::size_t n = s.messages.size();
        if (show) {
            w.win->show();
            bool was = w.mapped;
            w.mapped = true;
            if (!was)
                for (Target& t : w.front)
                    t = {};
        }
        else {
            bool on = rng.chance(1, 2);
            w.win->set_fullscreen_mode(on);
            w.fullscreen = on;
        }
        vector<mock::Msg> v(s.messages.begin() + std::ptrdiff_t(n), s.messages.end());
        bool monitors = false;
        int state = -1;
        for (const mock::Msg& m : v) {
            VF_REQUIRE(m.target == s.screens[std::size_t(w.screen)].root && m.ev.window == w.id && m.ev.format == 32,
                       "d02-fullscreen", "Bad client message");
            if (m.ev.message_type == s.atoms["_NET_WM_FULLSCREEN_MONITORS"]) {
                monitors = true;
                VF_REQUIRE(m.ev.data.l[0] == 1 && m.ev.data.l[1] == 2 && m.ev.data.l[2] == 3 && m.ev.data.l[3] == 4,
                           "d02-fullscreen", "Wrong monitors");
            }
            else {
                VF_REQUIRE(m.ev.message_type == s.atoms["_NET_WM_STATE"] &&
                               Atom(m.ev.data.l[1]) == s.atoms["_NET_WM_STATE_FULLSCREEN"] && m.ev.data.l[2] == 0,
                           "d02-fullscreen", "Unexpected client message");
                state = int(m.ev.data.l[0]);
            }
        }
        if (show) {
            VF_EQ(monitors, config.x11.fullscreen_monitors.has_value(), "d02-fullscreen", "Fullscreen monitors");
            if (w.fullscreen)
                VF_EQ(state, 1, "d02-fullscreen", "Fullscreen mode not activated on show");
            else
                VF_REQUIRE(state != 1, "d02-fullscreen", "Fullscreen mode activated on show");
        }
        else if (w.mapped) {
            VF_EQ(state, int(w.fullscreen), "d02-fullscreen", "Fullscreen mode was not changed");
        }
    }

    void step()
    {
        if (windows.empty() || (windows.size() < 3 && rng.chance(1, 12))) {
            new_window();
            if (windows.empty())
                return;
        }
        std::size_t i = std::size_t(below(int(windows.size())));
        Win& w = *windows[i];
        int op = below(24);
        if (op < 7) {
            fill(w);
            check_errors("Fill");
            if (!w.dbe)
                check_front(w, "After fill");
        }
        else if (op < 14) {
            texture(w);
            if (!w.dbe)
                check_front(w, "After texture");
        }
        else if (op < 17) {
            trace += "present\n";
            long n = sim.server.swaps;
            w.win->present();
            if (w.dbe) {
                VF_EQ(sim.server.swaps, n + 1, "d02-present", "Buffers were not swapped");
                w.front = w.back;
                for (Target& t : w.back)
                    t = {};
            }
            else {
                VF_EQ(sim.server.swaps, n, "d02-present", "Buffers were swapped");
            }
            check_errors("Present");
            check_front(w, "After present");
            c.event("presentations");
        }
        else if (op < 18) {
            int sw = rng.pick({ 0, 1, below(60), below(60) });
            int sh = rng.pick({ 0, 1, below(60), below(60) });
            trace += "set_size " + num(sw) + "x" + num(sh) + "\n";
            w.win->set_size(disp::Size(sw, sh));
            w.w = std::max(sw, 1);
            w.h = std::max(sh, 1);
            w.front.assign(std::size_t(w.w * w.h), {});
            w.back = w.front;
            check_errors("Change of size");
            const mock::Drawable_& d = sim.server.drawables.at(w.id);
            VF_REQUIRE(d.w == w.w && d.h == w.h, "d02-size", "Size of window is " << d.w << "x" << d.h);
        }
        else if (op < 21) {
            trace += "show\n";
            fullscreen(w, true);
            VF_REQUIRE(sim.server.drawables.at(w.id).mapped, "d02-show", "Window is hidden");
            check_errors("Show");
        }
        else if (op < 22) {
            switch (below(4)) {
                case 0:
                    trace += "hide\n";
                    w.win->hide();
                    w.mapped = false;
                    VF_REQUIRE(!sim.server.drawables.at(w.id).mapped, "d02-show", "Window is shown");
                    break;
                case 1:
                    w.title = string(below(10), 't');
                    w.win->set_title(w.title);
                    VF_EQ(sim.server.drawables.at(w.id).title, w.title, "d02-title", "Title of window");
                    break;
                case 2:
                    trace += "fullscreen\n";
                    fullscreen(w, false);
                    break;
                default:
                    if (windows.size() > 1) {
                        trace += "destroy\n";
                        windows.erase(windows.begin() + std::ptrdiff_t(i));
                    }
            }
            check_errors("Misc");
        }
        else {
            // Windows are independent
            for (auto& x : windows)
                check_front(*x, "Later");
        }
    }

    void run()
    {
        setup();
        string error;
        bool ok = x11().try_new_connection(std::locale::classic(), config, conn, error);
        VF_REQUIRE(ok, "d02-connect", "Failed to connect: " << error);
        check_errors("Connect");
        VF_EQ(conn->get_num_screens(), int(sim.server.screens.size()), "d02-screens", "Number of screens");
        VF_EQ(conn->get_default_screen(), 0, "d02-screens", "Default screen");
        int n = range(10, 60);
        for (int i = 0; i < n; ++i)
            step();
        for (auto& w : windows)
            check_front(*w, "At end");
        for (auto& w : windows) {
            w->textures.clear();
            w.reset();
        }
        windows.clear();
        conn.reset();
        check_errors("Close");
        check_leaks();
        c.event("pixels_checked", checked);
        c.event("colors_drawn", colors);
        c.sample([&](std::ostream& out) { out << "max deviation " << dev << ", " << checked << " pixels\n" << trace; });
        if (checked > 0)
            c.nontrivial(sig.add(checked).get());
    }
};

} // unnamed namespace

VF_MONITOR(d02_draw, 2500, 80000)
{
    Draw draw(c);
    draw.run();
}
