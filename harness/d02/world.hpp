// Construction of simulated servers.

#pragma once

#include <algorithm>
#include <array>
#include <chrono>
#include <functional>
#include <set>
#include <cmath>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#include <archon/core/buffer.hpp>
#include <archon/image.hpp>
#include <archon/util/color.hpp>
#include <archon/display.hpp>
#include <archon/display/x11_implementation.hpp>
#include <archon/display/x11_fullscreen_monitors.hpp>

#include "vf.hpp"
#include "mock.hpp"

#undef None
#undef Status
#undef Success
#undef Bool
#undef True
#undef False

namespace d02 {

namespace arc = archon;
namespace disp = archon::display;
using mock::ulong;
using std::string;
using std::vector;

inline string num(auto v) { return std::to_string(v); }

inline disp::Guarantees guarantees()
{
    disp::Guarantees g;
    g.no_other_use_of_x11 = true;
    g.main_thread_exclusive = true;
    return g;
}

inline const disp::Implementation& x11()
{
    return disp::get_x11_implementation_slot().get_implementation(guarantees());
}

struct VisOpt {
    int cls = TrueColor;
    int depth = 24;
    ulong red = 0, green = 0, blue = 0;
    int colormap_size = 256;
    bool dbe = false;
};

// Owns the simulated server
struct Sim {
    mock::Server server;
    vector<XID> default_cmaps;
    vector<vector<VisualID>> ids;
    VisualID next_visual = 0x21;

    Sim() { mock::srv = &server; }
    ~Sim() { mock::srv = nullptr; }
    Sim(const Sim&) = delete;
    Sim& operator=(const Sim&) = delete;

    void format(int depth, int bpp)
    {
        for (XPixmapFormatValues& f : server.pixmap_formats)
            if (f.depth == depth)
                return;
        XPixmapFormatValues f;
        f.depth = depth;
        f.bits_per_pixel = bpp;
        f.scanline_pad = 32;
        server.pixmap_formats.push_back(f);
    }

    mock::Vis& visual(int screen, const VisOpt& o)
    {
        mock::Vis v;
        v.screen = screen;
        v.dbe = o.dbe;
        v.visual.visualid = next_visual++;
        v.visual.c_class = o.cls;
        v.visual.red_mask = o.red;
        v.visual.green_mask = o.green;
        v.visual.blue_mask = o.blue;
        v.visual.bits_per_rgb = 8;
        v.visual.map_entries = o.colormap_size;
        server.visuals.push_back(v);
        mock::Vis& w = server.visuals.back();
        w.info.visual = &w.visual;
        w.info.visualid = w.visual.visualid;
        w.info.screen = screen;
        w.info.depth = o.depth;
        w.info.c_class = o.cls;
        w.info.red_mask = o.red;
        w.info.green_mask = o.green;
        w.info.blue_mask = o.blue;
        w.info.colormap_size = o.colormap_size;
        w.info.bits_per_rgb = 8;
        return w;
    }

    XID cmap(const mock::Vis& v)
    {
        mock::Cmap cm;
        cm.visual = v.visual.visualid;
        cm.cells.resize(std::size_t(v.info.colormap_size));
        XID id = server.new_id();
        server.cmaps[id] = std::move(cm);
        return id;
    }

    void screen(mock::Vis& root)
    {
        Screen s{};
        s.root = server.new_id();
        s.width = 1024;
        s.height = 768;
        s.root_visual = &root.visual;
        s.root_depth = root.info.depth;
        s.cmap = cmap(root);
        default_cmaps.push_back(s.cmap);
        server.screens.push_back(s);
        server.std_maps.emplace_back();
        server.randr.emplace_back();
    }

    // A server with a number of ordinary screens
    void plain(int num_screens = 1)
    {
        format(24, 32);
        for (int i = 0; i < num_screens; ++i)
            screen(visual(i, { TrueColor, 24, 0xFF0000, 0xFF00, 0xFF, 256, false }));
        server.finish_setup();
    }
};

// A window of the client that is not in the specified set
inline XID find_new(const std::vector<XID>& before)
{
    for (auto& p : mock::srv->drawables)
        if (p.second.kind == mock::Drawable_::window && mock::srv->screen_of_root(p.first) < 0 &&
            std::find(before.begin(), before.end(), p.first) == before.end())
            return p.first;
    return 0;
}

inline std::vector<XID> all_windows()
{
    std::vector<XID> v;
    for (auto& p : mock::srv->drawables)
        if (p.second.kind == mock::Drawable_::window)
            v.push_back(p.first);
    return v;
}

inline int num_of(mock::Drawable_::Kind kind)
{
    int n = 0;
    for (auto& p : mock::srv->drawables)
        if (p.second.kind == kind && mock::srv->screen_of_root(p.first) < 0)
            ++n;
    return n;
}

// Nothing of the client must be left behind when the connection is closed
inline void check_leaks()
{
    mock::Server& s = *mock::srv;
    VF_REQUIRE(!s.open, "d02-leak", "Display was not closed");
    VF_REQUIRE(num_of(mock::Drawable_::window) == 0, "d02-leak", "Windows were not destroyed");
    VF_REQUIRE(num_of(mock::Drawable_::pixmap) == 0, "d02-leak", "Pixmaps were not freed");
    VF_REQUIRE(s.gcs.empty(), "d02-leak", "Graphics contexts were not freed");
    VF_REQUIRE(s.contexts.empty(), "d02-leak", "OpenGL contexts were not destroyed");
    for (auto& p : s.cmaps)
        VF_REQUIRE(!p.second.owned, "d02-leak", "Colormap was not freed");
}

inline void check_errors(const string& where)
{
    mock::Server& s = *mock::srv;
    VF_REQUIRE(s.num_errors == 0, "d02-protocol", where << ": " << s.error);
}

} // namespace d02
