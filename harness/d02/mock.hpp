// A stand-in for the X server and for the part of Xlib that talks to it.
//
// The functions of Xlib that the X11 back end of the display library uses are defined in mock.cpp.
// They operate on the state of a simulated server (`srv`), check that every request is valid, and
// keep the pixels of windows, back buffers, and pixmaps.

#pragma once

#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include <X11/Xlib.h>
#include <X11/Xatom.h>
#include <X11/Xutil.h>
#include <X11/keysym.h>
#include <X11/XKBlib.h>
#include <X11/extensions/Xdbe.h>
#include <X11/extensions/Xrandr.h>
#include <X11/extensions/Xrender.h>
#include <GL/glx.h>

#undef None_

namespace mock {

using ulong = unsigned long;

struct Rgb {
    int r = 0, g = 0, b = 0; // 0 -> 65535
    bool operator==(const Rgb&) const = default;
};

struct Cell {
    Rgb color;
    bool shared = false; // Read-only allocation
    bool foreign = false; // Allocated by other client
    int mine = 0; // Number of allocations by client
};

struct Cmap {
    VisualID visual = 0;
    bool owned = false; // Created by the client
    bool all = false; // All cells are writable by the client
    std::vector<Cell> cells; // For DirectColor, components are looked up separately
};

struct Vis {
    Visual visual{};
    XVisualInfo info{};
    int screen = 0;
    bool dbe = false;
    int dbe_perf = 0;
    // OpenGL
    bool gl = false, gl_double = false, gl_stereo = false;
    int gl_level = 0, gl_aux = 0, gl_depth = 0, gl_stencil = 0, gl_accum = 0;
};

struct Drawable_ {
    int w = 0, h = 0, depth = 0;
    enum Kind { window, pixmap, back } kind = window;
    const Vis* vis = nullptr;
    Colormap cmap = 0;
    XID parent = 0; // Window of back buffer
    bool mapped = false;
    std::vector<ulong> px;
    // Windows
    bool minsize = false, maxsize = false;
    int min_w = 0, min_h = 0, max_w = 0, max_h = 0;
    std::string title;
    std::vector<Atom> protocols;
    long event_mask = 0;
    bool input_hint = false;
};

struct Mode {
    RRMode id;
    unsigned long clock;
    unsigned h, v;
};
struct Crtc {
    RRCrtc id;
    int x, y;
    unsigned w, h;
    RRMode mode;
    Rotation rotation;
};
struct Output {
    RROutput id;
    std::string name;
    Connection connection;
    RRCrtc crtc;
    unsigned long mm_w, mm_h;
    bool has_edid = false;
    bool foreign_property = false;
    Atom edid_type = XA_INTEGER;
    std::vector<unsigned char> edid;
};
struct RandR {
    std::vector<Mode> modes;
    std::vector<Crtc> crtcs;
    std::vector<Output> outputs;
};

struct Msg {
    XID target;
    XClientMessageEvent ev;
};

struct Server {
    bool refuse = false; // Refuse connections
    bool have_dbe = true, have_xkb = true, have_randr = true, have_render = true, have_glx = true;
    bool xkb_lib = true;
    int dbe_major = 1;
    int randr_minor = 5;
    bool detectable = true; // Support for detectable auto-repeat
    bool detectable_on = false;
    bool synchronous = false;
    int fd[2] = { -1, -1 };
    std::string display_name;

    std::vector<Screen> screens;
    std::deque<Vis> visuals;
    std::vector<XPixmapFormatValues> pixmap_formats;
    std::map<XID, XStandardColormap> dummy;
    std::vector<std::vector<XStandardColormap>> std_maps; // Per screen
    std::vector<RandR> randr; // Per screen
    int randr_failures = 0; // Number of times that a CRTC or output vanishes while being looked up
    int randr_missing_modes = 0; // Number of times that configuration changes just after being listed
    std::map<XID, Cmap> cmaps;
    std::map<XID, Drawable_> drawables;
    struct Gc {
        int depth;
        int screen;
        ulong fg = 0;
    };
    std::map<GC, Gc> gcs;
    std::map<GLXContext, const Vis*> contexts;
    XID current_gl = 0;
    std::map<std::string, Atom> atoms;
    std::vector<Msg> messages;
    XID next_id = 0x400001;
    std::vector<XID> free_ids; // To be reused
    std::set<XID> installed;
    int num_errors = 0;
    std::string error; // First protocol error
    long unflushed = 0;
    long requests = 0;
    long polls = 0;
    long swaps = 0;
    std::uint64_t garbage = 1;

    std::deque<XEvent> wire; // Sent by the server, but not yet read by Xlib
    std::deque<XEvent> queue; // Inside Xlib
    // Called when the client is about to sleep. Returns false if poll() must fail with EINTR.
    std::deque<std::vector<XEvent>> later; // Deliver one group each time the client sleeps
    int eintr = 0;
    std::map<int, KeySym> keysyms;

    bool open = false;
    std::unique_ptr<std::remove_pointer_t<_XPrivDisplay>> dpy;

    ~Server();
    void bad(const std::string& what);
    const Vis* find_visual(const Visual* v) const;
    const Vis* find_visual(VisualID id) const;
    XID new_id();
    int screen_of_root(XID root) const;
    Rgb color(const Vis& vis, XID cmap, ulong pixel) const; // What is seen on the screen
    Rgb at(XID drawable, int x, int y) const;
    void finish_setup(); // Sets up the display structure
};

extern Server* srv;

// Number of levels
int width_of(ulong mask);
int shift_of(ulong mask);

} // namespace mock
