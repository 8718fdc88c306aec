#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <bit>

#include <fcntl.h>
#include <poll.h>
#include <unistd.h>

#include "mock.hpp"

using namespace mock;

mock::Server* mock::srv = nullptr;

int mock::width_of(ulong mask) { return std::popcount(mask); }
int mock::shift_of(ulong mask) { return std::countr_zero(mask); }

Server::~Server()
{
    if (fd[0] >= 0)
        close(fd[0]);
    if (fd[1] >= 0)
        close(fd[1]);
    for (auto& p : gcs)
        std::free(p.first);
}

void Server::bad(const std::string& what)
{
    ++num_errors;
    if (error.empty())
        error = what;
}

const Vis* Server::find_visual(const Visual* v) const
{
    for (const Vis& vis : visuals)
        if (&vis.visual == v)
            return &vis;
    return nullptr;
}

const Vis* Server::find_visual(VisualID id) const
{
    for (const Vis& vis : visuals)
        if (vis.info.visualid == id)
            return &vis;
    return nullptr;
}

XID Server::new_id()
{
    if (!free_ids.empty()) {
        XID id = free_ids.back();
        free_ids.pop_back();
        return id;
    }
    return next_id++;
}

int Server::screen_of_root(XID root) const
{
    for (std::size_t i = 0; i < screens.size(); ++i)
        if (screens[i].root == root)
            return int(i);
    return -1;
}

Rgb Server::color(const Vis& vis, XID id, ulong pixel) const
{
    auto i = cmaps.find(id);
    if (i == cmaps.end())
        return {};
    const Cmap& cm = i->second;
    const XVisualInfo& info = vis.info;
    auto field = [&](ulong mask) { return (pixel & mask) >> shift_of(mask); };
    switch (info.c_class) {
        case TrueColor: {
            auto val = [&](ulong mask) {
                ulong max = mask >> shift_of(mask);
                return int((field(mask) * 65535 + max / 2) / max);
            };
            return { val(info.red_mask), val(info.green_mask), val(info.blue_mask) };
        }
        case DirectColor: {
            auto cell = [&](ulong mask) -> const Cell& {
                static const Cell none;
                ulong j = field(mask);
                return (j < cm.cells.size() ? cm.cells[j] : none);
            };
            return { cell(info.red_mask).color.r, cell(info.green_mask).color.g, cell(info.blue_mask).color.b };
        }
    }
    if (pixel < cm.cells.size()) {
        Rgb c = cm.cells[pixel].color;
        if (info.c_class == StaticGray || info.c_class == GrayScale)
            c.g = c.b = c.r;
        return c;
    }
    return { -1000000, -1000000, -1000000 };
}

Rgb Server::at(XID id, int x, int y) const
{
    const Drawable_& d = drawables.at(id);
    return color(*d.vis, d.cmap, d.px[std::size_t(y) * d.w + x]);
}

void Server::finish_setup()
{
    dpy = std::make_unique<std::remove_pointer_t<_XPrivDisplay>>();
    std::memset(static_cast<void*>(dpy.get()), 0, sizeof *dpy);
    if (pipe2(fd, O_NONBLOCK | O_CLOEXEC) != 0)
        std::abort();
    dpy->fd = fd[0];
    dpy->screens = screens.data();
    dpy->nscreens = int(screens.size());
    dpy->bitmap_unit = 32;
    dpy->bitmap_bit_order = LSBFirst;
    dpy->byte_order = LSBFirst;
    dpy->display_name = display_name.data();
    for (std::size_t i = 0; i < screens.size(); ++i) {
        screens[i].display = reinterpret_cast<Display*>(dpy.get());
        Drawable_ d;
        d.kind = Drawable_::window;
        d.w = 1;
        d.h = 1;
        d.depth = screens[i].root_depth;
        d.px.resize(1);
        d.cmap = screens[i].cmap;
        d.vis = find_visual(screens[i].root_visual);
        drawables[screens[i].root] = d;
    }
}

namespace {

Display* the_dpy() { return reinterpret_cast<Display*>(srv->dpy.get()); }

// A request
void req(Display* dpy)
{
    ++srv->requests;
    ++srv->unflushed;
    if (!srv->open || dpy != the_dpy())
        srv->bad("Use of closed display");
}

// A request that waits for a reply
void round_trip(Display* dpy)
{
    req(dpy);
    srv->unflushed = 0;
}

Drawable_* find_drawable(XID id, const char* what)
{
    auto i = srv->drawables.find(id);
    if (i == srv->drawables.end()) {
        srv->bad(std::string("BadDrawable in ") + what);
        return nullptr;
    }
    return &i->second;
}

Drawable_* find_window(XID id, const char* what)
{
    Drawable_* d = find_drawable(id, what);
    if (d && d->kind != Drawable_::window) {
        srv->bad(std::string("BadWindow in ") + what);
        return nullptr;
    }
    return d;
}

Server::Gc* find_gc(GC gc, const char* what)
{
    auto i = srv->gcs.find(gc);
    if (i == srv->gcs.end()) {
        srv->bad(std::string("BadGC in ") + what);
        return nullptr;
    }
    return &i->second;
}

Cmap* find_cmap(XID id, const char* what)
{
    auto i = srv->cmaps.find(id);
    if (i == srv->cmaps.end()) {
        srv->bad(std::string("BadColor in ") + what);
        return nullptr;
    }
    return &i->second;
}

// Coordinates are transmitted using 16 bits
int i16(int v) { return std::int16_t(std::uint16_t(unsigned(v))); }
int u16(unsigned v) { return std::uint16_t(v); }

void fill_garbage(Drawable_& d)
{
    ulong mask = (d.depth >= 32 ? 0xFFFFFFFFul : (1ul << d.depth) - 1);
    for (ulong& p : d.px) {
        srv->garbage = srv->garbage * 6364136223846793005ull + 1442695040888963407ull;
        p = (srv->garbage >> 20) & mask;
    }
}

void wake()
{
    char ch = 'x';
    if (!srv->wire.empty()) {
        ssize_t n = write(srv->fd[1], &ch, 1);
        (void)n;
    }
}

void drain()
{
    char buf[64];
    while (read(srv->fd[0], buf, sizeof buf) > 0) {
    }
    for (XEvent& e : srv->wire)
        srv->queue.push_back(e);
    srv->wire.clear();
}

} // namespace

extern "C" {

int __real_poll(struct pollfd* fds, nfds_t n, int timeout);

int __wrap_poll(struct pollfd* fds, nfds_t n, int timeout)
{
    if (!srv || !srv->open || n != 1 || fds[0].fd != srv->fd[0])
        return __real_poll(fds, n, timeout);
    ++srv->polls;
    if (srv->unflushed != 0)
        srv->bad("Client sleeps while there are unflushed requests");
    if (!srv->queue.empty())
        srv->bad("Client sleeps while there are events inside Xlib");
    if (!(fds[0].events & POLLIN))
        srv->bad("Client does not wait for input");
    if (srv->eintr > 0) {
        --srv->eintr;
        errno = EINTR;
        return -1;
    }
    if (srv->wire.empty() && !srv->later.empty()) {
        for (XEvent& e : srv->later.front())
            srv->wire.push_back(e);
        srv->later.pop_front();
        wake();
    }
    if (timeout < 0 && srv->wire.empty()) {
        // Would sleep forever
        srv->bad("Client sleeps forever");
        std::abort();
    }
    return __real_poll(fds, n, timeout);
}

Display* XOpenDisplay(const char* name)
{
    if (!srv || srv->refuse || srv->open)
        return nullptr;
    if (name && *name && srv->display_name != name)
        return nullptr;
    srv->open = true;
    return the_dpy();
}

int XCloseDisplay(Display* dpy)
{
    if (!srv->open || dpy != the_dpy())
        srv->bad("Use of closed display");
    srv->open = false;
    return 0;
}

int (*XSynchronize(Display* dpy, Bool on))(Display*)
{
    req(dpy);
    srv->synchronous = on;
    return nullptr;
}

int XFree(void* p)
{
    std::free(p);
    return 1;
}

Atom XInternAtom(Display* dpy, const char* name, Bool only)
{
    round_trip(dpy);
    auto i = srv->atoms.find(name);
    if (i != srv->atoms.end())
        return i->second;
    if (only)
        return None;
    Atom a = 100 + 7 * Atom(srv->atoms.size());
    srv->atoms[name] = a;
    return a;
}

Window XCreateWindow(Display* dpy, Window parent, int, int, unsigned w, unsigned h, unsigned, int depth,
                     unsigned class_, Visual* visual, unsigned long mask, XSetWindowAttributes* attr)
{
    req(dpy);
    XID id = srv->new_id();
    Drawable_ d;
    d.kind = Drawable_::window;
    d.w = u16(w);
    d.h = u16(h);
    d.depth = depth;
    d.vis = srv->find_visual(visual);
    int screen = srv->screen_of_root(parent);
    if (screen < 0)
        srv->bad("BadWindow in XCreateWindow");
    if (w == 0 || h == 0 || w > 32767 || h > 32767)
        srv->bad("BadValue in XCreateWindow: size of window is zero or out of range");
    if (!d.vis || d.vis->info.depth != depth || d.vis->screen != screen)
        srv->bad("BadMatch in XCreateWindow: depth, visual");
    if (class_ != InputOutput)
        srv->bad("BadValue in XCreateWindow: class");
    if (!(mask & CWColormap) && (!d.vis || d.vis->visual.visualid != srv->screens[screen].root_visual->visualid))
        srv->bad("BadMatch in XCreateWindow: colormap");
    if (!(mask & CWBorderPixel) && !(mask & CWBorderPixmap) && d.depth != srv->screens[screen].root_depth) {
        // The border pixmap is by default that of the parent, which must have same depth
        srv->bad("BadMatch in XCreateWindow: border pixmap");
    }
    if (mask & CWColormap) {
        Cmap* cm = find_cmap(attr->colormap, "XCreateWindow");
        if (cm && d.vis && cm->visual != d.vis->info.visualid)
            srv->bad("BadMatch in XCreateWindow: colormap");
        d.cmap = attr->colormap;
    }
    if (mask & CWEventMask)
        d.event_mask = attr->event_mask;
    d.px.resize(std::size_t(d.w) * d.h);
    fill_garbage(d);
    srv->drawables[id] = std::move(d);
    return id;
}

int XDestroyWindow(Display* dpy, Window win)
{
    req(dpy);
    Drawable_* d = find_window(win, "XDestroyWindow");
    if (d) {
        for (auto i = srv->drawables.begin(); i != srv->drawables.end();) {
            if (i->second.kind == Drawable_::back && i->second.parent == win)
                i = srv->drawables.erase(i);
            else
                ++i;
        }
        srv->drawables.erase(win);
        srv->free_ids.push_back(win);
    }
    return 1;
}

int XMapWindow(Display* dpy, Window win)
{
    req(dpy);
    if (Drawable_* d = find_window(win, "XMapWindow"))
        d->mapped = true;
    return 1;
}

int XUnmapWindow(Display* dpy, Window win)
{
    req(dpy);
    if (Drawable_* d = find_window(win, "XUnmapWindow"))
        d->mapped = false;
    return 1;
}

int XResizeWindow(Display* dpy, Window win, unsigned w, unsigned h)
{
    req(dpy);
    if (Drawable_* d = find_window(win, "XResizeWindow")) {
        if (w == 0 || h == 0 || w > 32767 || h > 32767) {
            srv->bad("BadValue in XResizeWindow: size of window is zero or out of range");
            return 1;
        }
        auto resize = [&](Drawable_& d) {
            d.w = int(w);
            d.h = int(h);
            d.px.assign(std::size_t(w) * h, 0);
            fill_garbage(d);
        };
        resize(*d);
        for (auto& p : srv->drawables)
            if (p.second.kind == Drawable_::back && p.second.parent == win)
                resize(p.second);
    }
    return 1;
}

int XSetWMHints(Display* dpy, Window win, XWMHints* hints)
{
    req(dpy);
    if (Drawable_* d = find_window(win, "XSetWMHints"))
        d->input_hint = ((hints->flags & InputHint) && hints->input);
    return 1;
}

void XSetWMSizeHints(Display* dpy, Window win, XSizeHints* hints, Atom prop)
{
    req(dpy);
    Drawable_* d = find_window(win, "XSetWMSizeHints");
    if (!d || prop != XA_WM_NORMAL_HINTS)
        return;
    d->minsize = (hints->flags & PMinSize);
    d->maxsize = (hints->flags & PMaxSize);
    d->min_w = hints->min_width;
    d->min_h = hints->min_height;
    d->max_w = hints->max_width;
    d->max_h = hints->max_height;
}

void XSetWMName(Display* dpy, Window win, XTextProperty* prop)
{
    req(dpy);
    if (Drawable_* d = find_window(win, "XSetWMName"))
        d->title.assign(reinterpret_cast<char*>(prop->value), prop->nitems);
}

int Xutf8TextListToTextProperty(Display*, char** list, int count, XICCEncodingStyle, XTextProperty* prop)
{
    if (count != 1)
        std::abort();
    prop->encoding = XA_STRING;
    prop->format = 8;
    prop->nitems = std::strlen(list[0]);
    prop->value = reinterpret_cast<unsigned char*>(strdup(list[0]));
    return Success;
}

int XmbTextListToTextProperty(Display* dpy, char** list, int count, XICCEncodingStyle style, XTextProperty* prop)
{
    return Xutf8TextListToTextProperty(dpy, list, count, style, prop);
}

Status XStringListToTextProperty(char** list, int count, XTextProperty* prop)
{
    return Xutf8TextListToTextProperty(nullptr, list, count, XStringStyle, prop) == Success;
}

int XChangeProperty(Display* dpy, Window win, Atom name, Atom type, int format, int mode, const unsigned char* data,
                    int n)
{
    req(dpy);
    Drawable_* d = find_window(win, "XChangeProperty");
    if (d && name == srv->atoms["WM_PROTOCOLS"]) {
        if (type != XA_ATOM || format != 32 || mode != PropModeReplace)
            srv->bad("Bad property WM_PROTOCOLS");
        const Atom* p = reinterpret_cast<const Atom*>(data);
        d->protocols.assign(p, p + n);
    }
    return 1;
}

Status XSendEvent(Display* dpy, Window win, Bool, long mask, XEvent* ev)
{
    req(dpy);
    if (srv->screen_of_root(win) < 0 || mask != (SubstructureRedirectMask | SubstructureNotifyMask))
        srv->bad("Bad target or mask for message to window manager");
    if (ev->type != ClientMessage)
        srv->bad("Unexpected type of event sent");
    find_window(ev->xclient.window, "XSendEvent");
    srv->messages.push_back({ win, ev->xclient });
    return 1;
}

int XGetWindowProperty(Display* dpy, Window, Atom, long, long, Bool, Atom, Atom* type, int* format,
                       unsigned long* nitems, unsigned long* after, unsigned char** prop)
{
    round_trip(dpy);
    *type = None;
    *format = 0;
    *nitems = 0;
    *after = 0;
    *prop = nullptr;
    return Success;
}

Pixmap XCreatePixmap(Display* dpy, Drawable draw, unsigned w, unsigned h, unsigned depth)
{
    req(dpy);
    find_drawable(draw, "XCreatePixmap");
    XID id = srv->new_id();
    Drawable_ d;
    d.kind = Drawable_::pixmap;
    d.w = u16(w);
    d.h = u16(h);
    d.depth = int(depth);
    if (d.w == 0 || d.h == 0 || w > 65535 || h > 65535)
        srv->bad("BadValue in XCreatePixmap: size of pixmap is zero or out of range");
    d.px.resize(std::size_t(d.w) * d.h);
    fill_garbage(d);
    srv->drawables[id] = std::move(d);
    return id;
}

int XFreePixmap(Display* dpy, Pixmap p)
{
    req(dpy);
    Drawable_* d = find_drawable(p, "XFreePixmap");
    if (d) {
        if (d->kind != Drawable_::pixmap)
            srv->bad("BadPixmap in XFreePixmap");
        srv->drawables.erase(p);
        srv->free_ids.push_back(p);
    }
    return 1;
}

GC XCreateGC(Display* dpy, Drawable draw, unsigned long mask, XGCValues* values)
{
    req(dpy);
    Drawable_* d = find_drawable(draw, "XCreateGC");
    GC gc = static_cast<GC>(std::malloc(64));
    Server::Gc g = {};
    g.depth = (d ? d->depth : 0);
    srv->gcs[gc] = g;
    if (!(mask & GCGraphicsExposures) || values->graphics_exposures)
        srv->bad("Graphics exposures are not disabled");
    return gc;
}

int XFreeGC(Display* dpy, GC gc)
{
    req(dpy);
    if (find_gc(gc, "XFreeGC")) {
        srv->gcs.erase(gc);
        std::free(gc);
    }
    return 1;
}

int XSetForeground(Display* dpy, GC gc, unsigned long fg)
{
    req(dpy);
    if (Server::Gc* g = find_gc(gc, "XSetForeground"))
        g->fg = fg;
    return 1;
}

int XFillRectangle(Display* dpy, Drawable draw, GC gc, int x, int y, unsigned w, unsigned h)
{
    req(dpy);
    Drawable_* d = find_drawable(draw, "XFillRectangle");
    Server::Gc* g = find_gc(gc, "XFillRectangle");
    if (!d || !g)
        return 1;
    if (g->depth != d->depth)
        srv->bad("BadMatch in XFillRectangle");
    if (d->depth < 32 && (g->fg >> d->depth) != 0)
        srv->bad("Foreground color exceeds depth of drawable");
    int x1 = i16(x), y1 = i16(y), x2 = x1 + u16(w), y2 = y1 + u16(h);
    for (int j = std::max(y1, 0); j < std::min(y2, d->h); ++j)
        for (int i = std::max(x1, 0); i < std::min(x2, d->w); ++i)
            d->px[std::size_t(j) * d->w + i] = g->fg;
    return 1;
}

int XCopyArea(Display* dpy, Drawable src, Drawable dst, GC gc, int sx, int sy, unsigned w, unsigned h, int dx, int dy)
{
    req(dpy);
    Drawable_* s = find_drawable(src, "XCopyArea (source)");
    Drawable_* d = find_drawable(dst, "XCopyArea (destination)");
    Server::Gc* g = find_gc(gc, "XCopyArea");
    if (!s || !d || !g)
        return 1;
    if (s->depth != d->depth || g->depth != d->depth)
        srv->bad("BadMatch in XCopyArea");
    int sx_2 = i16(sx), sy_2 = i16(sy), dx_2 = i16(dx), dy_2 = i16(dy), w_2 = u16(w), h_2 = u16(h);
    for (int j = 0; j < h_2; ++j) {
        for (int i = 0; i < w_2; ++i) {
            int x1 = sx_2 + i, y1 = sy_2 + j, x2 = dx_2 + i, y2 = dy_2 + j;
            if (x1 < 0 || y1 < 0 || x1 >= s->w || y1 >= s->h || x2 < 0 || y2 < 0 || x2 >= d->w || y2 >= d->h)
                continue;
            d->px[std::size_t(y2) * d->w + x2] = s->px[std::size_t(y1) * s->w + x1];
        }
    }
    return 1;
}

int XPutImage(Display* dpy, Drawable draw, GC gc, XImage* img, int sx, int sy, int dx, int dy, unsigned w, unsigned h)
{
    req(dpy);
    Drawable_* d = find_drawable(draw, "XPutImage");
    Server::Gc* g = find_gc(gc, "XPutImage");
    if (!d || !g)
        return 1;
    if (g->depth != d->depth || img->depth != d->depth)
        srv->bad("BadMatch in XPutImage");
    int bpp = 0;
    for (const XPixmapFormatValues& f : srv->pixmap_formats)
        if (f.depth == img->depth)
            bpp = f.bits_per_pixel;
    if (img->bits_per_pixel != bpp || bpp % 8 != 0) {
        srv->bad("Image has wrong number of bits per pixel");
        return 1;
    }
    int bytes = bpp / 8;
    int dx_2 = i16(dx), dy_2 = i16(dy);
    for (int j = 0; j < int(h); ++j) {
        for (int i = 0; i < int(w); ++i) {
            int x1 = sx + i, y1 = sy + j;
            if (x1 < 0 || y1 < 0 || x1 >= img->width || y1 >= img->height)
                continue; // Clipped by Xlib
            const unsigned char* p =
                reinterpret_cast<unsigned char*>(img->data) + long(y1) * img->bytes_per_line + long(x1) * bytes;
            ulong v = 0;
            for (int k = 0; k < bytes; ++k)
                v |= ulong(p[k]) << 8 * (img->byte_order == LSBFirst ? k : bytes - 1 - k);
            if (d->depth < 32)
                v &= (1ul << d->depth) - 1;
            int x2 = dx_2 + i, y2 = dy_2 + j;
            if (x2 < 0 || y2 < 0 || x2 >= d->w || y2 >= d->h)
                continue;
            d->px[std::size_t(y2) * d->w + x2] = v;
        }
    }
    return 1;
}

// Colors

Colormap XCreateColormap(Display* dpy, Window win, Visual* visual, int alloc)
{
    req(dpy);
    if (srv->screen_of_root(win) < 0)
        srv->bad("BadWindow in XCreateColormap");
    const Vis* vis = srv->find_visual(visual);
    XID id = srv->new_id();
    if (!vis) {
        srv->bad("BadMatch in XCreateColormap");
        return id;
    }
    Cmap cm;
    cm.visual = vis->info.visualid;
    cm.owned = true;
    cm.all = (alloc == AllocAll);
    int c = vis->info.c_class;
    bool is_static = (c == StaticGray || c == StaticColor || c == TrueColor);
    if (is_static && cm.all)
        srv->bad("BadMatch in XCreateColormap: allocation in static visual");
    cm.cells.resize(std::size_t(vis->info.colormap_size));
    if (is_static) {
        // All colormaps of a static visual have same contents
        for (auto& p : srv->cmaps)
            if (p.second.visual == cm.visual && !p.second.owned)
                cm.cells = p.second.cells;
    }
    srv->cmaps[id] = std::move(cm);
    return id;
}

int XFreeColormap(Display* dpy, Colormap id)
{
    req(dpy);
    Cmap* cm = find_cmap(id, "XFreeColormap");
    if (cm) {
        if (!cm->owned)
            srv->bad("Attempt to free colormap not created by client");
        for (auto& p : srv->drawables)
            if (p.second.cmap == id)
                srv->bad("Colormap freed while in use by window");
        srv->cmaps.erase(id);
    }
    return 1;
}

int XInstallColormap(Display* dpy, Colormap id)
{
    req(dpy);
    if (find_cmap(id, "XInstallColormap"))
        srv->installed.insert(id);
    return 1;
}

int XStoreColors(Display* dpy, Colormap id, XColor* colors, int n)
{
    req(dpy);
    Cmap* cm = find_cmap(id, "XStoreColors");
    if (!cm)
        return 1;
    const Vis& vis = *srv->find_visual(cm->visual);
    if (!cm->all)
        srv->bad("BadAccess in XStoreColors");
    for (int i = 0; i < n; ++i) {
        const XColor& c = colors[i];
        auto store = [&](ulong index, int flag, int Rgb::*comp, int val) {
            if (!(c.flags & flag))
                return;
            if (index >= cm->cells.size()) {
                srv->bad("BadValue in XStoreColors");
                return;
            }
            cm->cells[index].color.*comp = val;
        };
        if (vis.info.c_class == DirectColor) {
            auto get = [&](ulong mask) { return (c.pixel & mask) >> shift_of(mask); };
            store(get(vis.info.red_mask), DoRed, &Rgb::r, c.red);
            store(get(vis.info.green_mask), DoGreen, &Rgb::g, c.green);
            store(get(vis.info.blue_mask), DoBlue, &Rgb::b, c.blue);
        }
        else {
            store(c.pixel, DoRed, &Rgb::r, c.red);
            store(c.pixel, DoGreen, &Rgb::g, c.green);
            store(c.pixel, DoBlue, &Rgb::b, c.blue);
        }
    }
    return 1;
}

int XQueryColors(Display* dpy, Colormap id, XColor* colors, int n)
{
    round_trip(dpy);
    Cmap* cm = find_cmap(id, "XQueryColors");
    for (int i = 0; i < n; ++i) {
        XColor& c = colors[i];
        if (!cm || c.pixel >= cm->cells.size()) {
            srv->bad("BadValue in XQueryColors");
            continue;
        }
        Rgb v = cm->cells[c.pixel].color;
        c.red = std::uint16_t(v.r);
        c.green = std::uint16_t(v.g);
        c.blue = std::uint16_t(v.b);
        c.flags = DoRed | DoGreen | DoBlue;
    }
    return 1;
}

Status XAllocColor(Display* dpy, Colormap id, XColor* color)
{
    round_trip(dpy);
    Cmap* cm = find_cmap(id, "XAllocColor");
    if (!cm)
        return 0;
    int c = srv->find_visual(cm->visual)->info.c_class;
    if (c != PseudoColor && c != GrayScale) {
        srv->bad("Unexpected use of XAllocColor");
        return 0;
    }
    Rgb v = { color->red, color->green, color->blue };
    Cell* best = nullptr;
    for (Cell& cell : cm->cells) {
        if (cell.shared && cell.color == v) {
            best = &cell;
            break;
        }
    }
    if (!best) {
        for (Cell& cell : cm->cells) {
            if (!cell.shared && !cell.foreign && cell.mine == 0) {
                best = &cell;
                cell.shared = true;
                cell.color = v;
                break;
            }
        }
    }
    if (!best)
        return 0;
    ++best->mine;
    color->pixel = ulong(best - cm->cells.data());
    return 1;
}

int XFreeColors(Display* dpy, Colormap id, unsigned long* pixels, int n, unsigned long)
{
    req(dpy);
    Cmap* cm = find_cmap(id, "XFreeColors");
    for (int i = 0; cm && i < n; ++i) {
        if (pixels[i] >= cm->cells.size()) {
            srv->bad("BadValue in XFreeColors");
            continue;
        }
        Cell& cell = cm->cells[pixels[i]];
        if (cell.mine == 0) {
            srv->bad("BadAccess in XFreeColors: color is not allocated by client");
            continue;
        }
        if (--cell.mine == 0 && !cell.foreign)
            cell = {};
    }
    return 1;
}

Status XGetRGBColormaps(Display* dpy, Window win, XStandardColormap** maps, int* count, Atom prop)
{
    round_trip(dpy);
    int screen = srv->screen_of_root(win);
    if (screen < 0 || prop != XA_RGB_DEFAULT_MAP || srv->std_maps[std::size_t(screen)].empty())
        return 0;
    auto& v = srv->std_maps[std::size_t(screen)];
    *maps = static_cast<XStandardColormap*>(std::malloc(v.size() * sizeof(XStandardColormap)));
    std::copy(v.begin(), v.end(), *maps);
    *count = int(v.size());
    return 1;
}

VisualID XVisualIDFromVisual(Visual* v) { return v->visualid; }

XVisualInfo* XGetVisualInfo(Display* dpy, long mask, XVisualInfo* templ, int* n)
{
    if (dpy != the_dpy() || mask != VisualScreenMask)
        std::abort();
    std::vector<XVisualInfo> v;
    for (const Vis& vis : srv->visuals)
        if (vis.screen == templ->screen)
            v.push_back(vis.info);
    *n = int(v.size());
    if (v.empty())
        return nullptr;
    auto p = static_cast<XVisualInfo*>(std::malloc(v.size() * sizeof(XVisualInfo)));
    std::copy(v.begin(), v.end(), p);
    return p;
}

XPixmapFormatValues* XListPixmapFormats(Display* dpy, int* n)
{
    if (dpy != the_dpy())
        std::abort();
    auto& v = srv->pixmap_formats;
    auto p = static_cast<XPixmapFormatValues*>(std::malloc(v.size() * sizeof(XPixmapFormatValues)));
    std::copy(v.begin(), v.end(), p);
    *n = int(v.size());
    return p;
}

int XGrabServer(Display* dpy) { req(dpy); return 1; }
int XUngrabServer(Display* dpy) { req(dpy); return 1; }

// Events

int XEventsQueued(Display* dpy, int mode)
{
    if (dpy != the_dpy() || !srv->open)
        std::abort();
    if (!srv->queue.empty() || mode == QueuedAlready)
        return int(srv->queue.size());
    if (mode == QueuedAfterFlush)
        srv->unflushed = 0;
    drain();
    return int(srv->queue.size());
}

int XNextEvent(Display* dpy, XEvent* ev)
{
    if (dpy != the_dpy())
        std::abort();
    if (srv->queue.empty()) {
        srv->unflushed = 0;
        drain();
    }
    if (srv->queue.empty()) {
        srv->bad("Client blocks waiting for event");
        std::abort();
    }
    *ev = srv->queue.front();
    srv->queue.pop_front();
    return 0;
}

int XPeekEvent(Display* dpy, XEvent* ev)
{
    if (dpy != the_dpy())
        std::abort();
    if (srv->queue.empty()) {
        srv->bad("Client blocks waiting for event");
        std::abort();
    }
    *ev = srv->queue.front();
    return 0;
}

// X Keyboard Extension

Bool XkbLibraryVersion(int*, int*) { return srv->xkb_lib; }

Bool XkbQueryExtension(Display* dpy, int* opcode, int* ev, int* err, int* major, int* minor)
{
    round_trip(dpy);
    if (!srv->have_xkb)
        return False;
    *opcode = 130;
    *ev = 85;
    *err = 137;
    *major = 1;
    *minor = 0;
    return True;
}

Bool XkbSetDetectableAutoRepeat(Display* dpy, Bool on, Bool* supported)
{
    round_trip(dpy);
    *supported = srv->detectable;
    srv->detectable_on = (on && srv->detectable);
    return srv->detectable_on;
}

KeySym XkbKeycodeToKeysym(Display* dpy, KeyCode kc, int group, int level)
{
    if (dpy != the_dpy() || group != 0 || level != 0)
        std::abort();
    auto i = srv->keysyms.find(int(kc));
    return (i == srv->keysyms.end() ? NoSymbol : i->second);
}

// X Double Buffer Extension

Status XdbeQueryExtension(Display* dpy, int* major, int* minor)
{
    round_trip(dpy);
    if (!srv->have_dbe)
        return 0;
    *major = srv->dbe_major;
    *minor = 0;
    return 1;
}

XdbeScreenVisualInfo* XdbeGetVisualInfo(Display* dpy, Drawable* spec, int* n)
{
    round_trip(dpy);
    if (*n != 1)
        std::abort();
    int screen = srv->screen_of_root(spec[0]);
    if (screen < 0)
        return nullptr;
    std::vector<XdbeVisualInfo> v;
    for (const Vis& vis : srv->visuals)
        if (vis.screen == screen && vis.dbe)
            v.push_back({ vis.info.visualid, vis.info.depth, vis.dbe_perf });
    auto p = static_cast<XdbeScreenVisualInfo*>(std::malloc(sizeof(XdbeScreenVisualInfo)));
    p->count = int(v.size());
    p->visinfo = static_cast<XdbeVisualInfo*>(std::malloc(v.size() * sizeof(XdbeVisualInfo) + 1));
    std::copy(v.begin(), v.end(), p->visinfo);
    return p;
}

void XdbeFreeVisualInfo(XdbeScreenVisualInfo* p)
{
    std::free(p->visinfo);
    std::free(p);
}

XdbeBackBuffer XdbeAllocateBackBufferName(Display* dpy, Window win, XdbeSwapAction)
{
    req(dpy);
    XID id = srv->new_id();
    Drawable_* d = find_window(win, "XdbeAllocateBackBufferName");
    if (!d)
        return id;
    if (!srv->have_dbe || !d->vis || !d->vis->dbe)
        srv->bad("BadMatch in XdbeAllocateBackBufferName");
    Drawable_ b;
    b.kind = Drawable_::back;
    b.parent = win;
    b.w = d->w;
    b.h = d->h;
    b.depth = d->depth;
    b.vis = d->vis;
    b.px.resize(d->px.size());
    fill_garbage(b);
    srv->drawables[id] = std::move(b);
    return id;
}

Status XdbeSwapBuffers(Display* dpy, XdbeSwapInfo* info, int n)
{
    req(dpy);
    for (int i = 0; i < n; ++i) {
        Drawable_* d = find_window(info[i].swap_window, "XdbeSwapBuffers");
        if (!d)
            return 0;
        bool found = false;
        for (auto& p : srv->drawables) {
            if (p.second.kind == Drawable_::back && p.second.parent == info[i].swap_window) {
                found = true;
                d->px = p.second.px;
                if (info[i].swap_action == XdbeUndefined)
                    fill_garbage(p.second);
            }
        }
        if (!found)
            srv->bad("BadMatch in XdbeSwapBuffers");
        ++srv->swaps;
    }
    return 1;
}

// X Rendering Extension

Bool XRenderQueryExtension(Display* dpy, int* ev, int* err)
{
    round_trip(dpy);
    *ev = 0;
    *err = 140;
    return srv->have_render;
}

Status XRenderQueryVersion(Display* dpy, int* major, int* minor)
{
    round_trip(dpy);
    *major = 0;
    *minor = 11;
    return 1;
}

// XRandR

Bool XRRQueryExtension(Display* dpy, int* ev, int* err)
{
    round_trip(dpy);
    *ev = 89;
    *err = 147;
    return srv->have_randr;
}

Status XRRQueryVersion(Display* dpy, int* major, int* minor)
{
    round_trip(dpy);
    *major = 1;
    *minor = srv->randr_minor;
    return 1;
}

void XRRSelectInput(Display* dpy, Window win, int)
{
    req(dpy);
    if (srv->screen_of_root(win) < 0)
        srv->bad("BadWindow in XRRSelectInput");
}

XRRScreenResources* XRRGetScreenResourcesCurrent(Display* dpy, Window win)
{
    round_trip(dpy);
    int screen = srv->screen_of_root(win);
    if (screen < 0)
        return nullptr;
    const RandR& r = srv->randr[std::size_t(screen)];
    auto p = static_cast<XRRScreenResources*>(std::calloc(1, sizeof(XRRScreenResources)));
    p->ncrtc = int(r.crtcs.size());
    p->crtcs = static_cast<RRCrtc*>(std::calloc(r.crtcs.size() + 1, sizeof(RRCrtc)));
    for (std::size_t i = 0; i < r.crtcs.size(); ++i)
        p->crtcs[i] = r.crtcs[i].id;
    p->noutput = int(r.outputs.size());
    p->outputs = static_cast<RROutput*>(std::calloc(r.outputs.size() + 1, sizeof(RROutput)));
    for (std::size_t i = 0; i < r.outputs.size(); ++i)
        p->outputs[i] = r.outputs[i].id;
    p->nmode = int(r.modes.size());
    if (srv->randr_missing_modes > 0) {
        --srv->randr_missing_modes;
        p->nmode = 0;
    }
    p->modes = static_cast<XRRModeInfo*>(std::calloc(r.modes.size() + 1, sizeof(XRRModeInfo)));
    for (std::size_t i = 0; i < r.modes.size(); ++i) {
        p->modes[i].id = r.modes[i].id;
        p->modes[i].dotClock = r.modes[i].clock;
        p->modes[i].hTotal = r.modes[i].h;
        p->modes[i].vTotal = r.modes[i].v;
    }
    return p;
}

void XRRFreeScreenResources(XRRScreenResources* p)
{
    std::free(p->crtcs);
    std::free(p->outputs);
    std::free(p->modes);
    std::free(p);
}

static bool vanish()
{
    if (srv->randr_failures > 0) {
        --srv->randr_failures;
        return true;
    }
    return false;
}

XRRCrtcInfo* XRRGetCrtcInfo(Display* dpy, XRRScreenResources*, RRCrtc id)
{
    round_trip(dpy);
    if (vanish())
        return nullptr;
    for (const RandR& r : srv->randr) {
        for (const Crtc& c : r.crtcs) {
            if (c.id != id)
                continue;
            auto p = static_cast<XRRCrtcInfo*>(std::calloc(1, sizeof(XRRCrtcInfo)));
            p->x = c.x;
            p->y = c.y;
            p->width = c.w;
            p->height = c.h;
            p->mode = c.mode;
            p->rotation = c.rotation;
            return p;
        }
    }
    return nullptr;
}

void XRRFreeCrtcInfo(XRRCrtcInfo* p) { std::free(p); }

static const Output* find_output(RROutput id)
{
    for (const RandR& r : srv->randr)
        for (const Output& o : r.outputs)
            if (o.id == id)
                return &o;
    return nullptr;
}

XRROutputInfo* XRRGetOutputInfo(Display* dpy, XRRScreenResources*, RROutput id)
{
    round_trip(dpy);
    if (vanish())
        return nullptr;
    const Output* o = find_output(id);
    if (!o)
        return nullptr;
    auto p = static_cast<XRROutputInfo*>(std::calloc(1, sizeof(XRROutputInfo)));
    p->crtc = o->crtc;
    p->name = static_cast<char*>(std::malloc(o->name.size() + 1)); // Not necessarily null terminated
    std::memcpy(p->name, o->name.data(), o->name.size());
    p->name[o->name.size()] = '?';
    p->nameLen = int(o->name.size());
    p->mm_width = o->mm_w;
    p->mm_height = o->mm_h;
    p->connection = o->connection;
    return p;
}

void XRRFreeOutputInfo(XRROutputInfo* p)
{
    std::free(p->name);
    std::free(p);
}

Atom* XRRListOutputProperties(Display* dpy, RROutput id, int* n)
{
    round_trip(dpy);
    const Output* o = find_output(id);
    *n = 0;
    if (!o || (!o->has_edid && !o->foreign_property))
        return nullptr;
    auto p = static_cast<Atom*>(std::malloc(2 * sizeof(Atom)));
    if (o->foreign_property)
        p[(*n)++] = 77;
    if (o->has_edid)
        p[(*n)++] = srv->atoms.at(RR_PROPERTY_RANDR_EDID);
    return p;
}

int XRRGetOutputProperty(Display* dpy, RROutput id, Atom name, long offset, long length, Bool, Bool, Atom,
                         Atom* type, int* format, unsigned long* nitems, unsigned long* after, unsigned char** prop)
{
    round_trip(dpy);
    const Output* o = find_output(id);
    if (!o || name != srv->atoms.at(RR_PROPERTY_RANDR_EDID) || offset != 0)
        return BadValue;
    std::size_t n = std::min(o->edid.size(), std::size_t(length) * 4);
    *type = o->edid_type;
    *format = 8;
    *nitems = n;
    *after = o->edid.size() - n;
    *prop = static_cast<unsigned char*>(std::malloc(n + 1));
    if (n > 0)
        std::memcpy(*prop, o->edid.data(), n);
    return Success;
}

// GLX

Bool glXQueryExtension(Display* dpy, int* err, int* ev)
{
    round_trip(dpy);
    *err = 0;
    *ev = 0;
    return srv->have_glx;
}

Bool glXQueryVersion(Display* dpy, int* major, int* minor)
{
    round_trip(dpy);
    *major = 1;
    *minor = 4;
    return True;
}

int glXGetConfig(Display* dpy, XVisualInfo* info, int attrib, int* value)
{
    req(dpy);
    const Vis* v = srv->find_visual(info->visual);
    if (!v)
        return GLX_BAD_VISUAL;
    switch (attrib) {
        case GLX_USE_GL: *value = v->gl; return 0;
        case GLX_LEVEL: *value = v->gl_level; return 0;
        case GLX_DOUBLEBUFFER: *value = v->gl_double; return 0;
        case GLX_STEREO: *value = v->gl_stereo; return 0;
        case GLX_AUX_BUFFERS: *value = v->gl_aux; return 0;
        case GLX_DEPTH_SIZE: *value = v->gl_depth; return 0;
        case GLX_STENCIL_SIZE: *value = v->gl_stencil; return 0;
        case GLX_ACCUM_RED_SIZE: *value = v->gl_accum; return 0;
        case GLX_ACCUM_GREEN_SIZE:
        case GLX_ACCUM_BLUE_SIZE:
        case GLX_ACCUM_ALPHA_SIZE: *value = 0; return 0;
    }
    return GLX_BAD_ATTRIBUTE;
}

GLXContext glXCreateContext(Display* dpy, XVisualInfo* info, GLXContext, Bool)
{
    req(dpy);
    const Vis* v = srv->find_visual(info->visual);
    if (!v || !v->gl)
        return nullptr;
    auto ctx = reinterpret_cast<GLXContext>(srv->new_id());
    srv->contexts[ctx] = v;
    return ctx;
}

void glXDestroyContext(Display* dpy, GLXContext ctx)
{
    req(dpy);
    if (srv->contexts.erase(ctx) != 1)
        srv->bad("GLXBadContext in glXDestroyContext");
}

Bool glXMakeCurrent(Display* dpy, GLXDrawable draw, GLXContext ctx)
{
    req(dpy);
    Drawable_* d = find_window(draw, "glXMakeCurrent");
    auto i = srv->contexts.find(ctx);
    if (!d || i == srv->contexts.end() || i->second != d->vis) {
        srv->bad("BadMatch in glXMakeCurrent");
        return False;
    }
    srv->current_gl = draw;
    return True;
}

void glXSwapBuffers(Display* dpy, GLXDrawable draw)
{
    req(dpy);
    find_window(draw, "glXSwapBuffers");
    ++srv->swaps;
}

} // extern "C"
