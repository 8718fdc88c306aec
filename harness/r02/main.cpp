// R02: The render engine, run against a display that is made up, an OpenGL that only
// records, and a clock that is under control. Everything the engine shows, and every call
// of handlers and scene, is compared with a model.

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include <archon/core/buffer.hpp>
#include <archon/log.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/math/rotation.hpp>
#include <archon/display.hpp>
#include <archon/util/color.hpp>
#include <archon/util/colors.hpp>
#include <archon/render/engine.hpp>
#include <archon/render/opengl.hpp>
#include <archon/render/virt_trackball.hpp>
#include <archon/render/key_binding_support.hpp>

#include "vf.hpp"

using namespace archon;
using std::string;
using std::vector;


// ---------------------------------------------------------------- clock

namespace {

long long g_now = 1000000000; // Nanoseconds

} // unnamed namespace

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{
    return time_point(duration(g_now));
}


// ---------------------------------------------------------------- recording OpenGL

namespace {

using L = long double;
using M4 = std::array<std::array<L, 4>, 4>;

constexpr M4 unit4 = {{ {1,0,0,0}, {0,1,0,0}, {0,0,1,0}, {0,0,0,1} }};

M4 mul(const M4& a, const M4& b)
{
    M4 r {};
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
            for (int k = 0; k < 4; k++)
                r[i][j] += a[i][k] * b[k][j];
    return r;
}

M4 translation(L x, L y, L z)
{
    M4 m = unit4;
    m[0][3] = x;
    m[1][3] = y;
    m[2][3] = z;
    return m;
}

M4 rotation(L t, L x, L y, L z)
{
    L n = std::sqrt(x * x + y * y + z * z);
    if (n > 0) {
        x /= n;
        y /= n;
        z /= n;
    }
    L c = std::cos(t), s = std::sin(t), d = 1 - c;
    M4 m = unit4;
    m[0] = { c + x * x * d, x * y * d - z * s, x * z * d + y * s, 0 };
    m[1] = { y * x * d + z * s, c + y * y * d, y * z * d - x * s, 0 };
    m[2] = { z * x * d - y * s, z * y * d + x * s, c + z * z * d, 0 };
    return m;
}

M4 frustum(L l, L r, L b, L t, L n, L f)
{
    M4 m {};
    m[0][0] = 2 * n / (r - l);
    m[0][2] = (r + l) / (r - l);
    m[1][1] = 2 * n / (t - b);
    m[1][2] = (t + b) / (t - b);
    m[2][2] = -(f + n) / (f - n);
    m[2][3] = -2 * f * n / (f - n);
    m[3][2] = -1;
    return m;
}

L diff(const M4& a, const M4& b)
{
    L m = 0;
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 4; j++) {
            L scale = 1 + std::abs(b[i][j]);
            L d = std::abs(a[i][j] - b[i][j]) / scale;
            if (!(d <= m))
                m = std::isnan(d) ? L(1E9) : d;
        }
    }
    return m;
}

struct GL {
    bool current = false;
    M4 modelview = unit4, projection = unit4;
    GLenum mode = GL_MODELVIEW;
    bool light0 = false;
    GLenum polygon = GL_FILL;
    float clear[4] = { 0, 0, 0, 0 };
    int vp[4] = { -1, -1, -1, -1 };
    int clears = 0;
    int errors_to_report = 0;
    int errors_reported = 0;
    M4& matrix() { return mode == GL_PROJECTION ? projection : modelview; }
    bool misuse = false;
};
GL* g_gl = nullptr;

GL& gl()
{
    if (!g_gl->current)
        g_gl->misuse = true;
    return *g_gl;
}

} // unnamed namespace

extern "C" {
void glLightfv(GLenum, GLenum, const GLfloat*) { gl(); }
void glClearColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a)
{
    GL& x = gl();
    x.clear[0] = r;
    x.clear[1] = g;
    x.clear[2] = b;
    x.clear[3] = a;
}
void glEnable(GLenum what) { if (what == GL_LIGHT0) gl().light0 = true; }
void glDisable(GLenum what) { if (what == GL_LIGHT0) gl().light0 = false; }
void glPolygonMode(GLenum, GLenum mode) { gl().polygon = mode; }
void glMatrixMode(GLenum mode) { gl().mode = mode; }
void glLoadIdentity() { gl().matrix() = unit4; }
void glTranslated(GLdouble x, GLdouble y, GLdouble z) { gl().matrix() = mul(gl().matrix(), translation(x, y, z)); }
void glRotated(GLdouble a, GLdouble x, GLdouble y, GLdouble z)
{
    gl().matrix() = mul(gl().matrix(), rotation(L(a) * 3.141592653589793238462643L / 180, x, y, z));
}
void glClear(GLbitfield) { gl().clears++; }
void glFrustum(GLdouble l, GLdouble r, GLdouble b, GLdouble t, GLdouble n, GLdouble f)
{
    gl().matrix() = mul(gl().matrix(), frustum(l, r, b, t, n, f));
}
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h)
{
    GL& g = gl();
    g.vp[0] = x;
    g.vp[1] = y;
    g.vp[2] = w;
    g.vp[3] = h;
}
GLenum glGetError()
{
    GL& g = gl();
    if (g.errors_to_report > 0) {
        g.errors_to_report--;
        g.errors_reported++;
        return GL_INVALID_OPERATION;
    }
    return GL_NO_ERROR;
}
} // extern "C"


namespace {

string num(auto v) { return std::to_string(v); }

using Engine = render::Engine;
using Builtin = Engine::BuiltinKeyHandler;
using Clock = std::chrono::steady_clock;

Clock::time_point tp(long long t) { return Clock::time_point(Clock::duration(t)); }

struct Stop {};

// ---------------------------------------------------------------- display

struct World;

class FakeWindow : public display::Window {
public:
    World& w;
    explicit FakeWindow(World& w_2) : w(w_2) {}
    ~FakeWindow() noexcept override;
    void set_event_handler(display::WindowEventHandler& h) override;
    void show() override;
    void hide() override { std::abort(); }
    void set_title(std::string_view title) override;
    void set_size(display::Size size) override;
    void set_fullscreen_mode(bool on) override;
    void fill(util::Color) override { std::abort(); }
    void fill(util::Color, const display::Box&) override { std::abort(); }
    auto new_texture(display::Size) -> std::unique_ptr<display::Texture> override { std::abort(); }
    void put_texture(const display::Texture&, const display::Pos&) override { std::abort(); }
    void put_texture(const display::Texture&, const display::Box&, const display::Pos&) override { std::abort(); }
    void present() override { std::abort(); }
    void opengl_make_current() override;
    void opengl_swap_buffers() override;
};

class FakeConn : public display::Connection {
public:
    World& w;
    explicit FakeConn(World& w_2) : w(w_2) {}
    bool try_map_key_to_key_code(display::Key key, display::KeyCode& code) const override;
    bool try_map_key_code_to_key(display::KeyCode, display::Key&) const override { return false; }
    bool try_get_key_name(display::KeyCode, std::string_view&) const override { return false; }
    bool try_new_window(std::string_view title, display::Size size, const display::Window::Config& config,
                        std::unique_ptr<display::Window>& win, std::string& error) override;
    void set_event_handler(display::ConnectionEventHandler& h) override;
    void process_events() override { std::abort(); }
    bool process_events_a(time_point_type deadline) override;
    int get_num_screens() const override;
    int get_default_screen() const override;
    bool try_get_screen_conf(int screen, core::Buffer<display::Viewport>& viewports,
                             core::Buffer<char>& strings, std::size_t& num_viewports) const override;
    auto get_implementation() const noexcept -> const display::Implementation& override { std::abort(); }
};

struct FakeScene : Engine::Scene {
    World& w;
    explicit FakeScene(World& w_2) : w(w_2) {}
    void init() override;
    void render() override;
    bool tick(Clock::time_point time) override;
};

// ---------------------------------------------------------------- model

struct Key {
    bool mouse;
    int code;
    auto operator<=>(const Key&) const = default;
};

struct Slot {
    bool pressed = false;
    int receiver = -1; // Index into World::handlers
    int mult = 0;
    long time = 0;
    unsigned mode = 0;
    bool rebound = false;
    std::map<std::pair<unsigned, int>, int> binds;
};

struct Handler {
    std::optional<Builtin> builtin;
    std::optional<render::KeyHandlerIdent> ident; // Unless bound anonymously
};

struct View {
    display::Box bounds;
    std::optional<display::Resolution> resolution;
    std::optional<double> rate;
};

struct World {
    vf::Case& c;
    GL gl_state;
    FakeConn conn { *this };
    FakeScene scene { *this };
    Engine* engine = nullptr;
    string log;

    // Display state
    display::WindowEventHandler* win_handler = nullptr;
    display::ConnectionEventHandler* conn_handler = nullptr;
    bool window_exists = false, shown = false;
    string title;
    int num_screens = 1, default_screen = 0;
    int screen = -1; // As specified
    bool exposes_conf = true;
    vector<vector<View>> views;
    std::optional<display::Size> requested_size;
    std::optional<bool> requested_fullscreen;
    bool refuse_window = false;
    std::set<int> unknown_keys;

    // Model
    bool frame_control = true, resizable = false, headlight_feature = true, wireframe_feature = true;
    bool track_res = true, track_rate = true;
    display::Resolution def_res = 96 / 2.54;
    double def_rate = 60;
    display::Resolution res = 96 / 2.54;
    double rate = 60;
    display::Size win_size;
    display::Pos win_pos;
    util::Color background = util::colors::black;
    math::Rotation base_orientation, base_spin;
    double base_zoom = 1, base_interest = 2;
    double zoom = 1, interest = 2;
    bool headlight = true, wireframe = false, fullscreen = false;
    math::Rotation pending_spin;
    bool started = false, running = false, quit = false, inited = false;
    render::VirtualTrackball ball; // Reference
    math::Rotation orientation;
    std::map<Key, Slot> slots;
    vector<Handler> handlers;
    long ev_time = 0;

    // Expectations
    vector<vector<View>> fetched; // Screen configuration as last announced
    bool dirty = true;            // Something changed since last redraw
    bool geometry_dirty = false;  // Size or resolution changed since last redraw
    bool grabbed = false;
    bool exposed = false;         // Something must be redrawn before sleep
    std::multiset<std::pair<int, bool>> due; // Handler calls
    bool blur_due = false;
    int renders = 0, ticks = 0, swaps = 0, makes = 0;
    bool need_swap = false;
    long long last_tick = -1;      // Time of last tick
    long long prev_period = 0;
    bool rate_changed = true;      // Since last tick
    bool tick_due = false;         // Deadline expired
    bool fresh = false;            // No event processing since tick
    long long tick_time = 0;
    int rounds_left = 0;
    int quiet_rounds = 0;
    bool no_user_calls = false;

    explicit World(vf::Case& c_2) : c(c_2) {}

    static Key key(display::Key k) { return { false, 1000 + int(k) }; }

    long long period() const
    {
        return (long long)(std::floor(1E9 / rate));
    }

    // The physical resolution must end up in projection
    void update_view()
    {
        geometry_dirty = true;
        ball.set_viewport_size(win_size);
        dirty = true;
    }

    bool set_mode_res(const display::Resolution& r)
    {
        if (res != r)
            geometry_dirty = true;
        ball.set_pixel_aspect_ratio(r.vert_ppcm / r.horz_ppcm);
        res = r;
        // Reciprocals are what the engine is documented to convert to
        dirty = true;
        return true;
    }

    void set_rate(double r)
    {
        rate_changed = true; // Also restarts the pacing when rate is the same
        rate = r;
    }

    void track()
    {
        if (!track_res && !track_rate)
            return;
        std::optional<display::Resolution> r;
        std::optional<double> f;
        int s = screen < 0 ? default_screen : screen;
        if (exposes_conf) {
            for (const View& v : fetched[std::size_t(s)]) {
                if (!v.bounds.intersects({ win_pos, win_size }))
                    continue;
                r = v.resolution;
                f = v.rate;
                break;
            }
        }
        if (track_res) {
            display::Resolution r2 = r.value_or(def_res);
            if (r2 != res)
                set_mode_res(r2);
        }
        if (track_rate) {
            double f2 = f.value_or(def_rate);
            if (f2 != rate)
                set_rate(f2);
        }
    }

    unsigned mode() const
    {
        unsigned m = 0;
        for (auto& [k, s] : slots) {
            if (!s.pressed || s.receiver < 0)
                continue;
            const Handler& h = handlers[std::size_t(s.receiver)];
            if (!h.builtin)
                continue;
            switch (*h.builtin) {
                case Builtin::shift_modifier:
                    m |= 1;
                    break;
                case Builtin::control_modifier:
                    m |= 2;
                    break;
                case Builtin::alt_modifier:
                    m |= 4;
                    break;
                case Builtin::meta_modifier:
                    m |= 8;
                    break;
                default:
                    break;
            }
        }
        return m;
    }

    void set_orientation(const math::Rotation& r)
    {
        orientation = r;
        ball.set_orientation(r);
        dirty = true;
    }

    void set_spin(const math::Rotation& r)
    {
        pending_spin = r;
        if (started)
            ball.set_spin(r, tp(g_now));
    }

    void set_zoom(double f)
    {
        zoom = std::clamp(f, 1.0 / 8, 32.0);
        dirty = true;
    }

    void set_interest(double d)
    {
        interest = d;
        dirty = true;
    }

    void reset_view()
    {
        set_orientation(base_orientation);
        set_spin(base_spin);
        set_zoom(base_zoom);
        set_interest(base_interest);
    }

    void apply_builtin(Builtin b, bool down)
    {
        switch (b) {
            case Builtin::shift_modifier:
            case Builtin::control_modifier:
            case Builtin::alt_modifier:
            case Builtin::meta_modifier:
                return;
            case Builtin::quit:
                if (down)
                    quit = true;
                return;
            case Builtin::inc_frame_rate:
                if (down) {
                    track_rate = false;
                    set_rate(rate * 2);
                }
                return;
            case Builtin::dec_frame_rate:
                if (down) {
                    track_rate = false;
                    set_rate(rate / 2);
                }
                return;
            case Builtin::toggle_fullscreen:
                if (down) {
                    fullscreen = !fullscreen;
                }
                return;
            case Builtin::reset_view:
                if (down)
                    reset_view();
                return;
            case Builtin::toggle_headlight:
                if (down) {
                    headlight = !headlight;
                    dirty = true;
                }
                return;
            case Builtin::toggle_wireframe:
                if (down) {
                    wireframe = !wireframe;
                    dirty = true;
                }
                return;
        }
    }

    void model_bind(Key k, unsigned m, int mult, int handler)
    {
        Slot& s = slots[k];
        s.binds[{ m, mult }] = handler;
        s.rebound = true;
        s.mult = 0;
    }

    void fire(int handler, bool down)
    {
        const Handler& h = handlers[std::size_t(handler)];
        if (h.builtin) {
            c.event("builtin_calls");
            apply_builtin(*h.builtin, down);
        }
        else {
            due.insert({ handler, down });
        }
    }

    // A press or release of a key
    void model_key(Key k, bool down)
    {
        Slot& s = slots[k];
        if (down) {
            if (s.pressed || s.binds.empty())
                return;
            int max = 0;
            for (auto& [sub, h] : s.binds)
                max = std::max(max, sub.second);
            unsigned m = mode();
            bool connected = (s.mult > 0 && s.mode == m && ev_time - s.time <= 250 && s.mult < max);
            s.mult = connected ? s.mult + 1 : 1;
            s.pressed = true;
            s.time = ev_time;
            s.mode = m;
            auto i = s.binds.find({ m, s.mult });
            s.receiver = i == s.binds.end() ? -1 : i->second;
            if (s.receiver >= 0) {
                if (m != 0 && (m & (m - 1)) != 0)
                    c.event("composed_modes");
                fire(s.receiver, true);
            }
        }
        else if (s.pressed) {
            s.pressed = false;
            if (s.receiver >= 0)
                fire(s.receiver, false);
        }
    }

    void model_blur()
    {
        vector<int> up;
        for (auto& [k, s] : slots) {
            if (s.pressed && s.receiver >= 0)
                up.push_back(s.receiver);
            s.pressed = false;
            s.mult = 0;
        }
        for (int h : up)
            fire(h, false);
    }

    // ------------------------------------------------ random actions on engine

    math::Rotation random_rotation()
    {
        math::Vector3 a = { c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1) };
        double l = math::len(a);
        if (l < 1E-3) {
            a = { 0, 0, 1 };
            l = 1;
        }
        return math::Rotation(a / l, c.rng.chance(1, 5) ? 0 : c.rng.real(-3, 3));
    }

    int add_handler(bool anonymous, std::optional<render::KeyIdent> bind_to = {}, unsigned m = 0, int mult = 1)
    {
        int index = int(handlers.size());
        handlers.push_back({});
        auto func = [this, index](bool down) { called(index, down); };
        if (anonymous) {
            if (m == 0 && mult == 1 && c.rng.chance(1, 2)) {
                engine->bind_key(*bind_to, "label", func);
            }
            else {
                engine->bind_key(*bind_to, { m }, { mult }, "label", func);
            }
        }
        else {
            handlers[std::size_t(index)].ident = engine->register_key_handler("handler " + num(index), func);
        }
        return index;
    }

    // Keys that are eligible for binding
    std::pair<Key, render::KeyIdent> random_key()
    {
        switch (c.rng.below(5)) {
            case 0: {
                int code = int(c.rng.below(4));
                return { Key { false, code }, render::KeyIdent(display::KeyCode { display::KeyCode::code_type(code) }) };
            }
            case 1: {
                auto b = display::MouseButton(1 + int(c.rng.below(4)));
                return { Key { true, int(b) }, render::KeyIdent(b) };
            }
            default: {
                display::Key k = c.rng.pick({ display::Key::small_a, display::Key::small_b, display::Key::small_w,
                                              display::Key::small_l, display::Key::space, display::Key::small_q,
                                              display::Key::keypad_add, display::Key::shift_left,
                                              display::Key::ctrl_right });
                return { key(k), render::KeyIdent(k) };
            }
        }
    }

    bool known(Key k) const { return k.mouse || unknown_keys.count(k.code) == 0; }

    static bool is_modifier(Key k)
    {
        for (display::Key x : { display::Key::shift_left, display::Key::shift_right, display::Key::ctrl_left,
                                display::Key::ctrl_right, display::Key::alt_left, display::Key::alt_right,
                                display::Key::meta_left, display::Key::meta_right }) {
            if (key(x) == k)
                return true;
        }
        return false;
    }

    void random_bind()
    {
        auto [k, ident] = random_key();
        unsigned m = unsigned(c.rng.chance(1, 2) ? 0 : c.rng.below(16));
        int mult = c.rng.chance(2, 3) || is_modifier(k) ? 1 : 1 + int(c.rng.below(3));
        int h;
        if (c.rng.chance(1, 3)) {
            h = add_handler(true, ident, m, mult);
            log += " B" + num(k.code) + "/" + num(m) + "/" + num(mult) + "->" + num(h);
        }
        else {
            // An existing one
            vector<int> candidates;
            for (std::size_t i = 0; i < handlers.size(); i++) {
                if (handlers[i].ident)
                    candidates.push_back(int(i));
            }
            if (c.rng.chance(1, 2) || candidates.empty()) {
                h = add_handler(false);
            }
            else {
                h = candidates[std::size_t(c.rng.below(candidates.size()))];
            }
            log += " b" + num(k.code) + "/" + num(m) + "/" + num(mult) + "->" + num(h);
            if (m == 0 && mult == 1 && c.rng.chance(1, 2)) {
                engine->bind_key_a(ident, *handlers[std::size_t(h)].ident);
            }
            else {
                engine->bind_key_a(ident, { m }, { mult }, *handlers[std::size_t(h)].ident);
            }
        }
        if (known(k))
            model_bind(k, m, mult, h);
        c.event("bound");
    }

    void action()
    {
        c.event("actions");
        switch (c.rng.below(17)) {
            case 0: {
                if (grabbed)
                    return;
                display::Resolution r = { c.rng.real(10, 80), c.rng.real(10, 80) };
                track_res = false;
                set_mode_res(r);
                log += " resol";
                engine->set_resolution(r);
                return;
            }
            case 1: {
                double r = c.rng.pick({ 10.0, 24.0, 60.0, 59.94, 144.0, 1000.0 });
                track_rate = false;
                set_rate(r);
                log += " rate" + num(r);
                engine->set_frame_rate(r);
                return;
            }
            case 2: {
                background = util::Color(std::uint_least8_t(c.rng.below(256)), std::uint_least8_t(c.rng.below(256)),
                                         std::uint_least8_t(c.rng.below(256)), std::uint_least8_t(c.rng.below(256)));
                dirty = true;
                log += " bg";
                engine->set_background_color(background);
                return;
            }
            case 3: {
                base_orientation = random_rotation();
                set_orientation(base_orientation);
                log += " baseorient";
                engine->set_base_orientation(base_orientation);
                return;
            }
            case 4: {
                base_spin = random_rotation();
                log += " basespin";
                set_spin(base_spin);
                engine->set_base_spin(base_spin);
                return;
            }
            case 5: {
                base_zoom = c.rng.pick({ 0.01, 0.5, 1.0, 2.0, 3.7, 100.0 });
                set_zoom(base_zoom);
                log += " basezoom";
                engine->set_base_zoom_factor(base_zoom);
                return;
            }
            case 6: {
                base_interest = c.rng.real(0.1, 10);
                set_interest(base_interest);
                log += " baseint";
                engine->set_base_interest_size(base_interest);
                return;
            }
            case 7: {
                string t = "title " + num(c.rng.below(100));
                engine->set_window_title(t);
                VF_EQ(title, t, "title", "title of window");
                return;
            }
            case 8: {
                display::Size s = { 1 + int(c.rng.below(1000)), 1 + int(c.rng.below(1000)) };
                engine->set_window_size(s);
                VF_REQUIRE(requested_size == s, "set-size", "requested size of window");
                return;
            }
            case 9: {
                fullscreen = c.rng.chance(1, 2);
                log += " full";
                requested_fullscreen = {};
                engine->set_fullscreen_mode(fullscreen);
                VF_REQUIRE(requested_fullscreen == fullscreen, "set-fullscreen", "requested fullscreen mode");
                return;
            }
            case 10: {
                math::Rotation r = random_rotation();
                set_orientation(r);
                log += " orient";
                engine->set_orientation(r);
                return;
            }
            case 11: {
                math::Rotation r = random_rotation();
                set_spin(r);
                log += " spin";
                engine->set_spin(r);
                c.event("spins");
                return;
            }
            case 12: {
                double f = c.rng.pick({ 0.0, 0.125, 0.3, 1.0, 5.5, 32.0, 1E6 });
                set_zoom(f);
                log += " zoom";
                engine->set_zoom_factor(f);
                return;
            }
            case 13: {
                double d = c.rng.real(0.1, 10);
                set_interest(d);
                log += " interest";
                engine->set_interest_size(d);
                return;
            }
            case 14:
                reset_view();
                log += " reset";
                engine->reset_view();
                return;
            case 15: {
                bool on = c.rng.chance(1, 2);
                if (c.rng.chance(1, 2)) {
                    headlight = on;
                    log += " head" + num(on);
                    engine->set_headlight_mode(on);
                }
                else {
                    wireframe = on;
                    log += " wire" + num(on);
                    engine->set_wireframe_mode(on);
                }
                dirty = true;
                return;
            }
            case 16:
                random_bind();
                return;
        }
    }

    // ------------------------------------------------ called by engine

    void called(int index, bool down)
    {
        VF_REQUIRE(running, "handler-outside", "handler called while engine is not running");
        auto i = due.find({ index, down });
        VF_REQUIRE(i != due.end(), "handler-call",
                   "handler " << index << " was not due to be called for " << (down ? "press" : "release") << " after" << log);
        due.erase(i);
        c.event("user_calls");
        log += " {" + num(index) + (down ? "+" : "-");
        int n = int(c.rng.below(3));
        if (!no_user_calls) {
            for (int j = 0; j < n; j++) {
                action();
                c.event("actions_in_handler");
            }
        }
        log += "}";
    }

    void check_due(const char* where)
    {
        VF_REQUIRE(due.empty(), "handler-missed", "handler " << due.begin()->first << " was not called for " <<
                   (due.begin()->second ? "press" : "release") << " (" << where << ") after" << log);
    }

    void on_render()
    {
        VF_REQUIRE(running && inited, "render-early", "rendering before initialization");
        VF_REQUIRE(!gl_state.misuse, "gl-context", "OpenGL used without a context");
        VF_REQUIRE(!need_swap, "swap-missing", "a frame was not shown before the next was rendered");
        VF_REQUIRE(gl_state.clears > 0, "clear", "frame was not cleared after" << log);
        gl_state.clears = 0;
        GL& g = gl_state;
        // Appearance
        bool light = headlight_feature && headlight;
        VF_EQ(g.light0, light, "headlight", "whether headlight is on after" << log);
        bool wire = wireframe_feature && wireframe;
        VF_EQ(g.polygon == GL_LINE, wire, "wireframe", "whether wireframe mode is on after" << log);
        math::Vector4F v;
        background.to_vec(v);
        VF_REQUIRE(g.clear[0] == v[0] && g.clear[1] == v[1] && g.clear[2] == v[2] && g.clear[3] == v[3], "background",
                   "background color after" << log);
        VF_REQUIRE(g.vp[0] == 0 && g.vp[1] == 0 && g.vp[2] == win_size.width && g.vp[3] == win_size.height, "viewport",
                   "viewport is " << g.vp[2] << "x" << g.vp[3] << " rather than " << win_size.width << "x" <<
                   win_size.height << " after" << log);
        // Projection
        L width = win_size.width * (0.01L / res.horz_ppcm), height = win_size.height * (0.01L / res.vert_ppcm);
        L view_dist = 0.6L;
        L min_fov = std::min(width, height) / view_dist;
        L camera = interest * std::sqrt(0.25L + 1 / (min_fov * min_fov));
        L near = camera / 10, far = camera * 10;
        L right = near * width / view_dist / zoom / 2, top = near * height / view_dist / zoom / 2;
        M4 proj = frustum(-right, right, -top, top, near, far);
        VF_REQUIRE(diff(g.projection, proj) < 1E-6L, "projection", "projection is not as expected (zoom " << zoom <<
                   ", interest " << interest << ", resolution " << res.horz_ppcm << " " << res.vert_ppcm << ", off by " <<
                   double(diff(g.projection, proj)) << ") after" << log);
        M4 mv = mul(translation(0, 0, -camera), rotation(orientation.angle, orientation.axis[0], orientation.axis[1],
                                                         orientation.axis[2]));
        VF_REQUIRE(diff(g.modelview, mv) < 1E-6L, "modelview", "orientation or distance is off by " <<
                   double(diff(g.modelview, mv)) << " after" << log);
        dirty = false;
        geometry_dirty = false;
        exposed = false;
        need_swap = true;
        renders++;
        c.event("renders");
    }

    bool on_tick(long long time)
    {
        VF_REQUIRE(running && inited && !quit, "tick-outside", "tick while not running, or after quit, after" << log);
        // Timing
        if (last_tick >= 0) {
            long long spacing = time - last_tick;
            long long p = period();
            if (!rate_changed && prev_period == p) {
                VF_REQUIRE(spacing >= p, "tick-early", "tick " << spacing << " ns after previous, but frame rate is " << rate << " after" << log);
                if (tick_due && spacing > p)
                    c.event("lag");
            }
            else {
                c.event("rate_changes");
                VF_REQUIRE(spacing >= 0, "tick-order", "ticks out of order");
            }
        }
        VF_REQUIRE(tick_due || rate_changed, "tick-reason", "tick without expiration of deadline, after" << log);
        if (tick_due)
            VF_EQ(time, tick_time, "tick-time", "time of tick after" << log);
        tick_due = false;
        rate_changed = false;
        prev_period = period();
        last_tick = time;
        ticks++;
        fresh = true;
        c.event("ticks");
        // Orientation is updated once per tick
        math::Rotation r = ball.get_orientation(tp(time));
        M4 m1 = rotation(r.angle, r.axis[0], r.axis[1], r.axis[2]);
        M4 m2 = rotation(orientation.angle, orientation.axis[0], orientation.axis[1], orientation.axis[2]);
        orientation = r;
        if (diff(m1, m2) > 1E-9L) { // Pixel aspect ratio is subject to rounding
            dirty = true;
            c.event("turned");
        }
        if (c.rng.chance(1, 10)) {
            log += " tick{";
            action();
            log += "}";
        }
        bool changed = c.rng.chance(1, 4);
        if (changed)
            dirty = true;
        return changed;
    }

    // ------------------------------------------------ event generation

    bool deliver()
    {
        VF_REQUIRE(!blur_due, "blur-incomplete", "event after incomplete loss of focus");
        bool proceed = true;
        auto ts = std::chrono::milliseconds(ev_time);
        display::Pos pos = { int(c.rng.below(400)), int(c.rng.below(400)) };
        c.event("delivered");
        unsigned what = unsigned(c.rng.below(24));
        if (what < 10) {
            // Keys
            Key k = random_key().first;
            vector<Key> pressed;
            for (auto& [kk, s] : slots) {
                if (s.pressed)
                    pressed.push_back(kk);
            }
            if (c.rng.chance(1, 3)) {
                k = key(c.rng.pick({ display::Key::shift_left, display::Key::shift_right, display::Key::ctrl_left,
                                     display::Key::alt_left, display::Key::alt_right, display::Key::meta_right,
                                     display::Key::ctrl_right, display::Key::small_f, display::Key::keypad_subtract }));
            }
            bool down = c.rng.chance(1, 2);
            if (!down && !pressed.empty() && c.rng.chance(3, 4))
                k = pressed[std::size_t(c.rng.below(pressed.size()))];
            if (!known(k))
                return true;
            if (rounds_left > 3 && down && (k == key(display::Key::small_q) || k == key(display::Key::escape)) &&
                c.rng.chance(3, 4))
                return true; // Do not quit too early too often
            Slot& s = slots[k];
            ev_time += c.rng.chance(1, 2) ? long(c.rng.below(60)) : 400;
            if (down && !s.pressed) {
                if (s.rebound) {
                    ev_time += 1000;
                    s.rebound = false;
                }
                if (s.mult > 0 && ev_time - s.time > 200 && ev_time - s.time < 320)
                    ev_time += 320;
            }
            ts = std::chrono::milliseconds(ev_time);
            log += string(down ? " +" : " -") + (k.mouse ? "m" : "") + num(k.code);
            bool quit_before = quit;
            int receiver = s.receiver;
            bool was_pressed = s.pressed;
            requested_fullscreen = {};
            bool full_before = fullscreen;
            model_key(k, down);
            bool full_expect = fullscreen;
            // Quit handler interrupts
            if (k.mouse) {
                display::MouseButtonEvent ev = {};
                ev.timestamp = ts;
                ev.pos = pos;
                ev.button = display::MouseButton(k.code);
                proceed = down ? win_handler->on_mousedown(ev) : win_handler->on_mouseup(ev);
            }
            else {
                display::KeyEvent ev = {};
                ev.timestamp = ts;
                ev.key_code = { display::KeyCode::code_type(k.code) };
                proceed = down ? win_handler->on_keydown(ev) : win_handler->on_keyup(ev);
                if (down && c.rng.chance(1, 8))
                    proceed = proceed && win_handler->on_keyrepeat(ev);
            }
            if (full_expect != full_before)
                VF_REQUIRE(requested_fullscreen.has_value(), "toggle-fullscreen", "fullscreen mode was not toggled after" << log);
            if (quit && !quit_before)
                VF_REQUIRE(!proceed, "quit-key", "quit key did not interrupt event processing after" << log);
            (void)receiver;
            (void)was_pressed;
            check_due("key");
            return proceed;
        }
        switch (what) {
            case 10: {
                if (geometry_dirty)
                    return true;
                grabbed = true;
                display::MouseButtonEvent ev = {};
                ev.timestamp = ts;
                ev.pos = pos;
                ev.button = display::MouseButton::left;
                log += " grab";
                ball.acquire(tp(g_now));
                ball.track(pos, ts);
                dirty = true;
                return win_handler->on_mousedown(ev);
            }
            case 11: {
                display::MouseButtonEvent ev = {};
                ev.timestamp = ts;
                ev.pos = pos;
                ev.button = display::MouseButton::left;
                log += " ungrab";
                ball.track(pos, ts);
                ball.release(tp(g_now));
                grabbed = false;
                dirty = true;
                c.event("drags");
                return win_handler->on_mouseup(ev);
            }
            case 12:
            case 13: {
                ev_time += long(c.rng.below(30));
                display::MouseEvent ev = {};
                ev.timestamp = std::chrono::milliseconds(ev_time);
                ev.pos = pos;
                log += " move";
                ball.track(pos, ev.timestamp);
                dirty = true;
                return win_handler->on_mousemove(ev);
            }
            case 14: {
                display::ScrollEvent ev = {};
                ev.timestamp = ts;
                ev.amount = { float(c.rng.range(-3, 3)), float(c.rng.range(-3, 3)) };
                unsigned m = mode();
                double step = std::pow(2.0, double(ev.amount[1]) / 8);
                if (m == 0)
                    set_interest(interest / step);
                else if (m == 1)
                    set_zoom(zoom * step);
                log += " scroll" + num(ev.amount[1]) + "/" + num(m);
                c.event("scrolled");
                return win_handler->on_scroll(ev);
            }
            case 15: {
                log += " blur";
                model_blur();
                c.event("blurs");
                bool res = win_handler->on_blur({});
                if (!res) {
                    blur_due = true;
                    c.event("blur_interrupted");
                }
                else {
                    check_due("blur");
                }
                return res;
            }
            case 16:
            case 17: {
                log += " expose";
                dirty = true;
                exposed = true;
                return win_handler->on_expose({});
            }
            case 18: {
                if (grabbed)
                    return true;
                win_size = { 1 + int(c.rng.below(1500)), 1 + int(c.rng.below(1500)) };
                log += " size" + num(win_size.width) + "x" + num(win_size.height);
                update_view();
                track();
                display::WindowSizeEvent ev = {};
                ev.size = win_size;
                c.event("resized");
                return win_handler->on_resize(ev);
            }
            case 19: {
                if (grabbed)
                    return true;
                win_pos = { int(c.rng.range(-1000, 3000)), int(c.rng.range(-1000, 3000)) };
                log += " pos" + num(win_pos.x) + "," + num(win_pos.y);
                track();
                display::WindowPosEvent ev = {};
                ev.pos = win_pos;
                return win_handler->on_reposition(ev);
            }
            case 20: {
                if (grabbed)
                    return true;
                int s = int(c.rng.below(std::uint64_t(num_screens)));
                if (!exposes_conf)
                    return true;
                make_views(std::size_t(s));
                log += " screen" + num(s);
                if (s == (screen < 0 ? default_screen : screen)) {
                    fetched[std::size_t(s)] = views[std::size_t(s)];
                    track();
                    c.event("screen_changes");
                }
                return conn_handler->on_screen_change(s);
            }
            case 21:
                if (rounds_left > 2 && c.rng.chance(3, 4))
                    return true;
                log += " close";
                quit = true;
                proceed = win_handler->on_close({});
                VF_REQUIRE(!proceed, "close", "closing did not interrupt event processing");
                return proceed;
            case 22:
                if (rounds_left > 2 && c.rng.chance(3, 4))
                    return true;
                log += " quit";
                quit = true;
                proceed = conn_handler->on_quit();
                VF_REQUIRE(!proceed, "quit", "quit did not interrupt event processing");
                return proceed;
            case 23:
                return win_handler->on_focus({}) && win_handler->on_mouseover({}) && win_handler->on_mouseout({});
        }
        return true;
    }

    void make_views(std::size_t s)
    {
        vector<View> v;
        int n = int(c.rng.below(4));
        for (int i = 0; i < n; i++) {
            View x;
            x.bounds = { { int(c.rng.range(-500, 1500)), int(c.rng.range(-500, 1500)) },
                         { 1 + int(c.rng.below(1500)), 1 + int(c.rng.below(1500)) } };
            if (c.rng.chance(3, 4))
                x.resolution = display::Resolution(c.rng.real(20, 60), c.rng.real(20, 60));
            if (c.rng.chance(3, 4))
                x.rate = c.rng.pick({ 24.0, 30.0, 59.94, 75.0, 144.0 });
            v.push_back(x);
        }
        views[s] = std::move(v);
    }

    bool process(long long deadline)
    {
        VF_REQUIRE(running, "process-outside", "event processing outside run()");
        VF_REQUIRE(!quit, "process-after-quit", "event processing continues after quit, after" << log);
        if (blur_due) {
            blur_due = false;
            check_due("blur");
        }
        VF_REQUIRE(!need_swap, "swap-missing", "a rendered frame was not shown");
        VF_REQUIRE(!dirty, "redraw", "waiting for events without having redrawn, after" << log);
        VF_REQUIRE(!tick_due, "tick-missing", "no tick after expiration of deadline");
        if (fresh)
            VF_REQUIRE(deadline >= g_now, "deadline-past", "deadline is in the past, after" << log);
        fresh = false;
        if (rounds_left <= 0) {
            log += " quit";
            quit = true;
            bool proceed = conn_handler->on_quit();
            VF_REQUIRE(!proceed, "quit", "quit did not interrupt event processing");
            return false;
        }
        rounds_left--;
        if (last_tick >= 0 && !rate_changed) {
            // No lag allowed, beyond what is due to the display
            VF_REQUIRE(deadline <= std::max(last_tick + period(), g_now), "deadline-late",
                       "deadline is " << (deadline - last_tick) << " ns after last tick at frame rate " << rate << " after" << log);
        }
        int n = int(c.rng.below(c.rng.chance(1, 2) ? 2 : 6));
        for (int i = 0; i < n; i++) {
            g_now += long(c.rng.below(3000000));
            if (!deliver())
                return false;
            if (c.rng.chance(1, 20)) {
                if (!conn_handler->before_sleep())
                    return false;
                VF_REQUIRE(!exposed, "expose-sleep", "going to sleep with exposed window not redrawn, after" << log);
            }
        }
        if (!conn_handler->before_sleep())
            return false;
        VF_REQUIRE(!exposed, "expose-sleep", "going to sleep with exposed window not redrawn, after" << log);
        if (c.rng.chance(1, 10))
            g_now = std::max(g_now, deadline) + long(c.rng.below(50000000)); // Lag
        else
            g_now = std::max(g_now, deadline);
        tick_due = true;
        tick_time = deadline;
        return true;
    }

    void add_builtin(Builtin b, std::initializer_list<display::Key> keys)
    {
        handlers.push_back({ b, engine->get_builtin_key_handler(b) });
        int h = int(handlers.size()) - 1;
        bool modifier = (b == Builtin::shift_modifier || b == Builtin::control_modifier ||
                         b == Builtin::alt_modifier || b == Builtin::meta_modifier);
        for (display::Key k : keys) {
            if (!known(key(k)))
                continue;
            for (unsigned m = 0; m < (modifier ? 16u : 1u); m++)
                model_bind(key(k), m, 1, h);
            slots[key(k)].rebound = false;
        }
    }

    void add_builtins()
    {
        using K = display::Key;
        add_builtin(Builtin::shift_modifier, { K::shift_left, K::shift_right });
        add_builtin(Builtin::control_modifier, { K::ctrl_left, K::ctrl_right });
        add_builtin(Builtin::alt_modifier, { K::alt_left, K::alt_right });
        add_builtin(Builtin::meta_modifier, { K::meta_left, K::meta_right });
        add_builtin(Builtin::quit, { K::escape, K::small_q });
        if (frame_control) {
            add_builtin(Builtin::inc_frame_rate, { K::keypad_add });
            add_builtin(Builtin::dec_frame_rate, { K::keypad_subtract });
        }
        if (resizable)
            add_builtin(Builtin::toggle_fullscreen, { K::small_f });
        add_builtin(Builtin::reset_view, { K::space });
        if (headlight_feature)
            add_builtin(Builtin::toggle_headlight, { K::small_l });
        if (wireframe_feature)
            add_builtin(Builtin::toggle_wireframe, { K::small_w });
    }
};

// ---------------------------------------------------------------- fake display implementation

FakeWindow::~FakeWindow() noexcept
{
    w.window_exists = false;
    w.win_handler = nullptr;
}
void FakeWindow::set_event_handler(display::WindowEventHandler& h) { w.win_handler = &h; }
void FakeWindow::show() { w.shown = true; }
void FakeWindow::set_title(std::string_view title) { w.title = title; }
void FakeWindow::set_size(display::Size size) { w.requested_size = size; }
void FakeWindow::set_fullscreen_mode(bool on)
{
    w.requested_fullscreen = on;
    VF_EQ(on, w.fullscreen, "fullscreen", "requested fullscreen mode after" << w.log);
}
void FakeWindow::opengl_make_current()
{
    w.gl_state.current = true;
    w.makes++;
}
void FakeWindow::opengl_swap_buffers()
{
    VF_REQUIRE(w.need_swap, "swap", "buffers swapped when nothing was rendered");
    w.need_swap = false;
    w.swaps++;
}

bool FakeConn::try_map_key_to_key_code(display::Key key, display::KeyCode& code) const
{
    Key k = World::key(key);
    if (!w.known(k))
        return false;
    code = { display::KeyCode::code_type(k.code) };
    return true;
}
bool FakeConn::try_new_window(std::string_view title, display::Size size, const display::Window::Config& config,
                              std::unique_ptr<display::Window>& win, std::string& error)
{
    if (w.refuse_window) {
        error = "no more windows";
        return false;
    }
    w.title = title;
    VF_EQ(config.screen, w.screen, "config-screen", "screen of window");
    VF_EQ(config.resizable, w.resizable, "config-resizable", "whether window is resizable");
    VF_EQ(config.fullscreen, w.fullscreen, "config-fullscreen", "whether window is initially in fullscreen mode");
    VF_REQUIRE(config.enable_opengl_rendering, "config-opengl", "OpenGL rendering");
    VF_REQUIRE(size == w.win_size, "config-size", "size of window");
    w.window_exists = true;
    win = std::make_unique<FakeWindow>(w);
    return true;
}
void FakeConn::set_event_handler(display::ConnectionEventHandler& h) { w.conn_handler = &h; }
bool FakeConn::process_events_a(time_point_type deadline)
{
    return w.process(deadline.time_since_epoch().count());
}
int FakeConn::get_num_screens() const { return w.num_screens; }
int FakeConn::get_default_screen() const { return w.default_screen; }
bool FakeConn::try_get_screen_conf(int screen, core::Buffer<display::Viewport>& viewports,
                                   core::Buffer<char>&, std::size_t& num_viewports) const
{
    if (!w.exposes_conf)
        return false;
    VF_REQUIRE(screen < w.num_screens, "screen-index", "screen index");
    const vector<View>& views = w.views[std::size_t(screen < 0 ? w.default_screen : screen)];
    viewports.reserve(views.size(), 0);
    for (std::size_t i = 0; i < views.size(); i++) {
        display::Viewport v;
        v.output_name = "output";
        v.bounds = views[i].bounds;
        v.resolution = views[i].resolution;
        v.refresh_rate = views[i].rate;
        viewports.data()[i] = v;
    }
    num_viewports = views.size();
    return true;
}

void FakeScene::init()
{
    VF_REQUIRE(!w.inited, "init-twice", "scene initialized twice");
    VF_REQUIRE(w.gl_state.current, "init-context", "scene initialized without an OpenGL context");
    w.inited = true;
    w.log += " init{";
    int n = int(w.c.rng.below(3));
    for (int i = 0; i < n; i++)
        w.action();
    w.log += "}";
    // From here on, spin takes effect
    w.started = true;
    w.ball.set_spin(w.pending_spin, tp(g_now));
}
void FakeScene::render() { w.on_render(); }
bool FakeScene::tick(Clock::time_point time) { return w.on_tick(time.time_since_epoch().count()); }

struct CountingLogger {
    std::ostringstream out;
    log::StreamLogger logger { out };
    int errors()
    {
        int n = 0;
        string s = out.str();
        for (std::size_t i = s.find("ERROR: "); i != string::npos; i = s.find("ERROR: ", i + 1))
            n++;
        return n;
    }
};

void setup(World& w, vf::Case& c, Engine::Config& config)
{
    w.num_screens = 1 + int(c.rng.below(3));
    w.default_screen = int(c.rng.below(std::uint64_t(w.num_screens)));
    w.screen = c.rng.chance(1, 2) ? -1 : int(c.rng.below(std::uint64_t(w.num_screens)));
    w.exposes_conf = c.rng.chance(3, 4);
    w.views.resize(std::size_t(w.num_screens));
    for (std::size_t i = 0; i < w.views.size(); i++)
        w.make_views(i);
    w.win_size = { 1 + int(c.rng.below(1000)), 1 + int(c.rng.below(1000)) };
    w.frame_control = !c.rng.chance(1, 4);
    w.resizable = c.rng.chance(1, 2);
    w.headlight_feature = !c.rng.chance(1, 4);
    w.wireframe_feature = !c.rng.chance(1, 4);
    w.track_res = !c.rng.chance(1, 4);
    w.track_rate = !c.rng.chance(1, 4);
    w.fullscreen = c.rng.chance(1, 4);
    if (c.rng.chance(1, 2))
        w.def_res = display::Resolution(c.rng.real(20, 60), c.rng.real(20, 60));
    if (c.rng.chance(1, 2))
        w.def_rate = c.rng.pick({ 10.0, 50.0, 120.0 });
    w.base_orientation = w.random_rotation();
    if (c.rng.chance(1, 2))
        w.base_spin = w.random_rotation();
    w.base_zoom = c.rng.pick({ 1.0, 2.0, 0.01, 77.0 });
    w.base_interest = c.rng.real(0.1, 5);
    w.headlight = !c.rng.chance(1, 4);
    w.wireframe = c.rng.chance(1, 4);
    if (c.rng.chance(1, 4)) {
        w.unknown_keys.insert(World::key(display::Key::shift_right).code);
        w.unknown_keys.insert(World::key(display::Key::small_b).code);
    }
    config.screen = w.screen;
    config.allow_window_resize = w.resizable;
    config.fullscreen_mode = w.fullscreen;
    config.disable_frame_rate_control = !w.frame_control;
    config.disable_headlight_feature = !w.headlight_feature;
    config.disable_wireframe_feature = !w.wireframe_feature;
    config.disable_resolution_tracking = !w.track_res;
    config.disable_frame_rate_tracking = !w.track_rate;
    config.resolution = w.def_res;
    config.frame_rate = w.def_rate;
    config.orientation = w.base_orientation;
    config.spin = w.base_spin;
    config.zoom_factor = w.base_zoom;
    config.interest_size = w.base_interest;
    config.headlight_mode = w.headlight;
    config.wireframe_mode = w.wireframe;
    w.res = w.def_res;
    w.rate = w.def_rate;
    w.ball.set_viewport_size(w.win_size);
    w.ball.set_pixel_aspect_ratio(w.res.vert_ppcm / w.res.horz_ppcm);
    w.reset_view();
}

void run_engine(vf::Case& c)
{
    g_now = 1000000000 + c.rng.range(0, 1000000000);
    World w(c);
    g_gl = &w.gl_state;
    Engine::Config config;
    setup(w, c, config);
    CountingLogger logger;
    config.logger = &logger.logger;
    Engine engine;
    w.engine = &engine;
    string title = "title";
    if (c.rng.chance(1, 20)) {
        w.refuse_window = true;
        string error = "untouched";
        bool ok = engine.try_create(w.scene, w.conn, title, w.win_size, std::locale::classic(), config, error);
        VF_REQUIRE(!ok && error.find("no more windows") != string::npos, "create-failure", "failure to create window");
        bool threw = false;
        try {
            engine.create(w.scene, w.conn, title, w.win_size, std::locale::classic(), config);
        }
        catch (std::runtime_error&) {
            threw = true;
        }
        VF_REQUIRE(threw, "create-throw", "failure to create window must be reported as exception");
        w.refuse_window = false;
        c.event("create_failures");
    }
    if (c.rng.chance(1, 2)) {
        engine.create(w.scene, w.conn, title, w.win_size, std::locale::classic(), config);
    }
    else {
        string error;
        bool ok = engine.try_create(w.scene, w.conn, title, w.win_size, std::locale::classic(), config, error);
        VF_REQUIRE(ok, "create", "engine creation failed: " << error);
    }
    VF_EQ(w.title, title, "initial-title", "initial title");
    VF_REQUIRE(&engine.get_logger() == &logger.logger, "logger", "logger of engine");
    w.add_builtins();
    int n = int(c.rng.below(6));
    for (int i = 0; i < n; i++)
        w.action();
    w.gl_state.errors_to_report = c.rng.chance(1, 4) ? int(c.rng.below(12)) : 0;
    w.fetched = w.views;
    w.rounds_left = 2 + int(c.rng.below(40));
    w.running = true;
    w.log += " run";
    w.track();
    bool threw = false;
    try {
        engine.run();
    }
    catch (Stop&) {
        threw = true;
    }
    w.running = false;
    VF_REQUIRE(!threw && w.quit, "returned", "engine stopped without having been asked to, after" << w.log);
    w.check_due("end");
    VF_REQUIRE(w.shown && w.inited && w.makes == 1, "startup", "window must be shown, and scene initialized");
    VF_EQ(w.renders, w.swaps, "swaps", "number of frames shown");
    VF_REQUIRE(w.renders > 0, "rendered", "scene was never rendered");
    int e = w.gl_state.errors_reported;
    VF_EQ(logger.errors(), (e == 0 ? 0 : std::min(e, 8) + (e >= 8)), "gl-errors", "number of reported OpenGL errors (" << e << " occurred)");
    if (e >= 8)
        c.event("gl_errors_exhausted");
    c.nontrivial(vf::Hash().add(w.log).get());
    c.sample([&](std::ostream& out) { out << w.log.substr(0, 300); });
}

VF_MONITOR(r02_engine, 12000, 120000)
{
    run_engine(c);
}

// Extreme frame rates reached through the keyboard
VF_MONITOR(r02_rates, 300, 3000)
{
    g_now = 1000000000;
    World w(c);
    g_gl = &w.gl_state;
    Engine::Config config;
    CountingLogger logger;
    config.logger = &logger.logger;
    w.win_size = { 100, 100 };
    w.views.resize(1);
    w.fetched = w.views;

    struct Conn : FakeConn {
        using FakeConn::FakeConn;
        int step = 0, ups = 0, downs = 0, extra = 0;
        long long last_deadline = 0;
        bool process_events_a(time_point_type deadline) override
        {
            long long d = deadline.time_since_epoch().count();
            VF_REQUIRE(d >= g_now, "rate-deadline", "deadline lies in the past");
            last_deadline = d;
            auto press = [&](display::Key k) {
                display::KeyEvent ev = {};
                ev.timestamp = std::chrono::milliseconds(step * 1000);
                ev.key_code = { display::KeyCode::code_type(1000 + int(k)) };
                return w.win_handler->on_keydown(ev) && w.win_handler->on_keyup(ev);
            };
            step++;
            g_now += 1000;
            if (step <= downs) {
                if (!press(display::Key::keypad_subtract))
                    return false;
                return w.conn_handler->before_sleep() ? (w.tick_due = true) : false;
            }
            if (step <= downs + ups) {
                if (!press(display::Key::keypad_add))
                    return false;
                return w.conn_handler->before_sleep() ? (w.tick_due = true) : false;
            }
            if (step <= downs + ups + extra) {
                g_now = std::max(g_now, d);
                return true;
            }
            return w.conn_handler->on_quit();
        }
    };
    struct Scene : Engine::Scene {
        int ticks = 0;
        long long last = 0, prev = 0;
        bool tick(Clock::time_point t) override
        {
            ticks++;
            prev = last;
            last = t.time_since_epoch().count();
            return false;
        }
    };
    Conn conn(w);
    Scene scene;
    conn.downs = int(c.rng.below(120));
    conn.ups = c.rng.chance(1, 2) ? conn.downs : int(c.rng.below(120));
    conn.extra = conn.ups >= conn.downs ? 4 : 0;
    w.gl_state.current = true;
    // Nothing is being judged about how it looks
    w.need_swap = true;
    struct Win : FakeWindow {
        using FakeWindow::FakeWindow;
        void opengl_swap_buffers() override {}
    };
    struct Conn2 : Conn {
        using Conn::Conn;
        bool try_new_window(std::string_view, display::Size, const display::Window::Config&,
                            std::unique_ptr<display::Window>& win, std::string&) override
        {
            win = std::make_unique<Win>(w);
            return true;
        }
    };
    Conn2 conn2(w);
    conn2.downs = conn.downs;
    conn2.ups = conn.ups;
    conn2.extra = conn.extra;
    Engine engine(scene, conn2, "x", w.win_size, std::locale::classic(), config);
    w.engine = &engine;
    engine.run();
    c.event("rate_steps", std::uint64_t(conn.downs + conn.ups));
    if (conn.ups == conn.downs) {
        VF_EQ(scene.last - scene.prev, 16666666LL, "rate-restored",
              "time between ticks after " << conn.downs << " halvings and as many doublings of frame rate");
        c.event("restored");
    }
    c.nontrivial(vf::Hash().add(conn.downs).add(conn.ups).get());
}

} // unnamed namespace
