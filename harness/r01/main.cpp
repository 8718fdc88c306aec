// R01: Interactive rendering controls: key bindings, virtual trackball, and the memories of
// recent values, each against a model.

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <archon/math/rotation.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/display.hpp>
#include <archon/render/key_binding_support.hpp>
#include <archon/render/virt_trackball.hpp>
#include <archon/render/impl/key_bindings.hpp>
#include <archon/render/impl/finite_sequence_memory.hpp>
#include <archon/render/impl/finite_curve_memory.hpp>

#include "vf.hpp"

using namespace archon;
using std::string;
using std::vector;

namespace {

string num(auto v) { return std::to_string(v); }

using KB = render::impl::KeyBindings;

struct Stop {};

// A key, as known to the model
struct Key {
    bool mouse;
    int code;
    auto operator<=>(const Key&) const = default;
    KB::KeyIdent ident() const
    {
        if (mouse)
            return KB::KeyIdent(display::MouseButton(code));
        return KB::KeyIdent(display::KeyCode { display::KeyCode::code_type(code) });
    }
    string str() const { return (mouse ? "m" : "k") + num(code); }
};

struct Slot {
    bool pressed = false;
    int receiver = -1; // Handler that was told about the press
    int mult = 0;
    long time = 0;
    unsigned mode = 0;
    bool rebound = false; // Bound since last press
    std::map<std::pair<unsigned, int>, int> binds;
};

struct KeyWorld {
    vf::Case& c;
    KB kb;
    std::map<Key, Slot> slots;
    int num_handlers = 0;
    unsigned mode = 0;
    long now = 0;
    string log;
    vector<std::pair<int, bool>> calls;  // Observed
    int depth_budget = 0;
    // What the next handler call should do: 0 nothing, 1 interrupt, 2 throw
    int next_action = 0;
    bool reenter = false;
    bool in_blur = false;

    explicit KeyWorld(vf::Case& c_2) : c(c_2) {}

    void new_handler()
    {
        int index = num_handlers;
        // Something that has to stay intact while handler is executing
        std::array<long, 2> cargo = { index, ~long(index) };
        bool small = c.rng.chance(1, 2);
        std::function<bool(bool)> f;
        if (small) {
            f = [this, index](bool down) {
                bool res = handler(index, down);
                calls.emplace_back(index, down); // Use of capture after possible reconfiguration
                return res;
            };
        }
        else {
            f = [this, cargo](bool down) {
                bool res = handler(int(cargo[0]), down);
                VF_REQUIRE(cargo[1] == ~cargo[0], "handler-cargo", "captured state of handler was damaged");
                calls.emplace_back(int(cargo[0]), down);
                return res;
            };
        }
        render::KeyHandlerIdent ident = kb.register_handler("h" + num(index), std::move(f));
        VF_EQ(ident.value, index, "handler-ident", "identifiers of handlers are consecutive");
        num_handlers++;
    }

    bool handler(int index, bool down)
    {
        c.event("handler_calls");
        if (reenter) {
            c.event("reentered");
            int n = 1 + int(c.rng.below(3));
            for (int i = 0; i < n; i++) {
                if (c.rng.chance(1, 2)) {
                    new_handler();
                    log += " (new)";
                }
                else {
                    bind(true);
                }
            }
        }
        int action = next_action;
        next_action = 0;
        if (action == 2) {
            calls.emplace_back(index, down);
            throw Stop {};
        }
        return action != 1;
    }

    Key random_key()
    {
        if (c.rng.chance(1, 4))
            return { true, int(c.rng.below(5)) };
        return { false, c.rng.chance(1, 6) ? int(c.rng.below(100)) : int(c.rng.below(5)) };
    }

    void bind(bool nested)
    {
        Key k = random_key();
        unsigned m = unsigned(c.rng.chance(1, 2) ? mode : c.rng.below(16));
        int mult = 1 + int(c.rng.chance(1, 2) ? 0 : c.rng.below(4));
        int h = int(c.rng.below(std::uint64_t(num_handlers)));
        log += string(nested ? " (" : " ") + "bind " + k.str() + "/" + num(m) + "/" + num(mult) + "->" + num(h) +
            (nested ? ")" : "");
        kb.bind_key(k.ident(), { m }, { mult }, { h });
        Slot& s = slots[k];
        s.binds[{ m, mult }] = h;
        s.rebound = true;
        c.event("bound");
    }
};

void run_keys(vf::Case& c)
{
    KeyWorld w(c);
    int n0 = 1 + int(c.rng.below(4));
    for (int i = 0; i < n0; i++)
        w.new_handler();
    {
        // Invalid handler
        bool threw = false;
        try {
            w.kb.bind_key(w.random_key().ident(), { 0 }, { 1 }, { c.rng.chance(1, 2) ? -1 : n0 });
        }
        catch (std::invalid_argument&) {
            threw = true;
        }
        VF_REQUIRE(threw, "bad-handler", "binding to an unknown handler must be refused");
    }
    int n = 5 + int(c.rng.below(60));
    bool incomplete = false;
    std::multiset<int> blur_pending; // Handlers that still must be told about a release
    auto start_blur = [&] {
        blur_pending.clear();
        for (auto& [k, s] : w.slots) {
            if (s.pressed && s.receiver >= 0)
                blur_pending.insert(s.receiver);
            s.pressed = false;
            s.mult = 0;
        }
    };
    for (int op = 0; op < n; op++) {
        w.calls.clear();
        w.next_action = c.rng.chance(1, 8) ? 1 + int(c.rng.below(2)) : 0;
        w.reenter = c.rng.chance(1, 6);
        int planned = w.next_action;
        unsigned what = unsigned(c.rng.below(incomplete ? 3 : 16));
        if (incomplete || what == 15) {
            // Loss of focus, possibly in several steps
            bool fresh = !incomplete;
            if (fresh) {
                w.log += " blur";
                // Bindings made by handlers do not matter, as pressed keys are known now
                start_blur();
            }
            else {
                if (what == 0) {
                    w.log += " newbind";
                    w.next_action = 0;
                    w.bind(false);
                    continue;
                }
                w.log += " resume";
            }
            bool threw = false, res = false;
            std::size_t pending = blur_pending.size();
            try {
                res = fresh ? w.kb.on_blur() : w.kb.resume_incomplete_on_blur_if_any();
            }
            catch (Stop&) {
                threw = true;
            }
            for (auto [h, down] : w.calls) {
                VF_REQUIRE(!down, "blur-press", "loss of focus reported as a press to handler " << h << " after" << w.log);
                auto i = blur_pending.find(h);
                VF_REQUIRE(i != blur_pending.end(), "blur-unexpected",
                           "handler " << h << " got a release it was not due after" << w.log);
                blur_pending.erase(i);
            }
            bool stopped = (planned != 0 && pending > 0);
            VF_EQ(threw, (planned == 2 && pending > 0), "blur-throw", "exception from handler after" << w.log);
            if (!threw)
                VF_EQ(res, !stopped, "blur-result", "whether event processing can proceed after" << w.log);
            if (stopped) {
                VF_EQ(w.calls.size(), std::size_t(1), "blur-stop", "calls after interruption, after" << w.log);
                c.event("blur_interrupted");
                incomplete = true;
            }
            else {
                VF_REQUIRE(blur_pending.empty(), "blur-missing", "loss of focus did not release all pressed keys after" << w.log);
                incomplete = false;
                c.event("blurs");
                VF_REQUIRE(w.kb.resume_incomplete_on_blur_if_any(), "resume-nothing", "nothing to resume, after" << w.log);
            }
            w.next_action = 0;
            continue;
        }
        if (what < 4) {
            w.next_action = 0;
            w.bind(false);
            continue;
        }
        if (what == 4) {
            w.new_handler();
            w.next_action = 0;
            continue;
        }
        if (what == 5) {
            w.mode = unsigned(c.rng.below(16));
            w.kb.set_modifier_mode({ w.mode });
            w.log += " mode" + num(w.mode);
            w.next_action = 0;
            VF_EQ(w.kb.get_modifier_mode().value, w.mode, "mode", "modifier mode");
            continue;
        }
        Key k = w.random_key();
        Slot& s = w.slots[k];
        // Avoid the exact limit of what is fast, and keep clear of the question of whether
        // a press after a change of bindings can be connected to one before
        w.now += c.rng.chance(1, 3) ? 400 + long(c.rng.below(2000)) : long(c.rng.below(60));
        bool down = s.pressed ? c.rng.chance(1, 8) : c.rng.chance(9, 10);
        if (s.rebound && down && !s.pressed) {
            w.now += 1000;
            s.rebound = false;
        }
        if (down && !s.pressed && s.mult > 0 && w.now - s.time > 200 && w.now - s.time < 320)
            w.now += 320;
        w.log += (down ? " +" : " -") + k.str() + "@" + num(w.now);
        int expect = -1;
        bool expect_down = down;
        if (down) {
            if (!s.pressed) {
                int max = 0;
                for (auto& [sub, h] : s.binds)
                    max = std::max(max, sub.second);
                if (!s.binds.empty()) {
                    bool connected = (s.mult > 0 && s.mode == w.mode && w.now - s.time <= 250 && s.mult < max);
                    s.mult = connected ? s.mult + 1 : 1;
                    if (connected)
                        c.event("multi_press");
                    s.pressed = true;
                    s.time = w.now;
                    s.mode = w.mode;
                    auto i = s.binds.find({ w.mode, s.mult });
                    s.receiver = i == s.binds.end() ? -1 : i->second;
                    expect = s.receiver;
                    if (expect >= 0)
                        c.event("bound_presses");
                }
            }
            else {
                c.event("repeated_presses");
            }
        }
        else {
            if (s.pressed) {
                s.pressed = false;
                expect = s.receiver;
            }
        }
        bool threw = false, res = false;
        auto ts = KB::Timestamp(w.now);
        try {
            res = down ? w.kb.on_keydown(k.ident(), ts) : w.kb.on_keyup(k.ident(), ts);
        }
        catch (Stop&) {
            threw = true;
        }
        VF_EQ(w.calls.size(), std::size_t(expect >= 0), "key-calls", "number of handler calls after" << w.log);
        if (expect >= 0) {
            VF_EQ(w.calls[0].first, expect, "key-handler", "handler that was called after" << w.log);
            VF_EQ(w.calls[0].second, expect_down, "key-down", "press or release, after" << w.log);
        }
        VF_EQ(threw, expect >= 0 && planned == 2, "key-throw", "exception from handler after" << w.log);
        if (!threw)
            VF_EQ(res, !(expect >= 0 && planned == 1), "key-result", "whether event processing can proceed after" << w.log);
        w.next_action = 0;
    }
    c.nontrivial(vf::Hash().add(w.log).get());
    c.sample([&](std::ostream& out) { out << w.log.substr(0, 200); });
}

VF_MONITOR(r01_keys, 20000, 120000)
{
    run_keys(c);
}


// ---------------------------------------------------------------- trackball

using L = long double;
using V3 = std::array<L, 3>;
using M3 = std::array<V3, 3>;

M3 mul(const M3& a, const M3& b)
{
    M3 r {};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            for (int k = 0; k < 3; k++)
                r[i][j] += a[i][k] * b[k][j];
    return r;
}

M3 transpose(const M3& a)
{
    M3 r {};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            r[i][j] = a[j][i];
    return r;
}

M3 axis_angle(V3 n, L t)
{
    L c = std::cos(t), s = std::sin(t), d = 1 - c;
    M3 r;
    r[0] = { c + n[0] * n[0] * d, n[0] * n[1] * d - n[2] * s, n[0] * n[2] * d + n[1] * s };
    r[1] = { n[1] * n[0] * d + n[2] * s, c + n[1] * n[1] * d, n[1] * n[2] * d - n[0] * s };
    r[2] = { n[2] * n[0] * d - n[1] * s, n[2] * n[1] * d + n[0] * s, c + n[2] * n[2] * d };
    return r;
}

M3 matrix(const math::Rotation& r)
{
    return axis_angle({ r.axis[0], r.axis[1], r.axis[2] }, r.angle);
}

constexpr M3 unit = {{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }};

L dist(const M3& a, const M3& b)
{
    L m = 0;
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            L d = std::abs(a[i][j] - b[i][j]);
            if (!(d <= m)) // NaN counts
                m = std::isnan(d) ? L(1E9) : d;
        }
    }
    return m;
}

V3 cross(V3 a, V3 b)
{
    return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
L dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

string show(const math::Rotation& r)
{
    std::ostringstream out;
    out.precision(17);
    out << "[" << r.axis[0] << " " << r.axis[1] << " " << r.axis[2] << "; " << r.angle << "]";
    return out.str();
}

using TB = render::VirtualTrackball;
using Time = TB::Clock::time_point;

struct Ball {
    L hw = 1, hh = 1; // Half viewport
    L par = 1;
    V3 point(L x, L y) const
    {
        L hr = std::min(hw, hh / par);
        L vr = hr * par;
        L px = (x - hw) / hr, py = (hh - y) / vr;
        L s = px * px + py * py;
        if (s > 1) {
            px /= std::sqrt(s);
            py /= std::sqrt(s);
            s = 1;
        }
        return { px, py, std::sqrt(std::max(L(0), 1 - s)) };
    }
    // Shortest rotation, and its axis and angle
    static bool rotation(V3 a, V3 b, V3& axis, L& angle)
    {
        V3 x = cross(a, b);
        L n = std::sqrt(dot(x, x));
        if (n < 1E-12L)
            return false;
        axis = { x[0] / n, x[1] / n, x[2] / n };
        angle = std::atan2(n, dot(a, b));
        return true;
    }
};

void run_trackball(vf::Case& c)
{
    TB tb;
    Ball ball;
    M3 base = unit;     // Orientation at `base_time`, or when the ball was grabbed
    V3 spin_axis = { 1, 0, 0 };
    L spin = 0;         // Radians per second
    // Clock times are handled in nanoseconds
    long long now = c.rng.range(0, 1000000000);
    long long base_time = now;
    bool acquired = false, tracked = false;
    V3 first_point {};
    struct Track {
        L x, y;
        long t;
        V3 point;
    };
    vector<Track> tracks;
    long track_time = long(c.rng.range(0, 100000));
    string log;
    auto tp = [](long long t) { return Time(std::chrono::nanoseconds(t)); };
    L tol = 1E-6L;

    int width = 2, height = 2;
    auto viewport = [&] {
        width = 1 + int(c.rng.below(c.rng.chance(1, 8) ? 3 : 2000));
        height = 1 + int(c.rng.below(c.rng.chance(1, 8) ? 3 : 2000));
        tb.set_viewport_size({ width, height });
        ball.hw = L(width) / 2;
        ball.hh = L(height) / 2;
        log += " size" + num(width) + "x" + num(height);
    };
    viewport();

    auto current = [&](long long t) -> M3 {
        if (acquired) {
            if (!tracked)
                return base;
            V3 axis;
            L angle;
            V3 p = ball.point(tracks.back().x, tracks.back().y);
            if (!Ball::rotation(first_point, p, axis, angle))
                return base;
            return mul(axis_angle(axis, angle), base);
        }
        return mul(axis_angle(spin_axis, spin * (L(t - base_time) / 1E9L)), base);
    };
    // Antipodal points have no unique shortest rotation between them
    auto ambiguous = [&] {
        if (!acquired || !tracked)
            return false;
        V3 p = ball.point(tracks.back().x, tracks.back().y);
        V3 x = cross(first_point, p);
        return std::sqrt(dot(x, x)) < 1E-6L;
    };
    auto check = [&](long long t, const char* key) {
        math::Rotation r = tb.get_orientation(tp(t));
        L n = std::sqrt(L(r.axis[0]) * r.axis[0] + L(r.axis[1]) * r.axis[1] + L(r.axis[2]) * r.axis[2]);
        VF_REQUIRE(std::abs(n - 1) < 1E-9L && std::isfinite(r.angle), (string(key) + "-pure").c_str(),
                   "orientation must be a rotation, but is " << show(r) << " after" << log);
        c.event("orientations");
        if (ambiguous())
            return r;
        L d = dist(matrix(r), current(t));
        VF_REQUIRE(d <= tol, key, "orientation " << show(r) << " differs by " << double(d) << " from the expected after" << log);
        return r;
    };
    // Take the observed orientation as the new base
    auto rebase = [&](long long t) {
        base = matrix(tb.get_orientation(tp(t)));
        base_time = t;
    };
    auto random_rotation = [&] {
        math::Vector3 a = { c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1) };
        if (c.rng.chance(1, 4))
            a = math::Vector3(c.rng.chance(1, 2), c.rng.chance(1, 2), 0);
        double l = math::len(a);
        if (l < 1E-3) {
            a = { 0, 0, 1 };
            l = 1;
        }
        return math::Rotation(a / l, c.rng.real(-4, 4));
    };

    int n = 3 + int(c.rng.below(20));
    for (int op = 0; op < n; op++) {
        now += c.rng.range(0, 500000000);
        switch (c.rng.below(8)) {
            case 0:
                if (acquired && tracked)
                    check(now, "held");
                viewport();
                if (acquired && tracked)
                    tracks.back().point = ball.point(tracks.back().x, tracks.back().y);
                break;
            case 1: {
                double ratio = c.rng.pick({ 0.5, 1.0, 2.0, 0.75, 1.1 });
                tb.set_pixel_aspect_ratio(ratio);
                ball.par = ratio;
                log += " aspect" + num(ratio);
                break;
            }
            case 2: {
                math::Rotation r = random_rotation();
                tb.set_orientation(r);
                log += " orient" + show(r);
                base = matrix(r);
                base_time = now;
                spin = 0;
                acquired = false;
                check(now, "set-orientation");
                break;
            }
            case 3: {
                math::Rotation r = random_rotation();
                check(now, "before-spin");
                M3 m = matrix(tb.get_orientation(tp(now)));
                tb.set_spin(r, tp(now));
                log += " spin" + show(r);
                base = m;
                base_time = now;
                spin_axis = { r.axis[0], r.axis[1], r.axis[2] };
                spin = r.angle;
                acquired = false;
                check(now, "set-spin");
                c.event("spins");
                break;
            }
            default: {
                // A drag
                bool was = acquired;
                check(now, "before-acquire");
                if (!was)
                    rebase(now);
                tb.acquire(tp(now));
                log += " acquire";
                if (!was) {
                    acquired = true;
                    tracked = false;
                    tracks.clear();
                    check(now, "acquired");
                }
                int steps = int(c.rng.below(c.rng.chance(1, 3) ? 40 : 6)) + 1;
                double x = c.rng.real(0, width), y = c.rng.real(0, height);
                bool still = c.rng.chance(1, 4);      // Ends at rest
                double vx = c.rng.real(-1, 1) * width / 500.0, vy = c.rng.real(-1, 1) * height / 500.0; // Per ms
                bool calm = c.rng.chance(1, 2);
                bool opposite = !calm && c.rng.chance(1, 3);
                if (calm) {
                    x = c.rng.real(0.3, 0.7) * width;
                    y = c.rng.real(0.3, 0.7) * height;
                    vx /= 3;
                    vy /= 3;
                }
                for (int i = 0; i < steps; i++) {
                    long dt = i == 0 ? 0 : long(c.rng.chance(1, 4) ? 0 : c.rng.below(calm ? 15 : c.rng.chance(1, 3) ? 200 : 20));
                    if (i > 0 && opposite) {
                        // To the opposite side of the ball, on or outside its edge
                        x = width - tracks.back().x + 0.0;
                        y = height - tracks.back().y;
                    }
                    else if (i > 0) {
                        x += vx * double(dt);
                        y += vy * double(dt);
                        if (!calm && c.rng.chance(1, 10)) {
                            x = c.rng.real(-width, 2.0 * width);
                            y = c.rng.real(-height, 2.0 * height);
                        }
                    }
                    track_time += dt;
                    now += dt * 1000000;
                    util::pixel::Pos pos = { int(x), int(y) };
                    if (opposite && i == 0) {
                        double a = c.rng.real(0, 6.3);
                        double r = std::min(width, height) * c.rng.real(0.5, 3);
                        pos = { int(width / 2.0 + r * std::cos(a)), int(height / 2.0 + r * std::sin(a)) };
                    }
                    tb.track(pos, TB::TrackTime(track_time));
                    log += " track" + num(pos.x) + "," + num(pos.y) + "@" + num(track_time);
                    V3 p = ball.point(pos.x, pos.y);
                    if (!tracked) {
                        tracked = true;
                        first_point = p;
                        tracks.clear();
                    }
                    tracks.push_back({ L(pos.x), L(pos.y), track_time, p });
                    check(now, "dragged");
                    c.event("tracked");
                }
                if (still) {
                    for (long dt : { 7 + long(c.rng.below(20)), 110 + long(c.rng.below(500)) }) {
                        track_time += dt;
                        now += dt * 1000000;
                        Track t = tracks.back();
                        t.t = track_time;
                        tb.track({ int(t.x), int(t.y) }, TB::TrackTime(track_time));
                        log += " still" + num(dt);
                        tracks.push_back(t);
                    }
                }
                if (c.rng.chance(1, 6))
                    break; // Keep holding
                math::Rotation before = tb.get_orientation(tp(now));
                bool amb = ambiguous();
                tb.release(tp(now));
                log += " release";
                c.event("released");
                acquired = false;
                // Orientation does not jump
                math::Rotation after = tb.get_orientation(tp(now));
                L d = dist(matrix(before), matrix(after));
                VF_REQUIRE(d <= tol, "release-jump", "orientation went from " << show(before) << " to " << show(after) << " on release after" << log);
                base = matrix(after);
                base_time = now;
                // Observe the spin
                math::Rotation later = tb.get_orientation(tp(now + 1000000)); // 1 ms
                math::Rotation much_later = tb.get_orientation(tp(now + 10000000)); // 10 ms
                for (const math::Rotation& r : { after, later, much_later }) {
                    L len = std::sqrt(L(r.axis[0]) * r.axis[0] + L(r.axis[1]) * r.axis[1] + L(r.axis[2]) * r.axis[2]);
                    VF_REQUIRE(std::abs(len - 1) < 1E-9L && std::isfinite(r.angle), "free-pure",
                               "orientation must be a rotation, but is " << show(r) << " after" << log);
                }
                M3 rel = mul(matrix(later), transpose(base));
                // Rotation vector of spin
                V3 w = { (rel[2][1] - rel[1][2]) / 2, (rel[0][2] - rel[2][0]) / 2, (rel[1][0] - rel[0][1]) / 2 };
                L sine = std::sqrt(dot(w, w));
                L cosine = (rel[0][0] + rel[1][1] + rel[2][2] - 1) / 2;
                L rate = std::atan2(sine, cosine) * 1000;
                const Track& last = tracks.back();
                const Track& first = tracks.front();
                long span = last.t - first.t;
                // Expected spin
                L moved = std::hypot(last.x - first.x, last.y - first.y);
                bool stop = (span < 200 && moved < 4);
                // At rest when nothing moved for a while, and that was noted as well
                bool rest = false;
                long since = last.t;
                for (auto i = tracks.rbegin(); i != tracks.rend(); ++i) {
                    if (i->x != last.x || i->y != last.y)
                        break;
                    since = i->t;
                }
                for (const Track& t : tracks) {
                    if (t.t >= since + 7 && t.t <= last.t - 107)
                        rest = true;
                }
                if (!amb && (stop || rest)) {
                    L dd = dist(matrix(tb.get_orientation(tp(now + 1000000000))), base);
                    VF_REQUIRE(dd <= 1E-5L, "spin-stop", "ball that was stopped turns by " << double(dd) << " per second after" << log);
                    c.event(stop ? "clicked" : "rested");
                    tb.set_spin({}, tp(now));
                    spin = 0;
                }
                else {
                    // Average over last 100 milliseconds, within the resolution with which
                    // mouse movements are remembered
                    long back = std::min(span, 100L);
                    // Possible positions at that time. Samples are at most 7 ms apart from the truth.
                    bool judged = back >= 20 && !amb;
                    if (judged) {
                        // Range of rates that would result from any position recorded or passed
                        // within 15 ms of the wanted time.
                        L lo = 1E9L, hi = 0;
                        for (int i = -15; i <= 15; i++) {
                            L t = L(last.t - back + i);
                            t = std::clamp(t, L(first.t), L(last.t));
                            // All positions at that time
                            for (std::size_t j = 0; j + 1 <= tracks.size(); j++) {
                                const Track& a = tracks[j];
                                const Track& b = tracks[std::min(j + 1, tracks.size() - 1)];
                                if (t < L(a.t) || t > L(b.t))
                                    continue;
                                for (int s = 0; s < 2; s++) {
                                    L f = b.t == a.t ? L(s) : (t - L(a.t)) / L(b.t - a.t);
                                    V3 p = ball.point(a.x + f * (b.x - a.x), a.y + f * (b.y - a.y));
                                    V3 axis;
                                    L angle = 0;
                                    if (!Ball::rotation(p, ball.point(last.x, last.y), axis, angle))
                                        angle = 0;
                                    lo = std::min(lo, angle);
                                    hi = std::max(hi, angle);
                                }
                            }
                        }
                        L k = 1000 / L(back);
                        // Only judged when the mouse moved smoothly
                        bool smooth = true;
                        for (std::size_t j = tracks.size() - 1; j > 0; j--) {
                            const Track& a = tracks[j - 1];
                            const Track& b = tracks[j];
                            if (b.t - a.t > 30 || std::hypot(b.x - a.x, b.y - a.y) > std::min(ball.hw, ball.hh) / 10)
                                smooth = false;
                            if (a.t < last.t - 200)
                                break;
                        }
                        if (smooth && hi <= lo * 1.3L + 0.05L) {
                            VF_REQUIRE(rate >= lo * k * 0.9L - 0.05L && rate <= hi * k * 1.1L + 0.05L, "spin-rate",
                                       "ball turns by " << double(rate) << " radians per second rather than between " <<
                                       double(lo * k) << " and " << double(hi * k) << " after" << log);
                            c.event("spun");
                        }
                    }
                    // Whatever it is, it must be constant
                    M3 r10 = unit;
                    for (int i = 0; i < 10; i++)
                        r10 = mul(rel, r10);
                    L dd = dist(mul(r10, base), matrix(much_later));
                    VF_REQUIRE(dd <= 1E-5L, "spin-constant", "spin changes by " << double(dd) << " after" << log);
                    // Adopt it by stopping the ball at a known place
                    rebase(now);
                    tb.set_spin({}, tp(now));
                    spin = 0;
                }
                break;
            }
        }
        check(now, "idle");
    }
    std::ostringstream out;
    tb.dump_info(out);
    c.nontrivial(vf::Hash().add(log).get());
    c.sample([&](std::ostream& o) { o << log.substr(0, 200); });
}

VF_MONITOR(r01_trackball, 10000, 60000)
{
    run_trackball(c);
}


// ---------------------------------------------------------------- memories

VF_MONITOR(r01_memory, 6000, 60000)
{
    using Mem = render::impl::FiniteSequenceMemory<string>;
    std::size_t cap = 1 + std::size_t(c.rng.below(c.rng.chance(1, 2) ? 4 : 20));
    Mem mem(cap);
    std::deque<string> model;
    int n = int(c.rng.below(80));
    vf::Hash h;
    h.add(cap);
    for (int i = 0; i < n; i++) {
        if (c.rng.chance(1, 25)) {
            mem.clear();
            model.clear();
            h.add(-1);
            c.event("cleared");
        }
        else {
            string s = "value number " + num(c.rng.below(1000));
            h.add(s);
            if (!model.empty() && c.rng.chance(1, 10)) {
                // A value from the memory itself
                std::size_t j = std::size_t(c.rng.below(model.size()));
                s = model[j];
                mem.push_back(mem[j]);
            }
            else {
                mem.push_back(s);
            }
            model.push_back(s);
            if (model.size() > cap) {
                model.pop_front();
                c.event("forgotten");
            }
        }
        VF_EQ(mem.size(), model.size(), "seq-size", "size");
        VF_EQ(mem.empty(), model.empty(), "seq-empty", "emptiness");
        for (std::size_t j = 0; j < model.size(); j++)
            VF_EQ(mem[j], model[j], "seq-value", "value " << j << " of " << model.size() << " (capacity " << cap << ")");
        VF_REQUIRE(std::equal(mem.begin(), mem.end(), model.begin(), model.end()), "seq-iter", "iteration");
        c.event("states");
    }
    c.nontrivial(h.get());
}

VF_MONITOR(r01_curve, 8000, 60000)
{
    // Curves that are linear, or made of linear pieces that are long, must be reproduced
    long back = 1 + long(c.rng.below(c.rng.chance(1, 2) ? 30 : 500));
    std::size_t max = 2 + std::size_t(c.rng.below(20));
    render::impl::FiniteCurveMemory<math::Vector2> mem(back, max);
    long res = (back + long(max) - 2) / (long(max) - 1);
    struct S {
        math::Vector2 v;
        long t;
    };
    vf::Hash h;
    h.add(back).add(max);
    int rounds = 1 + int(c.rng.below(3));
    for (int r = 0; r < rounds; r++) {
        vector<S> all;
        math::Vector2 a = { c.rng.real(-10, 10), c.rng.real(-10, 10) };
        math::Vector2 b = { c.rng.real(-10, 10), c.rng.real(-10, 10) };
        bool linear = c.rng.chance(1, 2);
        long t = long(c.rng.below(c.rng.chance(1, 2) ? 3 : 1000));
        VF_REQUIRE(mem.get_value(t) == math::Vector2(), "curve-empty", "value of empty memory");
        int n = 1 + int(c.rng.below(60));
        for (int i = 0; i < n; i++) {
            t += long(c.rng.chance(1, 3) ? 0 : c.rng.below(std::uint64_t(c.rng.chance(1, 4) ? back + 5 : res + 2)));
            math::Vector2 v = linear ? a * double(t) + b : math::Vector2(c.rng.real(-10, 10), c.rng.real(-10, 10));
            mem.add_value(v, t);
            all.push_back({ v, t });
            h.add(t);
        }
        // The last value may be represented by an earlier one in its interval of time, so
        // values are known up to that point. Memory goes back from there.
        long last = t / res * res;   // Start of last interval
        long first_of_last = t;
        for (const S& s : all) {
            if (s.t >= last) {
                first_of_last = s.t;
                break;
            }
        }
        for (int i = 0; i < 20; i++) {
            long q = t - back + long(c.rng.below(std::uint64_t(back) + 1));
            if (q > first_of_last || q < all[0].t)
                continue;
            math::Vector2 v = mem.get_value(q);
            c.event("curve_values");
            if (linear) {
                // Oldest retained sample may be slightly younger than wanted, in which case
                // the value there is given
                long q2 = q;
                double tolerance = 1E-6 * (1 + std::abs(double(t)));
                if (q < t - back + res)
                    tolerance += 15.0 * double(res);
                math::Vector2 e = a * double(q2) + b;
                VF_REQUIRE(math::len(v - e) <= tolerance, "curve-linear", "value at " << q << " of a straight curve is (" <<
                           v[0] << ", " << v[1] << ") rather than (" << e[0] << ", " << e[1] << "), with " <<
                           num(max) << " samples over " << back << " ms");
                c.event("linear_values");
            }
            else {
                // Must be between what was recorded around that time
                double lo[2] = { 1E9, 1E9 }, hi[2] = { -1E9, -1E9 };
                // Nearest recorded times
                long before = all[0].t, after = all.back().t;
                for (const S& s : all) {
                    if (s.t <= q - res)
                        before = s.t;
                }
                for (auto s = all.rbegin(); s != all.rend(); ++s) {
                    if (s->t >= q + res)
                        after = s->t;
                }
                for (const S& s : all) {
                    if (s.t < before - res || s.t > after + res)
                        continue;
                    for (int k = 0; k < 2; k++) {
                        lo[k] = std::min(lo[k], s.v[k]);
                        hi[k] = std::max(hi[k], s.v[k]);
                    }
                }
                for (int k = 0; k < 2; k++)
                    VF_REQUIRE(v[k] >= lo[k] - 1E-9 && v[k] <= hi[k] + 1E-9, "curve-range",
                               "value at " << q << " is " << v[k] << " which is not among those recorded at about that time");
            }
        }
        // A query beyond the last one must not misbehave
        (void)mem.get_value(t + 1000);
        // Time before first recorded value
        if (all[0].t > 0 && n == 1)
            VF_REQUIRE(mem.get_value(all[0].t - 1) == all[0].v, "curve-before", "value before first");
        std::ostringstream out;
        mem.dump_info(out);
        mem.clear();
        VF_REQUIRE(mem.get_value(t) == math::Vector2(), "curve-cleared", "value of cleared memory");
    }
    c.nontrivial(h.get());
}

} // unnamed namespace
