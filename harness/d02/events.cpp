// D02: Events of the X server and what they are turned into.
//
// A simulated session has a pointer, a keyboard, an input focus, and a window manager. Events are
// generated as an X server would, and so are the calls to event handlers that they must lead to.

#include "world.hpp"

using namespace d02;

namespace {

struct Call {
    int win = 0; // Cookie
    string what;
    bool optional = false;
};

string show(const vector<Call>& v)
{
    string s;
    for (const Call& x : v)
        s += "  " + num(x.win) + " " + x.what + (x.optional ? " (optional)" : "") + "\n";
    return s;
}

struct Recorder {
    vector<Call> calls;
    long interrupt_at = -1;
    long act_at = -1;
    std::function<void()> act;

    bool add(int win, string what)
    {
        calls.push_back({ win, std::move(what), false });
        long n = long(calls.size());
        if (n == act_at && act) {
            auto f = std::move(act);
            act = nullptr;
            f();
        }
        return (n != interrupt_at);
    }
};

string at(std::chrono::milliseconds t) { return " t=" + num(t.count()); }
string at(long t) { return " t=" + num(t); }
string pos(int x, int y) { return " " + num(x) + "," + num(y); }

struct Handler : disp::WindowEventHandler {
    Recorder& r;
    int cookie;

    Handler(Recorder& r_, int cookie_)
        : r(r_)
        , cookie(cookie_)
    {
    }

    bool add(const disp::WindowEvent& ev, string s)
    {
        VF_EQ(ev.cookie, cookie, "d02-cookie", "Cookie of window");
        return r.add(cookie, std::move(s));
    }
    static string button(disp::MouseButton b)
    {
        switch (b) {
            case disp::MouseButton::left:
                return " left";
            case disp::MouseButton::middle:
                return " middle";
            case disp::MouseButton::right:
                return " right";
            case disp::MouseButton::x1:
                return " x1";
            case disp::MouseButton::x2:
                return " x2";
        }
        return " ?";
    }
    bool on_keydown(const disp::KeyEvent& e) override
    {
        return add(e, "keydown " + num(e.key_code.code) + at(e.timestamp));
    }
    bool on_keyup(const disp::KeyEvent& e) override
    {
        return add(e, "keyup " + num(e.key_code.code) + at(e.timestamp));
    }
    bool on_keyrepeat(const disp::KeyEvent& e) override
    {
        return add(e, "keyrepeat " + num(e.key_code.code) + at(e.timestamp));
    }
    bool on_mousedown(const disp::MouseButtonEvent& e) override
    {
        return add(e, "mousedown" + button(e.button) + pos(e.pos.x, e.pos.y) + at(e.timestamp));
    }
    bool on_mouseup(const disp::MouseButtonEvent& e) override
    {
        return add(e, "mouseup" + button(e.button) + pos(e.pos.x, e.pos.y) + at(e.timestamp));
    }
    bool on_mousemove(const disp::MouseEvent& e) override
    {
        return add(e, "mousemove" + pos(e.pos.x, e.pos.y) + at(e.timestamp));
    }
    bool on_scroll(const disp::ScrollEvent& e) override
    {
        return add(e, "scroll" + pos(int(e.amount[0]), int(e.amount[1])) + at(e.timestamp));
    }
    bool on_mouseover(const disp::TimedWindowEvent& e) override { return add(e, "mouseover" + at(e.timestamp)); }
    bool on_mouseout(const disp::TimedWindowEvent& e) override { return add(e, "mouseout" + at(e.timestamp)); }
    bool on_focus(const disp::WindowEvent& e) override { return add(e, "focus"); }
    bool on_blur(const disp::WindowEvent& e) override { return add(e, "blur"); }
    bool on_expose(const disp::WindowEvent& e) override { return add(e, "expose"); }
    bool on_resize(const disp::WindowSizeEvent& e) override
    {
        return add(e, "resize" + pos(e.size.width, e.size.height));
    }
    bool on_reposition(const disp::WindowPosEvent& e) override
    {
        return add(e, "reposition" + pos(e.pos.x, e.pos.y));
    }
    bool on_close(const disp::WindowEvent& e) override { return add(e, "close"); }
};

struct ConnHandler : disp::ConnectionEventHandler {
    long sleeps = 0;
    bool stop_when_idle = true;
    bool stopped = false;
    bool before_sleep() override
    {
        ++sleeps;
        mock::Server& s = *mock::srv;
        if (stop_when_idle && s.wire.empty() && s.queue.empty() && s.later.empty()) {
            stopped = true;
            return false;
        }
        return true;
    }
};

struct Win {
    std::unique_ptr<Handler> handler;
    std::unique_ptr<disp::Window> win;
    XID id = 0;
    int cookie = 0;
    bool visible = true;
};

struct Events {
    vf::Case& c;
    vf::Rng& rng;
    Sim sim;
    std::unique_ptr<disp::Connection> conn;
    ConnHandler conn_handler;
    Recorder rec;
    vector<Win> wins;
    vector<XID> gone; // Destroyed windows
    int next_cookie = 100;

    // State of the session
    std::uint64_t time = 0;
    bool detectable = false;
    int pointer = -1; // Cookie of window
    int grab = -1;
    std::set<int> buttons; // Pressed during grab
    std::set<int> held; // Still pressed after premature end of grab
    int focus = -1;
    std::set<int> keys; // Pressed

    // Current group of events
    vector<XEvent> out;
    vector<Call> want;
    vector<int> exposed;

    Events(vf::Case& case_)
        : c(case_)
        , rng(case_.rng)
    {
    }

    Win* find(int cookie)
    {
        for (Win& w : wins)
            if (w.cookie == cookie)
                return &w;
        return nullptr;
    }
    XID id(int cookie) { return find(cookie)->id; }

    int any_visible(bool or_none)
    {
        vector<int> v;
        for (Win& w : wins)
            if (w.visible)
                v.push_back(w.cookie);
        if (or_none)
            v.push_back(-1);
        return (v.empty() ? -1 : v[rng.below(v.size())]);
    }

    void tick(int lo = 2, int hi = 50)
    {
        time += std::uint64_t(rng.range(lo, hi));
    }
    // The first reported timestamp is reported as is
    std::optional<std::uint64_t> first;
    string when()
    {
        if (!first)
            first = time >> 32 << 32;
        return at(long(time - *first));
    }
    Time wire_time() { return Time(time & 0xFFFFFFFF); }

    void call(int win, string what, bool optional = false) { want.push_back({ win, std::move(what), optional }); }

    XEvent make(int type, XID win)
    {
        XEvent ev{};
        ev.type = type;
        ev.xany.window = win;
        if (type == ConfigureNotify || type == UnmapNotify || type == MapNotify || type == DestroyNotify)
            ev.xconfigure.window = win; // Found at the same place in all of them
        ev.xany.display = reinterpret_cast<Display*>(sim.server.dpy.get());
        return ev;
    }

    void keymap()
    {
        XEvent ev = make(KeymapNotify, 0);
        for (int k : keys)
            ev.xkeymap.key_vector[k / 8] = char((unsigned char)ev.xkeymap.key_vector[k / 8] | 1u << (k % 8));
        out.push_back(ev);
    }

    void crossing(int win, bool enter, int mode, bool report)
    {
        XEvent ev = make(enter ? EnterNotify : LeaveNotify, id(win));
        ev.xcrossing.time = wire_time();
        ev.xcrossing.mode = mode;
        out.push_back(ev);
        if (report)
            call(win, (enter ? "mouseover" : "mouseout") + when());
        if (enter)
            keymap();
    }

    void move_pointer(int to)
    {
        int from = pointer;
        pointer = to;
        if (from == to)
            return;
        tick();
        if (grab >= 0) {
            if (from == grab)
                crossing(from, false, NotifyNormal, false);
            if (to == grab)
                crossing(to, true, NotifyNormal, false);
            return;
        }
        if (from >= 0)
            crossing(from, false, NotifyNormal, true);
        if (to >= 0)
            crossing(to, true, NotifyNormal, true);
    }

    void move_focus(int to)
    {
        int from = focus;
        focus = to;
        if (from == to)
            return;
        if (from >= 0) {
            out.push_back(make(FocusOut, id(from)));
            call(from, "blur");
        }
        if (to >= 0) {
            out.push_back(make(FocusIn, id(to)));
            call(to, "focus");
            keymap();
        }
    }

    string button_name(int b)
    {
        return b == 1 ? " left" : b == 2 ? " middle" : b == 3 ? " right" : b == 8 ? " x1" : b == 9 ? " x2" : "";
    }

    void button_event(bool press, int win, int b, bool optional = false)
    {
        int x = int(rng.range(-500, 2000)), y = int(rng.range(-500, 2000));
        XEvent ev = make(press ? ButtonPress : ButtonRelease, id(win));
        ev.xbutton.button = unsigned(b);
        ev.xbutton.x = x;
        ev.xbutton.y = y;
        ev.xbutton.time = wire_time();
        out.push_back(ev);
        string name = button_name(b);
        if (!name.empty())
            call(win, (press ? "mousedown" : "mouseup") + name + pos(x, y) + when(), optional);
        c.event(optional ? "stray_buttons" : "buttons");
    }

    void press()
    {
        if (grab < 0 && pointer < 0)
            return;
        static const int all[] = { 1, 2, 3, 8, 9, 10, 13 };
        int b = all[rng.below(7)];
        if (buttons.count(b) || !held.empty())
            return;
        tick();
        if (grab < 0)
            grab = pointer;
        buttons.insert(b);
        button_event(true, grab, b);
    }

    void release()
    {
        if (!held.empty()) {
            tick();
            int b = *held.begin();
            held.erase(b);
            if (pointer >= 0)
                button_event(false, pointer, b, true);
            return;
        }
        if (buttons.empty())
            return;
        tick();
        auto i = buttons.begin();
        std::advance(i, long(rng.below(buttons.size())));
        int b = *i;
        buttons.erase(i);
        button_event(false, grab, b);
        if (buttons.empty()) {
            int g = grab;
            grab = -1;
            if (pointer != g) {
                crossing(g, false, NotifyUngrab, true);
                if (pointer >= 0)
                    crossing(pointer, true, NotifyUngrab, true);
                c.event("grabs_ended_outside");
            }
        }
    }

    void scroll()
    {
        int w = (grab >= 0 ? grab : pointer);
        if (w < 0 || !held.empty())
            return;
        tick();
        int b = int(rng.range(4, 7));
        for (bool press : { true, false }) {
            XEvent ev = make(press ? ButtonPress : ButtonRelease, id(w));
            ev.xbutton.button = unsigned(b);
            ev.xbutton.time = wire_time();
            out.push_back(ev);
        }
        string s = (b == 4 ? pos(0, 1) : b == 5 ? pos(0, -1) : b == 6 ? pos(-1, 0) : pos(1, 0));
        call(w, "scroll" + s + when());
        c.event("scrolls");
    }

    void motion()
    {
        if (grab < 0)
            return;
        tick(0, 5);
        int x = int(rng.range(-500, 2000)), y = int(rng.range(-500, 2000));
        XEvent ev = make(MotionNotify, id(grab));
        ev.xmotion.x = x;
        ev.xmotion.y = y;
        ev.xmotion.time = wire_time();
        out.push_back(ev);
        call(grab, "mousemove" + pos(x, y) + when());
        c.event("motions");
    }

    void key_event(bool press, int key)
    {
        XEvent ev = make(press ? KeyPress : KeyRelease, id(focus));
        ev.xkey.keycode = unsigned(key);
        ev.xkey.time = wire_time();
        out.push_back(ev);
    }

    void key()
    {
        int k = int(rng.range(8, 255));
        if (!keys.empty() && rng.chance(2, 3)) {
            auto i = keys.begin();
            std::advance(i, long(rng.below(keys.size())));
            k = *i;
        }
        tick();
        KeySym sym = sim.server.keysyms.count(k) ? sim.server.keysyms[k] : 0;
        string name = " " + num(sym);
        bool opt = (sym == 0); // Key without a symbol
        if (keys.count(k) && rng.chance(1, 2)) {
            // Repetition
            if (focus < 0)
                return;
            if (!detectable) {
                key_event(false, k);
                time += rng.below(2);
            }
            key_event(true, k);
            call(focus, "keyrepeat" + name + when(), opt);
            c.event("repetitions");
            return;
        }
        bool down = !keys.count(k);
        if (focus >= 0) {
            key_event(down, k);
            call(focus, (down ? "keydown" : "keyup") + name + when(), opt);
            c.event("keys");
        }
        if (down)
            keys.insert(k);
        else
            keys.erase(k);
    }

    void expose(int w)
    {
        if (std::find(exposed.begin(), exposed.end(), w) == exposed.end())
            exposed.push_back(w);
    }

    void configure(bool may_expose)
    {
        int w = any_visible(false);
        if (w < 0)
            return;
        if (may_expose && rng.chance(1, 2)) {
            int n = int(rng.range(1, 3));
            for (int i = 0; i < n; ++i)
                out.push_back(make(Expose, id(w)));
            expose(w);
            c.event("exposures");
            return;
        }
        XEvent ev = make(ConfigureNotify, id(w));
        ev.xconfigure.x = int(rng.range(-100, 3000));
        ev.xconfigure.y = int(rng.range(-100, 3000));
        ev.xconfigure.width = int(rng.range(1, 3000));
        ev.xconfigure.height = int(rng.range(1, 3000));
        if (!may_expose || rng.chance(1, 2)) {
            ev.xconfigure.send_event = 1;
            call(w, "reposition" + pos(ev.xconfigure.x, ev.xconfigure.y));
        }
        else {
            call(w, "resize" + pos(ev.xconfigure.width, ev.xconfigure.height));
            expose(w);
        }
        out.push_back(ev);
    }

    void message()
    {
        if (wins.empty())
            return;
        int w = wins[rng.below(wins.size())].cookie;
        XEvent ev = make(ClientMessage, id(w));
        ev.xclient.send_event = 1;
        ev.xclient.message_type = sim.server.atoms["WM_PROTOCOLS"];
        ev.xclient.format = 32;
        ev.xclient.data.l[0] = long(sim.server.atoms["WM_DELETE_WINDOW"]);
        if (rng.chance(1, 3)) {
            if (rng.chance(1, 2))
                ev.xclient.data.l[0] += long(rng.range(1, 9)) * 1000;
            else
                ev.xclient.format = 8;
        }
        else {
            call(w, "close");
            c.event("closes");
        }
        out.push_back(ev);
    }

    void stray()
    {
        // Event for a window that was just destroyed, or of a type that is of no interest
        switch (rng.below(3)) {
            case 0:
                if (!gone.empty()) {
                    static const int types[] = { Expose, MotionNotify, FocusOut, LeaveNotify, ConfigureNotify,
                                                 DestroyNotify, UnmapNotify };
                    XEvent ev = make(types[rng.below(7)], gone[rng.below(gone.size())]);
                    out.push_back(ev);
                }
                return;
            case 1:
                if (int w = any_visible(false); w >= 0)
                    out.push_back(make(MapNotify, id(w)));
                return;
            case 2:
                out.push_back(make(MappingNotify, 0));
                return;
        }
    }

    void step(bool may_expose)
    {
        switch (rng.below(12)) {
            case 0:
            case 1:
                move_pointer(any_visible(true));
                return;
            case 2:
                move_focus(any_visible(true));
                return;
            case 3:
            case 4:
                press();
                return;
            case 5:
                release();
                return;
            case 6:
                scroll();
                return;
            case 7:
                motion();
                return;
            case 8:
            case 9:
                key();
                return;
            case 10:
                configure(may_expose);
                return;
            case 11:
                if (rng.chance(1, 2))
                    message();
                else
                    stray();
                return;
        }
    }

    void finish_group()
    {
        for (int w : exposed)
            call(w, "expose");
        exposed.clear();
    }

    void new_window()
    {
        disp::Window::Config config;
        config.cookie = next_cookie++;
        config.resizable = rng.chance(1, 2);
        Win w;
        w.cookie = config.cookie;
        w.handler = std::make_unique<Handler>(rec, w.cookie);
        auto before = all_windows();
        string error;
        bool ok = conn->try_new_window("x", disp::Size(8, 8), config, w.win, error);
        VF_REQUIRE(ok, "d02-window", error);
        w.id = find_new(before);
        gone.erase(std::remove(gone.begin(), gone.end(), w.id), gone.end());
        w.win->set_event_handler(*w.handler);
        w.win->show();
        wins.push_back(std::move(w));
        c.event("windows");
    }

    // The server gets to know that window is destroyed or hidden
    void vanish(int cookie, bool destroyed)
    {
        Win* w = find(cookie);
        bool report = !destroyed; // No event will reach the window
        if (!destroyed) {
            w->visible = false;
            out.push_back(make(UnmapNotify, w->id));
        }
        int below = -1;
        {
            bool was = w->visible;
            w->visible = false;
            below = any_visible(true);
            w->visible = was;
        }
        tick();
        bool had_pointer = (pointer == cookie);
        if (grab == cookie) {
            held = buttons;
            buttons.clear();
            grab = -1;
            c.event("broken_grabs");
            if (!had_pointer) {
                if (report)
                    crossing(cookie, false, NotifyUngrab, true);
                if (pointer >= 0)
                    crossing(pointer, true, NotifyUngrab, true);
            }
        }
        if (had_pointer) {
            pointer = below;
            if (grab < 0) {
                if (report)
                    crossing(cookie, false, NotifyNormal, true);
                if (below >= 0)
                    crossing(below, true, NotifyNormal, true);
            }
        }
        if (focus == cookie) {
            if (report) {
                out.push_back(make(FocusOut, w->id));
                call(cookie, "blur");
            }
            focus = -1;
            move_focus(below);
        }
        if (destroyed) {
            gone.push_back(w->id);
            wins.erase(wins.begin() + (w - &wins[0]));
        }
    }

    void process()
    {
        conn_handler.stopped = false;
        int guard = 0;
        bool deadline = rng.chance(1, 10);
        conn_handler.stop_when_idle = !deadline;
        for (;;) {
            VF_REQUIRE(++guard < 100, "d02-interrupt", "Event processing is interrupted again and again");
            if (deadline) {
                auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(3);
                bool ok = conn->process_events_a(t);
                if (ok) {
                    VF_REQUIRE(std::chrono::steady_clock::now() >= t, "d02-deadline", "Returned before deadline");
                    // Under load, the deadline can expire before all events are processed
                    mock::Server& s = *mock::srv;
                    if (s.wire.empty() && s.queue.empty() && s.later.empty())
                        break;
                    conn_handler.stop_when_idle = true;
                    deadline = false;
                    continue;
                }
            }
            else if (rng.chance(1, 2)) {
                conn->process_events();
            }
            else {
                bool ok = conn->process_events_a(std::chrono::steady_clock::now() + std::chrono::seconds(60));
                VF_REQUIRE(!ok, "d02-deadline", "Deadline cannot have been reached");
            }
            if (conn_handler.stopped)
                break;
            VF_REQUIRE(rec.interrupt_at >= 0 && long(rec.calls.size()) == rec.interrupt_at, "d02-interrupt",
                       "Event processing was interrupted after " << rec.calls.size() << " calls, but should have been "
                       "after " << rec.interrupt_at);
            rec.interrupt_at = -1;
            c.event("interruptions");
        }
    }

    void compare(const vector<Call>& expected)
    {
        std::size_t i = 0;
        string error;
        for (const Call& x : rec.calls) {
            for (;;) {
                if (i == expected.size()) {
                    error = "unexpected call: " + num(x.win) + " " + x.what;
                    break;
                }
                const Call& e = expected[i++];
                if (e.win == x.win && e.what == x.what)
                    break;
                if (!e.optional) {
                    error = "got: " + num(x.win) + " " + x.what + ", expected: " + num(e.win) + " " + e.what;
                    break;
                }
            }
            if (!error.empty())
                break;
        }
        if (error.empty())
            for (; i < expected.size(); ++i)
                if (!expected[i].optional) {
                    error = "missing: " + num(expected[i].win) + " " + expected[i].what;
                    break;
                }
        VF_REQUIRE(error.empty(), "d02-events", error << "\nCalls:\n" << show(rec.calls) << "Expected:\n"
                   << show(expected));
        c.event("calls", rec.calls.size());
    }

    void round()
    {
        mock::Server& s = sim.server;
        rec.calls.clear();
        rec.interrupt_at = -1;
        rec.act = nullptr;
        rec.act_at = -1;
        // Pending consequences of the previous round are in `out` and `want`
        bool big = rng.chance(1, 40);
        bool plan = (!big && wins.size() > 0 && rng.chance(1, 4));
        int groups = (big || plan ? 1 : int(rng.range(1, 3)));
        vector<Call> expected;
        for (int g = 0; g < groups; ++g) {
            if (big) {
                finish_group();
                std::size_t n = out.size() + 300 + rng.below(300);
                while (out.size() < n)
                    step(false);
                c.event("big_groups");
            }
            else {
                int n = int(rng.range(1, 12));
                for (int i = 0; i < n; ++i)
                    step(true);
            }
            finish_group();
            expected.insert(expected.end(), want.begin(), want.end());
            want.clear();
            if (g == 0)
                s.wire.insert(s.wire.end(), out.begin(), out.end());
            else if (!out.empty())
                s.later.push_back(out);
            c.event("events", out.size());
            out.clear();
        }
        if (rng.chance(1, 5))
            s.eintr = int(rng.range(1, 3));
        std::size_t certain = 0;
        while (certain < expected.size() && !expected[certain].optional)
            ++certain;
        int victim = -1;
        bool destroy = false;
        if (plan && certain > 0) {
            victim = wins[rng.below(wins.size())].cookie;
            destroy = rng.chance(2, 3);
            if (!destroy && !find(victim)->visible)
                victim = -1;
        }
        if (victim >= 0) {
            std::size_t k = rng.below(certain);
            // Destruction of a window from within its own handler is left out, because it
            // would destroy the handler object if the application owned it
            rec.act_at = long(k + 1);
            rec.act = [this, victim, destroy] {
                Win* w = find(victim);
                if (destroy)
                    w->win.reset();
                else
                    w->win->hide();
            };
            if (destroy) {
                auto i = expected.begin() + long(k + 1);
                expected.erase(std::remove_if(i, expected.end(), [&](const Call& x) { return x.win == victim; }),
                               expected.end());
                c.event("destroyed_in_handler");
            }
            else {
                c.event("hidden_in_handler");
            }
        }
        if (certain > 0 && rng.chance(1, 3)) {
            std::size_t n = 0;
            while (n < expected.size() && !expected[n].optional)
                ++n;
            rec.interrupt_at = long(1 + rng.below(n));
        }
        process();
        VF_REQUIRE(rec.interrupt_at < 0, "d02-interrupt", "Event processing should have been interrupted");
        compare(expected);
        check_errors("Events");
        if (victim >= 0)
            vanish(victim, destroy);
        // Application does things by itself
        if (rng.chance(1, 6) && wins.size() < 5)
            new_window();
        if (rng.chance(1, 8) && !wins.empty()) {
            Win& w = wins[rng.below(wins.size())];
            if (rng.chance(1, 2)) {
                int cookie = w.cookie;
                w.win.reset();
                std::erase_if(want, [&](const Call& x) { return x.win == cookie; });
                vanish(cookie, true);
            }
            else if (w.visible) {
                w.win->hide();
                vanish(w.cookie, false);
            }
        }
        for (Win& w : wins)
            if (!w.visible && rng.chance(1, 3)) {
                w.win->show();
                w.visible = true;
            }
    }

    void run()
    {
        mock::Server& s = sim.server;
        sim.plain(1);
        detectable = rng.chance(1, 2);
        s.detectable = detectable || rng.chance(1, 2);
        disp::x11_connection_config x11_config;
        if (s.detectable && !detectable)
            x11_config.disable_detectable_autorepeat = true;
        for (int k = 8; k < 256; ++k)
            if (!rng.chance(1, 30))
                s.keysyms[k] = KeySym(0x20 + k);
        disp::Connection::Config config;
        config.x11 = x11_config;
        string error;
        bool ok = x11().try_new_connection(std::locale::classic(), config, conn, error);
        VF_REQUIRE(ok, "d02-connect", error);
        VF_EQ(s.detectable_on, detectable, "d02-connect", "Detectable auto-repeat");
        conn->set_event_handler(conn_handler);
        time = (rng.chance(1, 2) ? 0xFFFFFFFFu - std::uint64_t(rng.range(0, 3000)) : rng.below(2000000000));
        int n = int(rng.range(1, 4));
        for (int i = 0; i < n; ++i)
            new_window();
        move_pointer(wins[0].cookie); // Establishes the origin of time
        int rounds = int(rng.range(5, 30));
        std::uint64_t start = time;
        long total = 0;
        vf::Hash h;
        for (int i = 0; i < rounds; ++i) {
            round();
            total += long(rec.calls.size());
            for (const Call& x : rec.calls)
                h.add(x.what.substr(0, x.what.find(' ')));
            if (rng.chance(1, 10)) {
                time += std::uint64_t(rng.range(0, 10000000)); // Time passes
            }
        }
        if (start >> 32 != time >> 32)
            c.event("timestamp_wraps");
        wins.clear();
        conn.reset();
        check_errors("Close");
        check_leaks();
        if (total > 0)
            c.nontrivial(h.get());
        c.sample([&](std::ostream& out) { out << show(rec.calls); });
    }
};

} // unnamed namespace

VF_MONITOR(d02_events, 3000, 80000)
{
    Events e(c);
    e.run();
}

VF_MONITOR(d02_setup, 200, 2000)
{
    Sim sim;
    mock::Server& s = sim.server;
    sim.plain(1);
    s.display_name = ":7";
    disp::Connection::Config config;
    bool expect = true;
    switch (c.rng.below(6)) {
        case 0:
            s.refuse = true;
            expect = false;
            break;
        case 1:
            s.have_xkb = false;
            expect = false;
            break;
        case 2:
            config.x11.display = ":8";
            expect = false;
            break;
        case 3:
            config.x11.display = ":7";
            break;
        case 4:
            s.have_dbe = s.have_randr = s.have_render = s.have_glx = false;
            break;
    }
    std::unique_ptr<disp::Connection> conn;
    string error;
    bool ok = x11().try_new_connection(std::locale::classic(), config, conn, error);
    VF_EQ(ok, expect, "d02-connect", "Result of trying to connect");
    VF_EQ(bool(conn), expect, "d02-connect", "Presence of connection");
    if (!expect)
        VF_REQUIRE(!error.empty(), "d02-connect", "No error message");
    else {
        arc::core::Buffer<disp::Viewport> viewports;
        arc::core::Buffer<char> strings;
        std::size_t n = 0;
        VF_EQ(conn->try_get_screen_conf(0, viewports, strings, n), s.have_randr, "d02-screen",
              "Availability of screen configuration");
        disp::Window::Config wc;
        wc.enable_opengl_rendering = c.rng.chance(1, 2);
        std::unique_ptr<disp::Window> win;
        bool ok_2 = conn->try_new_window("t", disp::Size(4, 4), wc, win, error);
        VF_EQ(ok_2, !wc.enable_opengl_rendering, "d02-window", "No visual supports OpenGL");
        c.event(ok_2 ? "windows" : "no_opengl");
        check_errors("Setup");
    }
    conn.reset();
    check_leaks();
    c.event(expect ? "connected" : "refused");
    vf::Hash h;
    h.add(error).add(ok);
    c.nontrivial(h.get());
}
