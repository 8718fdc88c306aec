// D01: Event processing, with the SDL-based implementation on SDL's dummy video driver. The
// queue of SDL events is known exactly, because it can be inspected, so calls of event
// handlers are compared with a model that consumes the same queue.

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

#define SDL_MAIN_HANDLED
#include <SDL.h>

#include <archon/core/buffer.hpp>
#include <archon/core/format.hpp>
#include <archon/display.hpp>
#include <archon/display/sdl_implementation.hpp>
#include <archon/display/as_key_name.hpp>
#include <archon/display/noinst/timestamp_unwrapper.hpp>

#include "vf.hpp"

using namespace archon;
using std::string;
using std::vector;

namespace {

using Clock = std::chrono::steady_clock;
namespace disp = archon::display;

string num(auto v) { return std::to_string(v); }

disp::Guarantees all_guarantees()
{
    disp::Guarantees g;
    g.no_other_use_of_sdl = true;
    g.main_thread_exclusive = true;
    g.only_one_connection = true;
    return g;
}

const disp::Implementation& sdl()
{
    setenv("SDL_VIDEODRIVER", "dummy", 1);
    setenv("SDL_RENDER_DRIVER", "software", 1);
    setenv("SDL_AUDIODRIVER", "dummy", 1);
    return disp::get_sdl_implementation_slot().get_implementation(all_guarantees());
}

struct Stop {
    int id;
};

vector<SDL_Event> peek()
{
    vector<SDL_Event> out(4096);
    int n = SDL_PeepEvents(out.data(), int(out.size()), SDL_PEEKEVENT, SDL_FIRSTEVENT, SDL_LASTEVENT);
    if (n < 0 || n == int(out.size()))
        throw std::logic_error("Bad event queue");
    out.resize(std::size_t(n));
    std::erase_if(out, [](const SDL_Event& e) { return e.type == SDL_POLLSENTINEL; });
    return out;
}

void add(SDL_Event e)
{
    if (SDL_PeepEvents(&e, 1, SDL_ADDEVENT, SDL_FIRSTEVENT, SDL_LASTEVENT) != 1)
        throw std::logic_error("Failed to add event");
}

struct World;

struct Win : disp::WindowEventHandler {
    World& world;
    int index;
    Win(World& w, int i)
        : world(w)
        , index(i)
    {
    }
    bool on_keydown(const disp::KeyEvent& e) override;
    bool on_keyup(const disp::KeyEvent& e) override;
    bool on_keyrepeat(const disp::KeyEvent& e) override;
    bool on_mousedown(const disp::MouseButtonEvent& e) override;
    bool on_mouseup(const disp::MouseButtonEvent& e) override;
    bool on_mousemove(const disp::MouseEvent& e) override;
    bool on_scroll(const disp::ScrollEvent& e) override;
    bool on_mouseover(const disp::TimedWindowEvent& e) override;
    bool on_mouseout(const disp::TimedWindowEvent& e) override;
    bool on_focus(const disp::WindowEvent& e) override;
    bool on_blur(const disp::WindowEvent& e) override;
    bool on_expose(const disp::WindowEvent& e) override;
    bool on_resize(const disp::WindowSizeEvent& e) override;
    bool on_reposition(const disp::WindowPosEvent& e) override;
    bool on_close(const disp::WindowEvent& e) override;
};

struct Conn : disp::ConnectionEventHandler {
    World& world;
    int index;
    Conn(World& w, int i)
        : world(w)
        , index(i)
    {
    }
    bool on_screen_change(int) override;
    bool before_sleep() override;
    bool on_quit() override;
};

struct Window {
    Uint32 id = 0;
    int cookie = 0;
    int handler = -1; // Index of handler. -1 for the initial one.
    std::unique_ptr<disp::Window> win;
    bool pending = false; // An event that causes exposure was processed
    bool optional = false; // An additional call is possible
    long since = 0; // Number of calls since then
};

struct World {
    vf::Case& c;
    vf::Rng& rng;
    std::unique_ptr<disp::Connection> conn;
    vector<std::unique_ptr<Win>> handlers;
    vector<std::unique_ptr<Conn>> conn_handlers;
    int conn_handler = -1;
    std::map<int, Window> windows; // Open ones
    vector<Uint32> dead;
    int next_window = 0;
    Uint32 last_id = 0;
    std::deque<SDL_Event> queue; // Not yet processed events
    bool stop = false; // Processing was interrupted
    int thrown = -1, next_throw = 0;
    bool slept = false; // Last call was before_sleep()
    long calls = 0, consumed = 0, since_sleep = 0;
    int budget = 60; // Number of additional events
    int sleeps_left = 1 << 30;
    vf::Hash sig;
    string trace;
    // Timestamps
    std::uint64_t time, time_limit;
    bool have_time = false;
    int destroyed = 0, created = 0, interrupts = 0, exceptions = 0, merged = 0;

    explicit World(vf::Case& c_)
        : c(c_)
        , rng(c_.rng)
    {
        std::uint64_t wrap = std::uint64_t(1) << 32;
        time = rng.chance(1, 2) ? wrap - 1 - rng.below(2000) : rng.below(wrap);
        time_limit = time + (std::uint64_t(1) << 31) - 50'000'000;
    }

    string why() const { return trace.size() > 900 ? "..." + trace.substr(trace.size() - 900) : trace; }

    void note(const string& s)
    {
        trace += s + " ";
        sig.add(s);
    }

    Uint32 next_time()
    {
        std::uint64_t step = rng.chance(1, 8) ? rng.below(200'000'000) : rng.chance(1, 2) ? rng.below(50) : rng.below(5000);
        if (time + step < time_limit)
            time += step;
        if (Uint32(time) < 10'000'000)
            time += 10'000'000;
        return Uint32(time);
    }

    // Timestamps are passed through the queue in terms of low-order bits. They are
    // monotone, so the rest can be recovered.
    std::uint64_t last = 0, offset = 0;
    bool have_offset = false;

    std::uint64_t unwrapped(Uint32 t)
    {
        std::uint64_t wrap = std::uint64_t(1) << 32;
        if (!have_time) {
            have_time = true;
            last = t;
            return last;
        }
        std::uint64_t v = (last & ~(wrap - 1)) | t;
        if (v < last)
            v += wrap;
        last = v;
        return v;
    }

    Window* find(Uint32 id)
    {
        for (auto& [i, w] : windows)
            if (w.id == id)
                return &w;
        return nullptr;
    }

    // Number of events that were fetched, but not processed according to model
    std::size_t fetched() const
    {
        std::size_t n = peek().size();
        return queue.size() > n ? queue.size() - n : 0;
    }

    void sync(std::size_t keep)
    {
        queue.resize(std::min(keep, queue.size()));
        for (auto& e : peek())
            queue.push_back(e);
    }

    // Result of event: The expected call, if any. Exposure is registered.
    string effect(const SDL_Event& e, bool& default_stop)
    {
        if (ours(e))
            unwrapped(e.common.timestamp);
        default_stop = false;
        auto win = [&](Uint32 id) { return find(id); };
        auto call = [&](const Window& w, const string& what, bool timed, Uint32 t, const string& rest) {
            string s = what + " cookie " + num(w.cookie);
            (void) t;
            if (timed)
                s += " timed";
            s += rest;
            if (w.handler < 0) {
                default_stop = what == "close";
                return string();
            }
            return "handler " + num(w.handler) + " " + s;
        };
        switch (e.type) {
            case SDL_MOUSEMOTION:
                if (auto w = win(e.motion.windowID); w && e.motion.state != 0)
                    return call(*w, "mousemove", true, e.motion.timestamp, " at " + num(e.motion.x) + " " + num(e.motion.y));
                return {};
            case SDL_MOUSEWHEEL:
                if (auto w = win(e.wheel.windowID)) {
                    std::ostringstream out;
                    out << " by " << e.wheel.preciseX << " " << e.wheel.preciseY;
                    return call(*w, "scroll", true, e.wheel.timestamp, out.str());
                }
                return {};
            case SDL_MOUSEBUTTONDOWN:
            case SDL_MOUSEBUTTONUP:
                if (auto w = win(e.button.windowID); w) {
                    const char* names[] = { "?", "left", "middle", "right", "x1", "x2" };
                    if (e.button.button > 5 || e.button.button == 0)
                        return {};
                    return call(*w, e.type == SDL_MOUSEBUTTONDOWN ? "mousedown" : "mouseup", true, e.button.timestamp, " at " + num(e.button.x) + " " + num(e.button.y) + " " + names[e.button.button]);
                }
                return {};
            case SDL_KEYDOWN:
            case SDL_KEYUP:
                if (auto w = win(e.key.windowID))
                    return call(*w, e.type == SDL_KEYUP ? "keyup" : e.key.repeat != 0 ? "keyrepeat" : "keydown", true, e.key.timestamp, " key " + num(e.key.keysym.sym));
                return {};
            case SDL_WINDOWEVENT:
                if (auto w = win(e.window.windowID)) {
                    auto expose = [&] {
                        if (w->pending)
                            ++merged;
                        else
                            w->since = 0;
                        w->pending = true;
                    };
                    switch (e.window.event) {
                        case SDL_WINDOWEVENT_SIZE_CHANGED:
                            expose();
                            return call(*w, "resize", false, 0, " to " + num(e.window.data1) + " " + num(e.window.data2));
                        case SDL_WINDOWEVENT_MOVED: return call(*w, "reposition", false, 0, " to " + num(e.window.data1) + " " + num(e.window.data2));
                        case SDL_WINDOWEVENT_EXPOSED: expose(); return {};
                        case SDL_WINDOWEVENT_ENTER: return call(*w, "mouseover", true, e.window.timestamp, "");
                        case SDL_WINDOWEVENT_LEAVE: return call(*w, "mouseout", true, e.window.timestamp, "");
                        case SDL_WINDOWEVENT_FOCUS_GAINED: return call(*w, "focus", false, 0, "");
                        case SDL_WINDOWEVENT_FOCUS_LOST: return call(*w, "blur", false, 0, "");
                        case SDL_WINDOWEVENT_CLOSE: return call(*w, "close", false, 0, "");
                    }
                }
                return {};
            case SDL_QUIT:
                if (conn_handler < 0) {
                    default_stop = true;
                    return {};
                }
                return "connection " + num(conn_handler) + " quit";
        }
        return {};
    }

    // Whether event can not cause anything but exposure
    bool silent(const SDL_Event& e)
    {
        World copy_free_check = World(*this, 0);
        bool stop_2;
        return copy_free_check.effect(e, stop_2).empty() && !stop_2;
    }

    // Copy without the real parts, for tentative steps
    World(World& w, int)
        : c(w.c)
        , rng(w.rng)
        , conn_handler(w.conn_handler)
        , time(w.time)
        , time_limit(w.time_limit)
        , have_time(w.have_time)
        , last(w.last)
    {
        for (auto& [i, v] : w.windows) {
            Window v_2;
            v_2.id = v.id;
            v_2.cookie = v.cookie;
            v_2.handler = v.handler;
            v_2.pending = v.pending;
            windows[i] = std::move(v_2);
        }
    }

    void consume_silent(std::size_t n)
    {
        while (n > 0 && !queue.empty() && silent(queue.front())) {
            bool stop_2;
            SDL_Event e = queue.front();
            effect(e, stop_2);
            if (e.type == SDL_WINDOWEVENT && e.window.event == SDL_WINDOWEVENT_EXPOSED) {
                if (auto w = find(e.window.windowID))
                    w->optional = true;
            }
            queue.pop_front();
            ++consumed;
            --n;
        }
    }

    void common(const string& got)
    {
        ++calls;
        slept = false;
        note(got);
        VF_REQUIRE(!stop && thrown < 0, "call-after-interrupt", got << ": " << why());
        VF_REQUIRE(++since_sleep <= 2000, "never-before-sleep", got << ": " << why());
        for (auto& [i, w] : windows)
            VF_REQUIRE(!w.pending || ++w.since <= 1000, "expose-delayed", got << ": " << why());
    }

    // A handler function was called for a real event
    bool hit(const string& got, std::int64_t at = -1)
    {
        common(got);
        string expect;
        std::size_t skipped = 0;
        while (expect.empty()) {
            VF_REQUIRE(!queue.empty(), "unexpected-call", got << ", but all events were processed (" << skipped << " skipped): " << why());
            SDL_Event e = queue.front();
            queue.pop_front();
            ++consumed;
            bool default_stop;
            expect = effect(e, default_stop);
            VF_REQUIRE(!default_stop, "call-after-default-interrupt", got << ": " << why());
            ++skipped;
        }
        VF_REQUIRE(got == expect, "wrong-call", got << " expected " << expect << ": " << why());
        if (at >= 0) {
            // Timestamps have a common origin
            std::uint64_t wrap = std::uint64_t(1) << 32;
            if (!have_offset)
                offset = std::uint64_t(at) - last;
            have_offset = true;
            VF_REQUIRE(std::uint64_t(at) - last == offset && offset % wrap == 0, "timestamp", at << " expected " << last + offset << ": " << why());
            c.event("timestamps", 1);
        }
        return react();
    }

    bool exposed(int handler, int cookie)
    {
        common("expose handler " + num(handler) + " cookie " + num(cookie));
        consume_silent(fetched());
        for (auto& [i, w] : windows) {
            if (w.handler == handler && w.cookie == cookie && (w.pending || w.optional)) {
                if (w.pending)
                    w.pending = false;
                else
                    w.optional = false;
                c.event("expose", 1);
                return react();
            }
        }
        VF_REQUIRE(false, "unexpected-expose", "handler " << handler << " cookie " << cookie << ": " << why());
        return true;
    }

    bool sleep(int handler)
    {
        common("sleep " + num(handler));
        VF_REQUIRE(handler == conn_handler, "connection-handler", handler << " expected " << conn_handler << ": " << why());
        consume_silent(fetched());
        for (auto& [i, w] : windows) {
            VF_REQUIRE(!w.pending || w.handler < 0 || !queue.empty(), "asleep-without-expose", "window " << i << ": " << why());
            if (w.handler < 0)
                w.pending = false;
        }
        since_sleep = 0;
        c.event("before_sleep", 1);
        if (--sleeps_left <= 0) {
            stop = true;
            return false;
        }
        bool ret = react();
        if (ret && unlimited && queue.empty()) {
            inject();
            sync(0);
        }
        slept = ret;
        return ret;
    }

    // Decision of handler
    bool react()
    {
        std::size_t keep = fetched();
        for (int n = rng.chance(1, 6) ? 1 + int(rng.below(2)) : 0; n > 0; --n)
            act(true);
        sync(keep);
        switch (rng.below(24)) {
            case 0:
            case 1:
                stop = true;
                ++interrupts;
                note("INTERRUPT");
                return false;
            case 2:
                thrown = next_throw++;
                ++exceptions;
                note("THROW");
                throw Stop { thrown };
        }
        return true;
    }

    void open_window()
    {
        disp::Window::Config config;
        config.cookie = rng.chance(1, 4) ? int(rng.next()) : int(rng.below(4));
        config.resizable = rng.chance(1, 2);
        if (rng.chance(1, 3))
            config.minimum_size = disp::Size(int(rng.below(30)), int(rng.below(30)));
        if (rng.chance(1, 3))
            config.screen = 0;
        Window w;
        w.cookie = config.cookie;
        w.win = conn->new_window("x", disp::Size(1 + int(rng.below(40)), 1 + int(rng.below(40))), config);
        Uint32 id = last_id + 1;
        while (!SDL_GetWindowFromID(id))
            ++id;
        last_id = id;
        w.id = id;
        int i = next_window++;
        auto [p, was_inserted] = windows.emplace(i, std::move(w));
        if (rng.chance(9, 10))
            set_handler(p->second);
        ++created;
        note("open" + num(i) + "=" + num(id));
    }

    void set_handler(Window& w)
    {
        // Handlers are not shared, so that windows can be told apart
        int h = int(handlers.size());
        handlers.push_back(std::make_unique<Win>(*this, h));
        w.win->set_event_handler(*handlers.back());
        if (w.handler < 0 && w.pending) {
            // Cannot tell whether exposure was reported to initial handler
            w.pending = false;
            w.optional = true;
        }
        w.handler = h;
        note("handler" + num(h));
    }

    Uint32 some_id()
    {
        if (rng.chance(1, 12))
            return Uint32(rng.below(100)) * Uint32(rng.below(2));
        if (rng.chance(1, 8) && !dead.empty())
            return dead[rng.below(dead.size())];
        if (windows.empty())
            return 3;
        auto i = windows.begin();
        std::advance(i, rng.below(windows.size()));
        return i->second.id;
    }

    void inject()
    {
        SDL_Event e;
        std::memset(&e, 0, sizeof e);
        int coord[2] = { int(rng.range(-5000, 5000)), int(rng.range(-5000, 5000)) };
        Uint32 id = some_id();
        switch (rng.below(16)) {
            case 0:
            case 1:
            case 2:
                e.type = SDL_MOUSEMOTION;
                e.motion.windowID = id;
                e.motion.x = coord[0];
                e.motion.y = coord[1];
                e.motion.state = rng.chance(1, 3) ? 0 : 1 + Uint32(rng.below(31));
                break;
            case 3:
                e.type = SDL_MOUSEWHEEL;
                e.wheel.windowID = id;
                e.wheel.x = coord[0];
                e.wheel.y = coord[1];
                e.wheel.preciseX = float(coord[1]) / 8;
                e.wheel.preciseY = float(coord[0]) / 8;
                break;
            case 4:
            case 5:
                e.type = rng.chance(1, 2) ? SDL_MOUSEBUTTONDOWN : SDL_MOUSEBUTTONUP;
                e.button.windowID = id;
                e.button.button = Uint8(1 + rng.below(5));
                if (rng.chance(1, 20)) {
                    e.button.button = Uint8(rng.below(256));
                    c.event("unusual_button", 1);
                }
                e.button.x = coord[0];
                e.button.y = coord[1];
                break;
            case 6:
            case 7:
            case 8:
                e.type = rng.chance(1, 2) ? SDL_KEYDOWN : SDL_KEYUP;
                e.key.windowID = id;
                e.key.repeat = rng.chance(1, 3) ? Uint8(1 + rng.below(255)) : 0;
                if (rng.chance(1, 2))
                    e.key.keysym.sym = int(rng.below(256));
                else
                    e.key.keysym.sym = int(SDLK_SCANCODE_MASK + rng.below(300));
                e.key.keysym.scancode = SDL_Scancode(rng.below(300));
                break;
            case 9:
            case 10:
            case 11:
            case 12:
            case 13:
                e.type = SDL_WINDOWEVENT;
                e.window.windowID = id;
                e.window.event = Uint8(rng.chance(1, 3) ? rng.chance(1, 2) ? SDL_WINDOWEVENT_EXPOSED : SDL_WINDOWEVENT_SIZE_CHANGED : int(rng.below(20)));
                e.window.data1 = coord[0];
                e.window.data2 = coord[1];
                if (e.window.event == SDL_WINDOWEVENT_SIZE_CHANGED) {
                    e.window.data1 = 1 + std::abs(coord[0]);
                    e.window.data2 = 1 + std::abs(coord[1]);
                }
                break;
            case 14:
                e.type = rng.chance(1, 3) ? Uint32(SDL_QUIT) : Uint32(SDL_USEREVENT + rng.below(3));
                break;
            default:
                e.type = rng.pick({ Uint32(SDL_TEXTINPUT), Uint32(SDL_DISPLAYEVENT), Uint32(SDL_KEYMAPCHANGED), Uint32(SDL_FINGERDOWN), Uint32(SDL_CLIPBOARDUPDATE) });
        }
        e.common.timestamp = next_time();
        add(e);
        c.event("injected", 1);
    }

    void act(bool in_handler)
    {
        switch (rng.below(in_handler ? 10 : 9)) {
            case 0:
                if (windows.size() < 5)
                    open_window();
                break;
            case 1:
                if (windows.size() > (rng.chance(1, 10) ? 0u : 1u)) {
                    auto i = windows.begin();
                    std::advance(i, rng.below(windows.size()));
                    note("destroy" + num(i->first));
                    dead.push_back(i->second.id);
                    if (dead.size() > 6)
                        dead.erase(dead.begin());
                    windows.erase(i);
                    ++destroyed;
                }
                break;
            case 2:
                if (!windows.empty()) {
                    auto i = windows.begin();
                    std::advance(i, rng.below(windows.size()));
                    set_handler(i->second);
                }
                break;
            case 3:
                if (rng.chance(1, 3)) {
                    conn_handler = int(conn_handlers.size());
                    conn_handlers.push_back(std::make_unique<Conn>(*this, conn_handler));
                    conn->set_event_handler(*conn_handlers.back());
                    note("conn" + num(conn_handler));
                }
                break;
            case 4:
                if (!windows.empty()) {
                    auto i = windows.begin();
                    std::advance(i, rng.below(windows.size()));
                    disp::Window& w = *i->second.win;
                    switch (rng.below(6)) {
                        case 0: w.show(); break;
                        case 1: w.hide(); break;
                        case 2: w.set_title("abc \xc3\xa6"); break;
                        case 3: w.set_size(disp::Size(1 + int(rng.below(100)), 1 + int(rng.below(100)))); break;
                        case 4: w.set_fullscreen_mode(rng.chance(1, 2)); break;
                        default: w.fill(util::Color(1, 2, 3)); w.present();
                    }
                    note("window operation");
                }
                break;
            default:
                if (!in_handler || --budget > 0) {
                    int n = in_handler ? 1 + int(rng.below(3)) : rng.chance(1, 6) ? 100 + int(rng.below(300)) : 1 + int(rng.below(12));
                    for (; n > 0; --n)
                        inject();
                }
        }
        // Events generated by SDL itself do not agree with the clock of this model
        vector<SDL_Event> all = peek();
        bool foreign = std::any_of(all.begin(), all.end(), [&](auto& e) { return !ours(e); });
        if (foreign) {
            SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
            for (auto& e : all)
                if (ours(e) || (e.type == SDL_WINDOWEVENT && e.window.event != SDL_WINDOWEVENT_ENTER && e.window.event != SDL_WINDOWEVENT_LEAVE))
                    add(e);
        }
    }

    // Timestamps of events of SDL are those of a clock that started at zero
    bool ours(const SDL_Event& e) const { return e.common.timestamp >= 10'000'000; }

    bool unlimited = false, prev_expired = false;
    int idle = 0;

    void process()
    {
        bool limited = rng.chance(3, 4);
        stop = false;
        thrown = -1;
        slept = false;
        since_sleep = 0;
        sleeps_left = limited ? 1 << 30 : 1 + int(rng.below(3));
        budget = 40;
        long before = consumed;
        bool any = !queue.empty();
        bool ret = false, exception = false;
        Clock::time_point deadline = Clock::now() + std::chrono::microseconds(rng.range(-1000, rng.chance(1, 5) ? 4000 : 300));
        if (conn_handler < 0)
            limited = true; // Otherwise nothing can bring it to an end
        unlimited = !limited;
        try {
            if (limited)
                ret = conn->process_events_a(deadline);
            else
                conn->process_events();
        }
        catch (const Stop& e) {
            VF_REQUIRE(thrown == e.id, "exception", thrown << " " << e.id << ": " << why());
            exception = true;
        }
        VF_REQUIRE(exception == (thrown >= 0), "lost-exception", why());
        if (exception) {
            prev_expired = false;
            return;
        }
        if (ret) {
            VF_REQUIRE(!stop, "interrupt-reported-as-expiration", why());
            Clock::time_point now = Clock::now();
            VF_REQUIRE(now >= deadline, "premature-expiration", std::chrono::duration<double>(deadline - now).count() << ": " << why());
            consume_silent(fetched());
            VF_REQUIRE(conn_handler < 0 || slept, "no-before-sleep", why());
            // SDL can stop once at the mark of the end of a poll cycle
            idle = prev_expired && any && consumed == before ? idle + 1 : 0;
            prev_expired = true;
            VF_REQUIRE(idle < 2, "starved", queue.size() << " " << (queue.empty() ? 0 : queue.front().type) << ": " << why());
            VF_REQUIRE(fetched() == 0, "fetched-events-left", fetched() << ": " << why());
            for (auto& [i, w] : windows) {
                VF_REQUIRE(!w.pending || w.handler < 0, "no-expose", "window " << i << ": " << why());
                w.pending = false;
            }
            c.event("expired", 1);
        }
        else {
            // Interruption by initial handler?
            while (!stop && !queue.empty()) {
                SDL_Event e = queue.front();
                queue.pop_front();
                ++consumed;
                string s = effect(e, stop);
                VF_REQUIRE(s.empty(), "missed-event", s << ": " << why());
                if (stop)
                    c.event("default_interrupt", 1);
            }
            VF_REQUIRE(stop, "unexplained-return", why());
            prev_expired = false;
            c.event("interrupted", 1);
        }
    }
};

string base(int index, const disp::WindowEvent& e, const char* what) { return "handler " + num(index) + " " + what + " cookie " + num(e.cookie); }
string timed(int index, const disp::TimedWindowEvent& e, const char* what) { return base(index, e, what) + " timed"; }
string button(int index, const disp::MouseButtonEvent& e, const char* what)
{
    const char* names[] = { "left", "middle", "right", "x1", "x2" };
    return timed(index, e, what) + " at " + num(e.pos.x) + " " + num(e.pos.y) + " " + names[int(e.button)];
}
string key(int index, const disp::KeyEvent& e, const char* what) { return timed(index, e, what) + " key " + num(int(e.key_code.code)); }

bool Win::on_keydown(const disp::KeyEvent& e) { return world.hit(key(index, e, "keydown"), e.timestamp.count()); }
bool Win::on_keyup(const disp::KeyEvent& e) { return world.hit(key(index, e, "keyup"), e.timestamp.count()); }
bool Win::on_keyrepeat(const disp::KeyEvent& e) { return world.hit(key(index, e, "keyrepeat"), e.timestamp.count()); }
bool Win::on_mousedown(const disp::MouseButtonEvent& e) { return world.hit(button(index, e, "mousedown"), e.timestamp.count()); }
bool Win::on_mouseup(const disp::MouseButtonEvent& e) { return world.hit(button(index, e, "mouseup"), e.timestamp.count()); }
bool Win::on_mousemove(const disp::MouseEvent& e) { return world.hit(timed(index, e, "mousemove") + " at " + num(e.pos.x) + " " + num(e.pos.y), e.timestamp.count()); }
bool Win::on_scroll(const disp::ScrollEvent& e)
{
    std::ostringstream out;
    out << timed(index, e, "scroll") << " by " << e.amount[0] << " " << e.amount[1];
    return world.hit(out.str(), e.timestamp.count());
}
bool Win::on_mouseover(const disp::TimedWindowEvent& e) { return world.hit(timed(index, e, "mouseover"), e.timestamp.count()); }
bool Win::on_mouseout(const disp::TimedWindowEvent& e) { return world.hit(timed(index, e, "mouseout"), e.timestamp.count()); }
bool Win::on_focus(const disp::WindowEvent& e) { return world.hit(base(index, e, "focus")); }
bool Win::on_blur(const disp::WindowEvent& e) { return world.hit(base(index, e, "blur")); }
bool Win::on_expose(const disp::WindowEvent& e) { return world.exposed(index, e.cookie); }
bool Win::on_resize(const disp::WindowSizeEvent& e) { return world.hit(base(index, e, "resize") + " to " + num(e.size.width) + " " + num(e.size.height)); }
bool Win::on_reposition(const disp::WindowPosEvent& e) { return world.hit(base(index, e, "reposition") + " to " + num(e.pos.x) + " " + num(e.pos.y)); }
bool Win::on_close(const disp::WindowEvent& e) { return world.hit(base(index, e, "close")); }
bool Conn::on_screen_change(int) { return world.hit("connection screen change"); }
bool Conn::before_sleep() { return world.sleep(index); }
bool Conn::on_quit() { return world.hit("connection " + num(index) + " quit"); }

} // unnamed namespace

VF_MONITOR(d01_events, 1500, 20000, VF_NO_LEAK_CHECK)
{
    World world(c);
    world.conn = sdl().new_connection(std::locale::classic(), {});
    for (std::uint64_t n = 1 + c.rng.below(3); n > 0; --n)
        world.open_window();
    int rounds = 2 + int(c.rng.below(12));
    for (int i = 0; i < rounds; ++i) {
        std::size_t keep = world.fetched();
        for (std::uint64_t n = c.rng.below(8); n > 0; --n)
            world.act(false);
        world.sync(keep);
        world.process();
    }
    c.event("calls", std::uint64_t(world.calls));
    c.event("destroyed", std::uint64_t(world.destroyed));
    c.event("merged_exposures", std::uint64_t(world.merged));
    c.event("exceptions", std::uint64_t(world.exceptions));
    c.event("interrupts", std::uint64_t(world.interrupts));
    if (world.last >> 32 != 0)
        c.event("timestamp_wrapped", 1);
    c.nontrivial(world.sig.get());
    c.sample([&](std::ostream& o) { o << world.why(); });
    world.windows.clear();
    world.conn.reset();
}

namespace {

struct Seen : disp::WindowEventHandler {
    vector<std::pair<long, long>> keys;
    long limit = -1;
    bool on_keydown(const disp::KeyEvent& e) override
    {
        keys.emplace_back(long(e.key_code.code), long(e.timestamp.count()));
        return long(keys.size()) != limit;
    }
};

} // unnamed namespace

// Events that occur while processing sleeps, produced by another thread
VF_MONITOR(d01_live, 60, 600, VF_NO_LEAK_CHECK)
{
    auto conn = sdl().new_connection(std::locale::classic(), {});
    auto win = conn->new_window("x", disp::Size(10, 10), {});
    Seen seen;
    win->set_event_handler(seen);
    Uint32 id = 1;
    while (!SDL_GetWindowFromID(id))
        ++id;
    int n = 5 + int(c.rng.below(60));
    vf::Rng rng(c.rng.next());
    std::atomic<int> pushed { 0 };
    std::thread producer([&] {
        for (int i = 0; i < n; ++i) {
            if (rng.chance(1, 2))
                std::this_thread::sleep_for(std::chrono::microseconds(rng.below(3000)));
            SDL_Event e;
            std::memset(&e, 0, sizeof e);
            e.type = SDL_KEYDOWN;
            e.key.windowID = id;
            e.key.keysym.sym = i;
            SDL_PushEvent(&e);
            pushed = i + 1;
        }
    });
    bool ok = true;
    bool early = false;
    int expired = 0;
    if (c.rng.chance(1, 2)) {
        seen.limit = n;
        conn->process_events();
    }
    else {
        auto end = Clock::now() + std::chrono::seconds(20);
        while (int(seen.keys.size()) < n && Clock::now() < end) {
            auto deadline = Clock::now() + std::chrono::microseconds(c.rng.below(2500));
            ok = ok && conn->process_events_a(deadline);
            early = early || Clock::now() < deadline;
            ++expired;
        }
    }
    producer.join();
    VF_REQUIRE(ok, "live-interrupt", "");
    VF_REQUIRE(!early, "live-premature-expiration", "");
    VF_EQ(int(seen.keys.size()), n, "live-number-of-events", "");
    for (int i = 0; i < n; ++i) {
        VF_EQ(seen.keys[std::size_t(i)].first, long(i), "live-order", "");
        VF_REQUIRE(i == 0 || seen.keys[std::size_t(i)].second >= seen.keys[std::size_t(i - 1)].second, "live-timestamp", "");
    }
    c.event("live_events", std::uint64_t(n));
    if (expired > 0)
        c.event("live_expirations", std::uint64_t(expired));
    c.nontrivial(vf::Hash().add(n).add(rng.next()).get());
    win.reset();
}

namespace {

const vector<std::pair<SDL_Keycode, disp::Key>>& special_keys()
{
    using K = disp::Key;
    static const vector<std::pair<SDL_Keycode, disp::Key>> keys {
        { SDLK_BACKSPACE, K::backspace }, { SDLK_TAB, K::tab }, { SDLK_CLEAR, K::clear }, { SDLK_RETURN, K::return_ }, { SDLK_PAUSE, K::pause },
        { SDLK_SCROLLLOCK, K::scroll_lock }, { SDLK_SYSREQ, K::sys_req }, { SDLK_ESCAPE, K::escape }, { SDLK_DELETE, K::delete_ }, { SDLK_LEFT, K::left },
        { SDLK_RIGHT, K::right }, { SDLK_UP, K::up }, { SDLK_DOWN, K::down }, { SDLK_PAGEUP, K::prior }, { SDLK_PAGEDOWN, K::next }, { SDLK_HOME, K::home },
        { SDLK_END, K::end }, { SDLK_SELECT, K::select }, { SDLK_PRINTSCREEN, K::print_screen }, { SDLK_EXECUTE, K::execute }, { SDLK_INSERT, K::insert },
        { SDLK_UNDO, K::undo }, { SDLK_MENU, K::menu }, { SDLK_FIND, K::find }, { SDLK_CANCEL, K::cancel }, { SDLK_HELP, K::help }, { SDLK_MODE, K::mode_switch },
        { SDLK_NUMLOCKCLEAR, K::num_lock }, { SDLK_KP_PLUS, K::keypad_add }, { SDLK_KP_MINUS, K::keypad_subtract }, { SDLK_KP_MULTIPLY, K::keypad_multiply },
        { SDLK_KP_DIVIDE, K::keypad_divide }, { SDLK_KP_ENTER, K::keypad_enter }, { SDLK_KP_0, K::keypad_insert }, { SDLK_KP_1, K::keypad_end },
        { SDLK_KP_2, K::keypad_down }, { SDLK_KP_3, K::keypad_next }, { SDLK_KP_4, K::keypad_left }, { SDLK_KP_5, K::keypad_begin }, { SDLK_KP_6, K::keypad_right },
        { SDLK_KP_7, K::keypad_home }, { SDLK_KP_8, K::keypad_up }, { SDLK_KP_9, K::keypad_prior }, { SDLK_KP_PERIOD, K::keypad_delete },
        { SDLK_KP_COMMA, K::keypad_thousands_separator }, { SDLK_KP_EQUALS, K::keypad_equal_sign }, { SDLK_KP_SPACE, K::keypad_space }, { SDLK_KP_TAB, K::keypad_tab },
        { SDLK_LSHIFT, K::shift_left }, { SDLK_RSHIFT, K::shift_right }, { SDLK_LCTRL, K::ctrl_left }, { SDLK_RCTRL, K::ctrl_right }, { SDLK_LALT, K::alt_left },
        { SDLK_RALT, K::alt_right }, { SDLK_LGUI, K::meta_left }, { SDLK_RGUI, K::meta_right }, { SDLK_CAPSLOCK, K::caps_lock },
        { SDLK_F1, K::f1 }, { SDLK_F2, K::f2 }, { SDLK_F3, K::f3 }, { SDLK_F4, K::f4 }, { SDLK_F5, K::f5 }, { SDLK_F6, K::f6 }, { SDLK_F7, K::f7 }, { SDLK_F8, K::f8 },
        { SDLK_F9, K::f9 }, { SDLK_F10, K::f10 }, { SDLK_F11, K::f11 }, { SDLK_F12, K::f12 }, { SDLK_F13, K::f13 }, { SDLK_F14, K::f14 }, { SDLK_F15, K::f15 },
        { SDLK_F16, K::f16 }, { SDLK_F17, K::f17 }, { SDLK_F18, K::f18 }, { SDLK_F19, K::f19 }, { SDLK_F20, K::f20 }, { SDLK_F21, K::f21 }, { SDLK_F22, K::f22 },
        { SDLK_F23, K::f23 }, { SDLK_F24, K::f24 },
    };
    return keys;
}

} // unnamed namespace

// Correspondence between keys and key codes
VF_MONITOR(d01_keys, 40, 400, VF_NO_LEAK_CHECK)
{
    bool utf8 = c.rng.chance(1, 2);
    auto conn = sdl().new_connection(utf8 ? std::locale("C.UTF-8") : std::locale::classic(), {});
    std::map<int, SDL_Keycode> by_key;
    std::map<SDL_Keycode, int> by_code;
    for (auto [code, k] : special_keys()) {
        by_key[int(k)] = code;
        by_code[code] = int(k);
    }
    for (int ch = 32; ch < 256; ++ch) {
        if (ch >= 127 && ch < 160)
            continue;
        int k = ch < 127 ? int(disp::Key::space) + ch - 32 : int(disp::Key::nobreak_space) + ch - 160;
        by_key[k] = ch;
        by_code[ch] = k;
    }
    for (int i = 0; i < 1200; ++i) {
        disp::KeyCode code { 4711 };
        bool found = conn->try_map_key_to_key_code(disp::Key(i), code);
        auto j = by_key.find(i);
        VF_REQUIRE(found == (j != by_key.end()) && int(code.code) == (found ? j->second : 4711), "key-to-code", i << ": " << found << " " << code.code);
        c.event("keys", found ? 1 : 0);
    }
    for (int i = 0; i < 3000; ++i) {
        SDL_Keycode sym = i < 400 ? i : c.rng.chance(1, 2) ? int(SDLK_SCANCODE_MASK + c.rng.below(600)) : int(c.rng.next());
        if (i >= 400 && i < 400 + 300)
            sym = SDLK_SCANCODE_MASK + i - 400;
        disp::KeyCode code { disp::KeyCode::code_type(sym) };
        disp::Key k = disp::Key(-5);
        bool found = conn->try_map_key_code_to_key(code, k);
        auto j = by_code.find(sym);
        VF_REQUIRE(found == (j != by_code.end()) && int(k) == (found ? j->second : -5), "code-to-key", sym << ": " << found << " " << int(k));
        std::string_view name = "unchanged";
        bool named = conn->try_get_key_name(code, name);
        string expect = SDL_GetKeyName(sym);
        bool known = utf8 && !expect.empty();
        VF_REQUIRE(named == known && name == (known ? expect : "unchanged"), "key-name", sym << ": " << named << " " << vf::show(name) << " expected " << vf::show(expect));
        string formatted = core::format(std::locale::classic(), "%s", disp::as_key_name(code, *conn));
        bool ascii = std::all_of(expect.begin(), expect.end(), [](char ch) { return ch > 0; });
        if (!known || ascii)
            VF_EQ(formatted, known ? expect : "Key(" + std::to_string(code.code) + ")", "formatted-key", sym);
        c.event("codes", 1);
    }
    c.nontrivial(vf::Hash().add(c.rng.next()).get());
}

// Slots, availability and connections
VF_MONITOR(d01_setup, 200, 2000, VF_NO_LEAK_CHECK)
{
    sdl();
    disp::Guarantees g;
    g.no_other_use_of_sdl = c.rng.chance(3, 4);
    g.no_other_use_of_x11 = c.rng.chance(1, 2);
    g.main_thread_exclusive = c.rng.chance(3, 4);
    g.only_one_connection = c.rng.chance(3, 4);
    int n = disp::get_num_implementation_slots();
    std::set<string> idents;
    const disp::Implementation* first = nullptr;
    for (int i = 0; i < n; ++i) {
        const disp::Implementation::Slot& slot = disp::get_implementation_slot(i);
        string ident { slot.ident() };
        VF_REQUIRE(idents.insert(ident).second, "ambiguous-ident", ident);
        VF_REQUIRE(disp::lookup_implementation(ident) == &slot, "lookup", ident);
        const disp::Implementation* impl = slot.get_implementation_a(g);
        if (!first)
            first = impl;
        VF_EQ(slot.is_available(g), impl != nullptr, "is-available", ident);
        VF_REQUIRE(!impl || &impl->get_slot() == &slot, "slot-of-implementation", ident);
        bool thrown = false;
        try {
            VF_REQUIRE(&slot.get_implementation(g) == impl, "get-implementation", ident);
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        VF_EQ(thrown, impl == nullptr, "get-implementation-failure", ident);
        const disp::Implementation* impl_2 = nullptr;
        string error;
        bool success = disp::try_pick_implementation(std::string_view(ident), g, impl_2, error);
        VF_REQUIRE(success == bool(impl) && impl_2 == impl && error.empty() == success, "pick-by-name", ident << " " << error);
        if (ident == "sdl")
            VF_EQ(bool(impl), g.no_other_use_of_sdl && g.main_thread_exclusive && g.only_one_connection, "sdl-availability", "");
    }
    VF_REQUIRE(idents.count("sdl") == 1 && idents.count("x11") == 1, "idents", "");
    for (int i : { -1, n, n + 7 }) {
        bool thrown = false;
        try {
            disp::get_implementation_slot(i);
        }
        catch (std::out_of_range&) {
            thrown = true;
        }
        VF_REQUIRE(thrown, "slot-out-of-range", i);
    }
    VF_REQUIRE(disp::get_default_implementation_a(g) == first, "default-implementation", "");
    const disp::Implementation* impl_2 = nullptr;
    string error;
    bool success = disp::try_pick_implementation({}, g, impl_2, error);
    VF_REQUIRE(success == bool(first) && impl_2 == first && error.empty() == success, "pick-default", error);
    VF_REQUIRE(!disp::try_pick_implementation(std::string_view("foo"), g, impl_2, error) && impl_2 == first && error.find("foo") != string::npos, "pick-unknown", error);
    VF_REQUIRE(!disp::lookup_implementation("SDL") && !disp::lookup_implementation(""), "lookup-unknown", "");
    // Connections must not overlap
    {
        auto conn = sdl().new_connection(std::locale::classic(), {});
        VF_REQUIRE(&conn->get_implementation() == &sdl(), "implementation-of-connection", "");
        VF_REQUIRE(conn->get_num_screens() == 1 && conn->get_default_screen() == 0, "screens", "");
        bool thrown = false;
        try {
            sdl().new_connection(std::locale::classic(), {});
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        VF_REQUIRE(thrown, "overlapping-connections", "");
        disp::Window::Config config;
        config.screen = 1 + int(c.rng.below(3));
        thrown = false;
        try {
            conn->new_window("x", disp::Size(1, 1), config);
        }
        catch (std::invalid_argument&) {
            thrown = true;
        }
        VF_REQUIRE(thrown, "bad-screen", "");
        config.screen = 0;
        config.resizable = c.rng.chance(1, 2);
        disp::Size min(int(c.rng.below(50)), int(c.rng.below(50))), size(1 + int(c.rng.below(50)), 1 + int(c.rng.below(50)));
        if (c.rng.chance(2, 3))
            config.minimum_size = min;
        bool limited = config.resizable && config.minimum_size;
        auto win = conn->new_window("x", size, config);
        SDL_Window* w = SDL_GetWindowFromID(1);
        VF_REQUIRE(w, "window", "");
        auto check = [&](disp::Size s) {
            int size_2[2];
            SDL_GetWindowSize(w, size_2, size_2 + 1);
            int expect[2] = { limited ? std::max(s.width, min.width) : s.width, limited ? std::max(s.height, min.height) : s.height };
            VF_REQUIRE(size_2[0] == expect[0] && size_2[1] == expect[1], "window-size", size_2[0] << " " << size_2[1] << " expected " << expect[0] << " " << expect[1] << " min " << min.width << " " << min.height << " " << limited);
        };
        check(size);
        size = disp::Size(1 + int(c.rng.below(50)), 1 + int(c.rng.below(50)));
        win->set_size(size);
        if (min.width > 0 && min.height > 0) // SDL requires both
            check(size);
        auto hidden = [&](bool is) { VF_EQ(bool(SDL_GetWindowFlags(w) & SDL_WINDOW_HIDDEN), is, "hidden", ""); };
        hidden(true);
        win->show();
        hidden(false);
        win->show();
        hidden(false);
        win->hide();
        hidden(true);
        string title = "abc" + num(c.index);
        win->set_title(title);
        VF_EQ(string(SDL_GetWindowTitle(w)), title, "title", "");
        VF_EQ(bool(SDL_GetWindowFlags(w) & SDL_WINDOW_RESIZABLE), config.resizable, "resizable", "");
        win.reset();
        VF_REQUIRE(!SDL_GetWindowFromID(1), "window-remains", "");
        c.event("connections", 1);
    }
    c.nontrivial(vf::Hash().add(c.rng.next()).get());
}

// Timestamps with few bits, and imprecise second clock
template<class T, int N> void unwrap(vf::Case& c)
{
    using U = disp::impl::TimestampUnwrapper<T, N>;
    U unwrapper;
    using std::chrono::milliseconds;
    std::uint64_t module = std::uint64_t(1) << N;
    std::uint64_t time = c.rng.below(module), origin = 0;
    std::uint64_t start = time;
    typename U::time_point_type base(std::chrono::hours(1 + c.rng.below(1000)));
    typename U::time_point_type now = base;
    vf::Hash sig;
    int n = 2 + int(c.rng.below(40));
    for (int i = 0; i < n; ++i) {
        if (i > 0) {
            std::uint64_t step = c.rng.chance(1, 4) ? c.rng.below(4 * module) : c.rng.chance(1, 2) ? c.rng.below(3) : c.rng.below(module);
            time += step;
            // Second clock deviates by less than half of period, and is monotone
            std::int64_t slack = std::int64_t(module) / 2 - 2;
            std::int64_t dev = slack <= 0 ? 0 : c.rng.chance(1, 3) ? std::int64_t(c.rng.below(std::uint64_t(slack))) : c.rng.chance(1, 2) ? -std::int64_t(c.rng.below(std::uint64_t(slack))) : 0;
            std::int64_t at = std::max<std::int64_t>(0, std::int64_t(time - start) + dev);
            if (at > 4'000'000'000'000)
                break; // Range of clock
            auto next = base + milliseconds(at);
            if (next < now) {
                // Skip rather than going backwards
                if ((now - base) / milliseconds(1) - std::int64_t(time - start) > slack)
                    time = start + std::uint64_t((now - base) / milliseconds(1));
                next = now;
            }
            now = next;
        }
        // The reading of the second clock can be taken either when the session begins, or later
        bool late = c.rng.chance(1, 4);
        typename U::Session session(unwrapper, late ? base : now);
        if (late)
            session.reset_now(now);
        std::uint64_t got = std::uint64_t(session.unwrap_next_timestamp(T(time % module)).count());
        if (i == 0)
            origin = got - time;
        VF_REQUIRE(got - time == origin && origin == 0, "unwrapped", N << " bits: " << got << " expected " << time << " second " << (now - base) / milliseconds(1));
        sig.add(got);
        c.event("unwrapped", 1);
        if (time >= module)
            c.event("wrapped", 1);
    }
    c.nontrivial(sig.add(N).get());
}

VF_MONITOR(d01_unwrap, 8000, 80000)
{
    switch (c.rng.below(6)) {
        case 0: unwrap<std::uint32_t, 32>(c); break;
        case 1: unwrap<unsigned long, 32>(c); break;
        case 2: unwrap<std::uint16_t, 16>(c); break;
        case 3: unwrap<std::uint32_t, 17>(c); break;
        case 4: unwrap<std::uint8_t, 4>(c); break;
        default: unwrap<std::uint64_t, 40>(c);
    }
}
