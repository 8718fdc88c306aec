// D02: Screen configurations as reported by the X11-based implementation, and EDID.

#include "world.hpp"

#include <archon/core/string_buffer_contents.hpp>
#include <archon/core/span.hpp>
#include <archon/display/noinst/edid.hpp>

using namespace d02;

namespace {

struct View {
    string output;
    int x = 0, y = 0, w = 0, h = 0;
    std::optional<string> monitor;
    std::optional<double> horz, vert, rate;
    bool operator==(const View&) const = default;
};

string show(const vector<View>& v)
{
    std::ostringstream out;
    for (const View& e : v)
        out << "[" << e.output << " " << e.x << "," << e.y << " " << e.w << "x" << e.h << " "
            << e.monitor.value_or("-") << " " << e.horz.value_or(-1) << " " << e.vert.value_or(-1) << " "
            << e.rate.value_or(-1) << "]";
    return out.str();
}

vector<unsigned char> make_edid(vf::Rng& rng, const string& name)
{
    vector<unsigned char> v(128, 0);
    for (int i = 1; i < 7; ++i)
        v[std::size_t(i)] = 0xFF;
    for (int i = 8; i < 54; ++i)
        v[std::size_t(i)] = (unsigned char)rng.below(256);
    v[18] = 1;
    v[19] = 4;
    int slot = int(rng.below(4));
    for (int i = 0; i < 4; ++i) {
        unsigned char* p = &v[std::size_t(54 + 18 * i)];
        if (i != slot) {
            bool timing = rng.chance(1, 2);
            for (int j = 0; j < 18; ++j)
                p[j] = (unsigned char)rng.below(256);
            if (timing) {
                bool low = rng.chance(1, 2); // Either byte of the pixel clock may be zero, but not both
                p[low ? 0 : 1] = (unsigned char)(1 + rng.below(255)); // Not a monitor descriptor
                if (rng.chance(1, 2))
                    p[low ? 1 : 0] = 0;
                p[3] = 0xFC;
            }
            else {
                p[0] = p[1] = p[2] = 0;
                p[3] = (rng.chance(1, 2) ? 0xFF : 0xFD);
            }
            continue;
        }
        p[3] = 0xFC;
        for (int j = 0; j < 13; ++j)
            p[5 + j] = (std::size_t(j) < name.size() ? (unsigned char)name[std::size_t(j)] :
                            std::size_t(j) == name.size() ? 0x0A : 0x20);
    }
    unsigned sum = 0;
    for (int i = 0; i < 127; ++i)
        sum += v[std::size_t(i)];
    v[127] = (unsigned char)(256 - sum % 256);
    return v;
}

string random_name(vf::Rng& rng, int max)
{
    string s;
    int n = int(rng.range(0, max));
    for (int i = 0; i < n; ++i)
        s += char(rng.range(33, 126));
    return s;
}

struct Conn : disp::ConnectionEventHandler {
    vector<int> changes;
    int allow = 1000000; // Number of calls until processing is interrupted
    bool on_screen_change(int screen) override
    {
        changes.push_back(screen);
        return (--allow > 0);
    }
};

struct Screens {
    vf::Case& c;
    vf::Rng& rng;
    Sim sim;
    std::unique_ptr<disp::Connection> conn;
    Conn handler;
    XID next_id = 0x1000;
    vector<std::optional<vector<View>>> known; // By client

    Screens(vf::Case& case_)
        : c(case_)
        , rng(case_.rng)
    {
    }

    mock::RandR random_conf()
    {
        mock::RandR r;
        int num_modes = int(rng.range(1, 5));
        for (int i = 0; i < num_modes; ++i) {
            mock::Mode m;
            m.id = next_id++;
            m.clock = (rng.chance(1, 6) ? 0 : ulong(rng.range(1000000, 600000000)));
            m.h = unsigned(rng.range(200, 4000));
            m.v = unsigned(rng.range(200, 3000));
            r.modes.push_back(m);
        }
        int num_crtcs = int(rng.range(1, rng.chance(1, 10) ? 20 : 5));
        for (int i = 0; i < num_crtcs; ++i) {
            mock::Crtc t;
            t.id = next_id++;
            t.x = int(rng.range(-10, 3000));
            t.y = int(rng.range(0, 3000));
            t.w = unsigned(rng.range(100, 4000));
            t.h = unsigned(rng.range(100, 4000));
            t.mode = (rng.chance(1, 5) ? 0 : r.modes[rng.below(r.modes.size())].id);
            t.rotation = Rotation(1 << rng.below(4));
            if (rng.chance(1, 3))
                t.rotation = Rotation(t.rotation | (1 << (4 + rng.below(2))));
            r.crtcs.push_back(t);
        }
        int num_outputs = int(rng.range(0, num_crtcs + 2));
        for (int i = 0; i < num_outputs; ++i) {
            mock::Output o;
            o.id = next_id++;
            o.name = "DP-" + random_name(rng, 12);
            o.connection = ::Connection(rng.below(3));
            o.crtc = (rng.chance(1, 5) ? 0 : r.crtcs[rng.below(r.crtcs.size())].id);
            o.mm_w = (rng.chance(1, 6) ? 0 : ulong(rng.range(10, 1000)));
            o.mm_h = (rng.chance(1, 6) ? 0 : ulong(rng.range(10, 1000)));
            o.foreign_property = rng.chance(1, 2);
            o.has_edid = rng.chance(2, 3);
            if (o.has_edid) {
                o.edid = make_edid(rng, random_name(rng, 13));
                if (rng.chance(1, 3))
                    o.edid.resize(256); // Extension block
                if (rng.chance(1, 6))
                    o.edid.resize(rng.below(128)); // Truncated
                else if (rng.chance(1, 6))
                    o.edid[rng.below(128)] ^= 1; // Bad checksum
                if (rng.chance(1, 8))
                    o.edid_type = XA_STRING;
            }
            r.outputs.push_back(o);
        }
        return r;
    }

    vector<View> expected(const mock::RandR& r)
    {
        vector<View> v;
        for (const mock::Output& o : r.outputs) {
            if (o.connection == RR_Disconnected || o.crtc == 0)
                continue;
            const mock::Crtc* t = nullptr;
            for (const mock::Crtc& u : r.crtcs)
                if (u.id == o.crtc)
                    t = &u;
            if (t->mode == 0)
                continue;
            View e;
            e.output = o.name;
            e.x = t->x;
            e.y = t->y;
            e.w = int(t->w);
            e.h = int(t->h);
            for (const mock::Mode& m : r.modes)
                if (m.id == t->mode && m.clock != 0)
                    e.rate = double(m.clock) / (double(m.h) * m.v);
            if (o.mm_w != 0 && o.mm_h != 0) {
                bool side = ((t->rotation & (RR_Rotate_90 | RR_Rotate_270)) != 0);
                e.horz = t->w / (double(side ? o.mm_h : o.mm_w) / 10);
                e.vert = t->h / (double(side ? o.mm_w : o.mm_h) / 10);
            }
            if (o.has_edid && o.edid.size() >= 128 && o.edid_type == XA_INTEGER) {
                unsigned sum = 0;
                for (int i = 0; i < 128; ++i)
                    sum += o.edid[std::size_t(i)];
                if (sum % 256 == 0)
                    e.monitor = edid_name(o.edid);
            }
            v.push_back(e);
        }
        return v;
    }

    static string edid_name(const vector<unsigned char>& v)
    {
        for (int i = 0; i < 4; ++i) {
            const unsigned char* p = &v[std::size_t(54 + 18 * i)];
            if (p[0] == 0 && p[1] == 0 && p[3] == 0xFC) {
                string s(reinterpret_cast<const char*>(p) + 5, 13);
                return s.substr(0, s.find('\n'));
            }
        }
        return "?";
    }

    static bool close(const vector<View>& a, const vector<View>& b)
    {
        if (a.size() != b.size())
            return false;
        auto eq = [](const std::optional<double>& x, const std::optional<double>& y) {
            return x.has_value() == y.has_value() && (!x || std::abs(*x - *y) <= 1e-9 * std::abs(*y));
        };
        for (std::size_t i = 0; i < a.size(); ++i) {
            const View &x = a[i], &y = b[i];
            if (x.output != y.output || x.x != y.x || x.y != y.y || x.w != y.w || x.h != y.h ||
                x.monitor != y.monitor || !eq(x.horz, y.horz) || !eq(x.vert, y.vert) || !eq(x.rate, y.rate))
                return false;
        }
        return true;
    }

    vector<View> fetch(int screen)
    {
        arc::core::Buffer<disp::Viewport> viewports;
        arc::core::Buffer<char> strings;
        std::size_t n = 1000;
        bool ok = conn->try_get_screen_conf(screen, viewports, strings, n);
        VF_REQUIRE(ok, "d02-screen", "Screen configuration is not available");
        vector<View> v;
        for (std::size_t i = 0; i < n; ++i) {
            const disp::Viewport& p = viewports[i];
            View e;
            e.output = string(p.output_name);
            e.x = p.bounds.pos.x;
            e.y = p.bounds.pos.y;
            e.w = p.bounds.size.width;
            e.h = p.bounds.size.height;
            if (p.monitor_name)
                e.monitor = string(*p.monitor_name);
            if (p.resolution) {
                e.horz = p.resolution->horz_ppcm;
                e.vert = p.resolution->vert_ppcm;
            }
            e.rate = p.refresh_rate;
            v.push_back(e);
        }
        return v;
    }

    void query()
    {
        int screen = int(rng.range(-1, int(sim.server.screens.size()) - 1));
        std::size_t i = std::size_t(std::max(screen, 0));
        if (!known[i]) {
            if (rng.chance(1, 3))
                sim.server.randr_failures = int(rng.below(4));
            if (rng.chance(1, 3))
                sim.server.randr_missing_modes = int(rng.below(4));
            known[i] = expected(sim.server.randr[i]);
        }
        vector<View> v = fetch(screen);
        sim.server.randr_failures = sim.server.randr_missing_modes = 0;
        VF_REQUIRE(close(v, *known[i]), "d02-screen",
                   "Screen " << screen << ":\n" << show(v) << "\nexpected:\n" << show(*known[i]));
        c.event("configurations");
        c.event("viewports", v.size());
    }

    void mutate(mock::RandR& r)
    {
        switch (rng.below(6)) {
            case 0:
                r = random_conf();
                return;
            case 1:
                if (!r.crtcs.empty())
                    r.crtcs[rng.below(r.crtcs.size())].x += int(rng.below(2));
                return;
            case 2:
                if (!r.outputs.empty()) {
                    mock::Output& o = r.outputs[rng.below(r.outputs.size())];
                    o.connection = ::Connection(rng.below(3));
                }
                return;
            case 3:
                if (!r.outputs.empty()) {
                    mock::Output& o = r.outputs[rng.below(r.outputs.size())];
                    o.has_edid = true;
                    o.edid_type = XA_INTEGER;
                    o.edid = make_edid(rng, random_name(rng, 13));
                }
                return;
            case 4:
                if (!r.outputs.empty()) {
                    mock::Output& o = r.outputs[rng.below(r.outputs.size())];
                    o.name = "HDMI-" + random_name(rng, 5);
                    o.mm_w = o.mm_h = ulong(rng.range(0, 300));
                }
                return;
        }
        // No change
    }

    static XEvent notify(XID root, int subtype)
    {
        XEvent ev{};
        auto& e = reinterpret_cast<XRRNotifyEvent&>(ev);
        e.type = 89 + RRNotify;
        e.window = root;
        e.subtype = subtype;
        return ev;
    }

    void change()
    {
        mock::Server& s = sim.server;
        vector<int> want; // Calls
        int n = int(rng.range(1, 4));
        vector<XEvent> events;
        std::size_t num_screens = s.screens.size();
        vector<bool> dirty(num_screens);
        for (int i = 0; i < n; ++i) {
            std::size_t j = rng.below(num_screens);
            if (!known[j])
                continue; // Not yet asked to be notified
            mutate(s.randr[j]);
            int m = int(rng.range(1, 3)); // Changes are usually announced more than once
            for (int k = 0; k < m; ++k)
                events.push_back(notify(s.screens[j].root, int(rng.below(2))));
            if (rng.chance(1, 5))
                events.push_back(notify(s.screens[j].root, RRNotify_OutputProperty));
            dirty[j] = true;
        }
        // The client looks at the configuration when it sees the first announcement
        vector<bool> done(num_screens);
        for (const XEvent& ev : events) {
            const auto& e = reinterpret_cast<const XRRNotifyEvent&>(ev);
            if (e.subtype != RRNotify_CrtcChange && e.subtype != RRNotify_OutputChange)
                continue;
            std::size_t j = std::size_t(s.screen_of_root(e.window));
            if (done[j])
                continue;
            done[j] = true;
            vector<View> v = expected(s.randr[j]);
            if (v != *known[j]) {
                known[j] = v;
                want.push_back(int(j));
            }
        }
        if (rng.chance(1, 3))
            s.later.push_back(events);
        else
            s.wire.insert(s.wire.end(), events.begin(), events.end());
        if (rng.chance(1, 4) && !events.empty())
            s.randr_failures = int(rng.below(5));
        handler.changes.clear();
        std::size_t expected_calls = want.size();
        bool interrupt = (expected_calls > 0 && rng.chance(1, 3));
        std::size_t first = (interrupt ? 1 + rng.below(expected_calls) : 1000000);
        handler.allow = int(first);
        int rounds = 0;
        bool interrupted = false;
        while (rounds++ < 10000) {
            auto deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(2);
            bool ok = conn->process_events_a(deadline);
            if (!ok) {
                VF_REQUIRE(interrupt && !interrupted && handler.changes.size() == first, "d02-interrupt",
                           "Unexpected interruption after " << handler.changes.size() << " calls");
                interrupted = true;
                handler.allow = 1000000;
                continue;
            }
            // On a busy machine, the deadline may expire before everything is processed
            if (s.wire.empty() && s.queue.empty() && s.later.empty())
                break;
        }
        VF_EQ(interrupted, interrupt, "d02-interrupt", "Event processing should be interrupted by on_screen_change()");
        VF_REQUIRE(handler.changes == want, "d02-screen-change",
                   "Got " << handler.changes.size() << " calls, expected " << want.size());
        if (interrupted)
            c.event("interruptions");
        c.event("changes", want.size());
        c.event("announcements", events.size());
        s.randr_failures = 0;
    }

    void run()
    {
        mock::Server& s = sim.server;
        int n = int(rng.range(1, 3));
        sim.plain(n);
        for (auto& r : s.randr)
            r = random_conf();
        s.synchronous = false;
        disp::Connection::Config config;
        string error;
        bool ok = x11().try_new_connection(std::locale::classic(), config, conn, error);
        VF_REQUIRE(ok, "d02-connect", error);
        conn->set_event_handler(handler);
        known.resize(std::size_t(n));
        int steps = int(rng.range(4, 20));
        for (int i = 0; i < steps; ++i) {
            if (rng.chance(1, 2))
                query();
            else
                change();
            check_errors("Screens");
        }
        bool threw = false;
        try {
            fetch(n);
        }
        catch (std::invalid_argument&) {
            threw = true;
        }
        VF_REQUIRE(threw, "d02-screen", "Bad screen index");
        conn.reset();
        check_errors("Close");
        check_leaks();
        vf::Hash h;
        for (auto& k : known)
            if (k)
                h.add(show(*k));
        c.nontrivial(h.get());
        c.sample([&](std::ostream& out) {
            for (auto& k : known)
                if (k)
                    out << show(*k) << "\n";
        });
    }
};

} // unnamed namespace

VF_MONITOR(d02_screens, 1500, 40000)
{
    Screens s(c);
    s.run();
}

VF_MONITOR(d02_edid, 2000, 60000)
{
    namespace impl = archon::display::impl;
    std::locale loc = std::locale::classic();
    impl::EdidParser parser(loc);
    vf::Hash h;
    for (int i = 0; i < 20; ++i) {
        string name = random_name(c.rng, 13);
        vector<unsigned char> v = make_edid(c.rng, name);
        bool good = true;
        string prefix(c.rng.below(40), 'p');
        switch (c.rng.below(4)) {
            case 0: // Arbitrary bytes
                v.resize(c.rng.below(300));
                for (unsigned char& b : v)
                    b = (unsigned char)c.rng.below(256);
                if (v.size() >= 128) {
                    v[18] = 1;
                    v[19] = 4;
                    unsigned sum = 0;
                    for (int j = 0; j < 127; ++j)
                        sum += v[std::size_t(j)];
                    v[127] = (unsigned char)(256 - sum % 256);
                    c.event("arbitrary");
                }
                good = false;
                break;
            case 1:
                v.resize(c.rng.below(128));
                good = false;
                break;
        }
        // Exact allocation
        std::unique_ptr<char[]> mem(new char[v.size()]);
        std::copy(v.begin(), v.end(), mem.get());
        std::array<char, 4> seed = {};
        arc::core::Buffer<char> buffer(seed);
        arc::core::StringBufferContents strings(buffer);
        strings.append(prefix);
        impl::EdidInfo info = {};
        bool ok = parser.parse(arc::core::Span<const char>(mem.get(), v.size()), info, strings);
        if (v.size() < 128)
            VF_REQUIRE(!ok, "d02-edid", "Truncated block was accepted");
        if (good) {
            VF_REQUIRE(ok && info.major == 1 && info.minor == 4 && info.monitor_name.has_value(), "d02-edid",
                       "Valid block was not accepted");
            VF_EQ(string(info.monitor_name->resolve_string(strings.data())), name, "d02-edid", "Name of monitor");
            VF_EQ(strings.size(), prefix.size() + name.size(), "d02-edid", "Size of string data");
            VF_EQ(string(strings.data(), prefix.size()), prefix, "d02-edid", "Preceding strings");
            c.event("names");
        }
        h.add(name);
    }
    c.nontrivial(h.get());
}
