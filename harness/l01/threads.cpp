// Many threads logging through a random composition of loggers (the model of L02), with limits being
// changed meanwhile. Every destination must consist of whole messages, each the expected number of
// times, those of one thread in order.

#include <atomic>
#include <barrier>
#include <thread>
#include "../l02/world.hpp"

namespace {

struct Msg {
    int logger;
    bool is_wide;
    bool ephemeral; // Through a short-lived prefix logger of the thread
    int level;
    std::string text;
    std::vector<std::vector<std::string>> may; // Per destination: blocks at highest limits
    std::vector<std::size_t> must;             // Per destination: number of blocks at lowest limits
};

bool ts_char(char ch) { return (ch >= '0' && ch <= '9') || ch == '-' || ch == ':' || ch == 'T' || ch == '+' || ch == 'Z'; }

// '\1' in the pattern stands for a character of a timestamp
bool match_at(const std::string& s, std::size_t pos, const std::string& pat)
{
    if (s.size() - pos < pat.size())
        return false;
    for (std::size_t i = 0; i < pat.size(); ++i)
        if (pat[i] == '\1' ? !ts_char(s[pos + i]) : pat[i] != s[pos + i])
            return false;
    return true;
}

template<class C> void emit_real(log::BasicLogger<C>& l, const Msg& m)
{
    if (m.ephemeral) {
        log::BasicPrefixLogger<C> p(l, "eph ");
        log::BasicLogger<C> q(p);
        q.log(log::LogLevel(m.level), "%s", conv<C>(m.text));
    }
    else {
        l.log(log::LogLevel(m.level), "%s", conv<C>(m.text));
    }
}

} // unnamed namespace

VF_MONITOR(threads, 4000, 60000)
{
    World w(c);
    bool real_ts = c.rng.chance(1, 2);
    if (real_ts) {
        w.ts_format = c.rng.chance(1, 2) ? "%FT%T " : "%F %H:%M ";
        w.ts_model = w.ts_format == "%FT%T " ? std::string(19, '\1') + " " : std::string(10, '\1') + " " + std::string(5, '\1') + " ";
    }
    int kind = int(c.rng.below(3));
    std::size_t roots = 1 + c.rng.below(2);
    for (std::size_t i = 0; i < roots; ++i) {
        if (kind == 1)
            w.add_root<wchar_t>();
        else
            w.add_root<char>();
    }
    if (kind == 2)
        w.encode<wchar_t>();
    std::size_t n = c.rng.below(9);
    for (std::size_t i = 0; i < n; ++i) {
        if (kind == 0 || (kind == 2 && c.rng.chance(1, 3)))
            w.derive<char>();
        else
            w.derive<wchar_t>();
        if (kind == 2 && c.rng.chance(1, 8))
            w.encode<wchar_t>();
    }
    auto for_limits = [&](auto&& f) {
        for (auto& x : w.narrow)
            if (x.variable)
                f(*x.variable, *x.var_lim);
        for (auto& x : w.wide)
            if (x.variable)
                f(*x.variable, *x.var_lim);
    };
    // Range of each variable limit during the run
    std::map<Lim*, std::pair<int, int>> range;
    for_limits([&](auto& l, Lim& lim) {
        int lo = int(c.rng.below(9));
        int hi = c.rng.chance(1, 2) ? lo : lo + int(c.rng.below(std::size_t(9 - lo)));
        range[&lim] = { lo, hi };
        l.set_log_level_limit(log::LogLevel(lo));
    });
    int num_threads = 2 + int(c.rng.below(6));
    int per_thread = 1 + int(c.rng.below(c.rng.chance(1, 4) ? 60 : 15));
    std::vector<std::vector<Msg>> plan(static_cast<std::size_t>(num_threads));
    std::size_t total = 0;
    for (int t = 0; t < num_threads; ++t) {
        for (int s = 0; s < per_thread; ++s) {
            Msg m;
            m.is_wide = !w.wide.empty() && (w.narrow.empty() || c.rng.chance(1, 2));
            m.logger = int(c.rng.below(m.is_wide ? w.wide.size() : w.narrow.size()));
            m.ephemeral = c.rng.chance(1, 4);
            m.level = 1 + int(c.rng.below(7));
            m.text = "<" + std::to_string(t) + "." + std::to_string(s) + ">" + w.text(4);
            for (int k = int(c.rng.below(c.rng.chance(1, 3) ? 4 : 1)); k > 0; --k)
                m.text += "\n" + w.text(3);
            if (c.rng.chance(1, 30))
                m.text += std::string(c.rng.below(5000), 'L');
            auto predict = [&](bool high) {
                for_limits([&](auto&, Lim& lim) { lim.value = high ? range[&lim].second : range[&lim].first; });
                for (auto& d : w.dests)
                    d->expect.clear();
                const Model& mo = m.is_wide ? w.wide[std::size_t(m.logger)].model : w.narrow[std::size_t(m.logger)].model;
                Chan ch = mo.sel();
                if (m.level <= ch.lim->get())
                    ch.sink->emit(m.level, ch.prefix, mo.prefix + (m.ephemeral ? "eph " : ""), m.text);
            };
            auto blocks = [&] {
                // Each block is one copy of the message with the prefixes of one path, and the lines
                // of a block differ from each other only after the prefix
                std::vector<std::vector<std::string>> r;
                std::size_t lines = 1 + std::size_t(std::count(m.text.begin(), m.text.end(), '\n'));
                for (auto& d : w.dests) {
                    std::vector<std::string> b;
                    std::size_t i = 0;
                    while (i < d->expect.size()) {
                        std::size_t j = i;
                        for (std::size_t k = 0; k < lines; ++k)
                            j = d->expect.find('\n', j) + 1;
                        b.push_back(d->expect.substr(i, j - i));
                        i = j;
                    }
                    r.push_back(std::move(b));
                }
                return r;
            };
            predict(false);
            for (auto& b : blocks())
                m.must.push_back(b.size());
            predict(true);
            m.may = blocks();
            for (auto& b : m.may)
                total += b.size();
            plan[std::size_t(t)].push_back(std::move(m));
        }
    }
    std::atomic<int> running = num_threads;
    std::atomic<int> errors = 0;
    std::barrier start(num_threads + 1);
    std::vector<std::thread> threads;
    for (int t = 0; t < num_threads; ++t) {
        threads.emplace_back([&, t] {
            start.arrive_and_wait();
            try {
                for (const Msg& m : plan[std::size_t(t)]) {
                    if (m.is_wide)
                        emit_real(*w.wide[std::size_t(m.logger)].logger, m);
                    else
                        emit_real(*w.narrow[std::size_t(m.logger)].logger, m);
                }
            }
            catch (...) {
                errors++;
            }
            running--;
        });
    }
    start.arrive_and_wait();
    std::size_t toggles = 0;
    while (running > 0) {
        for_limits([&](auto& l, Lim& lim) {
            auto [lo, hi] = range[&lim];
            if (lo < hi) {
                l.set_log_level_limit(log::LogLevel(c.rng.range(lo, hi)));
                ++toggles;
            }
        });
        std::this_thread::yield();
    }
    for (auto& t : threads)
        t.join();
    VF_EQ(errors.load(), 0, "exception_in_thread", w.descr);

    std::uint64_t order = 0;
    std::size_t switches = 0, delivered = 0;
    for (std::size_t d = 0; d < w.dests.size(); ++d) {
        std::string text = w.dests[d]->actual();
        std::vector<int> last(std::size_t(num_threads), -1);
        std::map<std::pair<int, int>, std::vector<char>> used;
        std::size_t pos = 0;
        int prev = -1;
        vf::Hash h;
        while (pos < text.size()) {
            std::size_t a = text.find('<', pos), e = text.find('\n', pos);
            auto ctx = [&](std::ostream& o) {
                o << "destination " << d << " of " << w.descr << "\nat offset " << pos << ":\n" << text.substr(pos, 400);
            };
            VF_REQUIRE(e != text.npos, "unterminated_line", ctx);
            VF_REQUIRE(a != text.npos && a < e, "line_without_message_start", ctx);
            int t = -1, s = -1;
            VF_REQUIRE(std::sscanf(text.c_str() + a, "<%d.%d>", &t, &s) == 2 && t >= 0 && t < num_threads && s >= 0 && s < per_thread, "mangled_message", ctx);
            const Msg& m = plan[std::size_t(t)][std::size_t(s)];
            auto& u = used[{ t, s }];
            u.resize(m.may[d].size());
            std::size_t k = 0;
            // The longest match first is not needed: blocks of one message end at the same line
            while (k < u.size() && (u[k] || !match_at(text, pos, m.may[d][k])))
                ++k;
            VF_REQUIRE(k < u.size(), "unexpected_or_torn_message", ctx);
            u[k] = 1;
            VF_REQUIRE(s >= last[std::size_t(t)], "messages_of_thread_out_of_order", ctx);
            last[std::size_t(t)] = s;
            pos += m.may[d][k].size();
            ++delivered;
            if (prev != t)
                ++switches;
            prev = t;
            h.add(t);
        }
        order ^= h.get() * (d + 1);
        for (int t = 0; t < num_threads; ++t) {
            for (int s = 0; s < per_thread; ++s) {
                const Msg& m = plan[std::size_t(t)][std::size_t(s)];
                auto& u = used[{ t, s }];
                auto got = std::size_t(std::count(u.begin(), u.end(), 1));
                VF_REQUIRE(got >= m.must[d], "message_lost", "message " << t << "." << s << " (level " << m.level << ") arrived " << got << " times, at least " << m.must[d] << " expected, destination " << d << " of " << w.descr);
            }
        }
    }
    c.event("delivered", delivered);
    c.event("thread_switches_in_destination", switches);
    c.event("limit_toggles", toggles);
    c.event("possible", total);
    if (delivered > 0 && switches > 1)
        c.nontrivial(vf::Hash().add(w.descr).add(order).get());
    c.event(kind == 0 ? "narrow" : kind == 1 ? "wide" : "mixed");
    c.sample([&](std::ostream& o) { o << num_threads << " threads: " << w.descr; });
}
