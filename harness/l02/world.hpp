// Random compositions of loggers (narrow and wide) against a model of what each destination
// receives.

#ifndef VERIF_L02_WORLD_HPP
#define VERIF_L02_WORLD_HPP

#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <locale>
#include <sstream>
#include <vector>
#include <archon/core/file.hpp>
#include <archon/log.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/encoding_logger.hpp>
#include <archon/log/jail_logger.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/timestamp_logger.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

// ---------------------------------------------------------------- Model

struct Lim {
    int value = int(log::LogLevel::all);
    std::shared_ptr<Lim> a, b;
    int get() const { return a ? std::max(a->get(), b->get()) : value; }
};

using LimP = std::shared_ptr<Lim>;

struct Sink;
using SinkP = std::shared_ptr<Sink>;

struct Sink {
    enum Kind { root, limit, dup, enc, null } kind = root;
    std::string* out = nullptr;
    LimP lim;
    std::string p1, p2;
    SinkP s1, s2;

    void emit(int level, const std::string& cp, const std::string& mp, const std::string& msg)
    {
        switch (kind) {
            case root: {
                const char* label = level == 1 ? "FATAL: " : level == 2 ? "ERROR: " : level == 3 ? "WARNING: " : "";
                std::size_t i = 0;
                for (;;) {
                    std::size_t j = msg.find('\n', i);
                    *out += cp + mp + label + msg.substr(i, j == std::string::npos ? j : j - i) + "\n";
                    if (j == std::string::npos)
                        break;
                    i = j + 1;
                }
                break;
            }
            case limit:
                if (level <= lim->get())
                    s1->emit(level, cp, mp, msg);
                break;
            case dup:
                s1->emit(level, p1 + cp, mp, msg);
                s2->emit(level, p2 + cp, mp, msg);
                break;
            case enc:
                s1->emit(level, p1 + p2 + cp, mp, msg);
                break;
            case null:
                break;
        }
    }
};

struct Chan {
    std::string prefix;
    LimP lim;
    SinkP sink;
};

struct Model {
    std::string prefix;
    std::map<std::string, Chan> channels;
    std::string selected;
    Chan sel() const { return channels.at(selected); }
};

bool glob(const std::string& p, const std::string& s)
{
    std::vector<char> cur(s.size() + 1, 0), next;
    cur[0] = 1;
    for (char ch : p) {
        next.assign(s.size() + 1, 0);
        char any = 0;
        for (std::size_t i = 0; i <= s.size(); ++i) {
            if (ch == '*')
                next[i] = any = char(any | cur[i]);
            else if (i < s.size() && s[i] == ch)
                next[i + 1] = cur[i];
        }
        cur.swap(next);
    }
    return cur[s.size()];
}

// ---------------------------------------------------------------- Real objects

template<class C> std::basic_string<C> conv(const std::string& s);
template<> std::string conv<char>(const std::string& s) { return s; }
template<> std::wstring conv<wchar_t>(const std::string& s)
{
    // UTF-8 with sequences of at most 2 bytes
    std::wstring r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        auto b = static_cast<unsigned char>(s[i]);
        if (b < 0x80)
            r += wchar_t(b);
        else
            r += wchar_t((b & 0x1f) << 6 | (static_cast<unsigned char>(s[++i]) & 0x3f));
    }
    return r;
}

std::string unconv(const std::string& s) { return s; }
std::string unconv(const std::wstring& s)
{
    std::string r;
    for (wchar_t w : s) {
        if (w < 0x80) {
            r += char(w);
        }
        else {
            r += char(0xc0 | (w >> 6));
            r += char(0x80 | (w & 0x3f));
        }
    }
    return r;
}

struct Probe {
    int* count;
    const std::string* text;
};
template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& out, const Probe& p)
{
    ++*p.count;
    return out << conv<C>(*p.text);
}

template<class C> struct Node {
    log::BasicLogger<C>* logger;
    Model model;
    log::BasicLimitLogger<C>* variable = nullptr; // Limit can be changed
    LimP var_lim;
    std::string desc;
};

struct Dest {
    std::string expect;
    std::function<std::string()> actual;
};

struct Timestamped {};

struct World {
    vf::Case& c;
    std::locale loc;
    std::vector<std::unique_ptr<Dest>> dests;
    std::vector<std::shared_ptr<void>> keep; // Destroyed in reverse order
    std::vector<Node<char>> narrow;
    std::vector<Node<wchar_t>> wide;
    std::string descr;

    // BasicLogger::get_null() uses the classic locale, so only ASCII can be encoded there
    bool ascii;
    std::string ts_format = "ts ", ts_model = "ts "; // Format of all timestamp loggers, and its result

    explicit World(vf::Case& c_) : c(c_), loc("C.UTF-8"), ascii(c_.rng.chance(1, 3)) {}
    ~World()
    {
        while (!keep.empty())
            keep.pop_back();
    }

    template<class C> std::vector<Node<C>>& nodes()
    {
        if constexpr (std::is_same_v<C, char>)
            return narrow;
        else
            return wide;
    }

    template<class T, class... A> T& make(A&&... a)
    {
        auto p = std::make_shared<T>(std::forward<A>(a)...);
        keep.push_back(p);
        return *p;
    }

    std::string text(std::size_t max)
    {
        static const char* bits[] = { "a", "b", "x y", ":", "\xc3\xa6", "%", "7", "-" };
        std::string s;
        for (std::size_t i = c.rng.below(max + 1); i > 0; --i)
            {
            std::size_t j = c.rng.below(8);
            s += bits[ascii && j == 4 ? 0 : j];
        }
        return s;
    }

    std::string channel_name()
    {
        static const char* names[] = { "", "a", "ab", "b", "abc", "a.b" };
        return names[c.rng.below(6)];
    }

    template<class C> void add(log::BasicLogger<C>& l, Model m, std::string d, log::BasicLimitLogger<C>* v = nullptr, LimP lim = {})
    {
        std::string tag = (sizeof(C) == 1 ? "n" : "w") + std::to_string(nodes<C>().size());
        descr += tag + "=" + d + "; ";
        nodes<C>().push_back({ &l, std::move(m), v, std::move(lim), d });
    }

    template<class C> Node<C> pick() { return nodes<C>()[c.rng.below(nodes<C>().size())]; }
    template<class C> std::string tag_of(const Node<C>& n)
    {
        for (std::size_t i = 0; i < nodes<C>().size(); ++i)
            if (nodes<C>()[i].logger == n.logger)
                return (sizeof(C) == 1 ? "n" : "w") + std::to_string(i);
        return "?";
    }

    Model root_model(std::string* out)
    {
        Model m;
        auto s = std::make_shared<Sink>();
        s->out = out;
        m.channels[""] = { "", std::make_shared<Lim>(), s };
        return m;
    }

    template<class C> void add_root()
    {
        auto d = std::make_unique<Dest>();
        Model m = root_model(&d->expect);
        switch (c.rng.below(4)) {
            case 0:
            case 1: {
                auto& out = make<std::basic_ostringstream<C>>();
                out.imbue(loc);
                d->actual = [&out] { return unconv(out.str()); };
                auto& l = make<log::BasicStreamLogger<C>>(out);
                add<C>(l, m, "stream");
                break;
            }
            case 2: {
                std::string path = c.tmp_dir + "/log" + std::to_string(dests.size()) + "_" + std::to_string(c.index);
                std::remove(path.c_str());
                d->actual = [path] {
                    std::ifstream in(path);
                    std::ostringstream o;
                    o << in.rdbuf();
                    return o.str();
                };
                std::filesystem::path p = path;
                if (c.rng.chance(1, 2)) {
                    typename log::BasicFileLogger<C>::Config cfg;
                    auto& l = make<log::BasicFileLogger<C>>(p, loc, std::move(cfg));
                    add<C>(l, m, "file");
                }
                else {
                    typename log::BasicTimestampFileLogger<C>::Config cfg;
                    cfg.format = ts_format;
                    auto& l = make<log::BasicTimestampFileLogger<C>>(p, loc, std::move(cfg));
                    m.prefix = ts_model;
                    add<C>(l, m, "tsfile");
                }
                auto rm = std::shared_ptr<void>(nullptr, [path](void*) { std::remove(path.c_str()); });
                keep.push_back(rm);
                break;
            }
            default: {
                m.channels[""].sink->kind = Sink::null;
                m.channels[""].lim->value = 0;
                d->actual = [] { return std::string(); };
                if (!ascii || c.rng.chance(1, 2))
                    add<C>(make<log::BasicNullLogger<C>>(loc), m, "null");
                else
                    add<C>(log::BasicLogger<C>::get_null(), m, "get_null");
                break;
            }
        }
        dests.push_back(std::move(d));
    }

    template<class C> void derive()
    {
        using S = std::basic_string<C>;
        Node<C> b = pick<C>();
        Node<C> t = pick<C>();
        Model m = b.model;
        std::string on = "(" + tag_of(b) + ")";
        switch (c.rng.below(11)) {
            case 0: {
                auto& l = make<log::BasicLogger<C>>(*b.logger);
                add<C>(l, m, "copy" + on);
                break;
            }
            case 1: {
                std::string n = channel_name();
                if (!m.channels.count(n)) {
                    reject("channel", [&] { log::BasicLogger<C> l(*b.logger, n); });
                    break;
                }
                m.selected = n;
                add<C>(make<log::BasicLogger<C>>(*b.logger, n), m, "select" + on + n);
                break;
            }
            case 2:
            case 3: {
                std::string p = text(3), n = channel_name();
                bool sel = m.channels.count(n) && c.rng.chance(1, 2);
                m.prefix += p;
                if (sel) {
                    m.selected = n;
                    add<C>(make<log::BasicPrefixLogger<C>>(*b.logger, std::basic_string_view<C>(conv<C>(p)), n), m, "prefix" + on + p + "@" + n);
                }
                else if (p.find('\xc3') == p.npos && c.rng.chance(1, 2)) {
                    add<C>(make<log::BasicPrefixLogger<C>>(*b.logger, p.c_str()), m, "prefix" + on + p);
                }
                else {
                    S q = conv<C>(p);
                    add<C>(make<log::BasicPrefixLogger<C>>(*b.logger, std::move(q)), m, "prefix" + on + p);
                }
                break;
            }
            case 4:
            case 5: {
                static const char* pats[] = { "*", "a*", "", "b", "*b*", "a.b", "*c" };
                std::string pat = pats[c.rng.chance(1, 2) ? 0 : c.rng.below(7)];
                bool any = false;
                auto lim = std::make_shared<Lim>();
                bool fixed = c.rng.chance(1, 2);
                lim->value = fixed ? int(c.rng.below(9)) : int(log::LogLevel::info);
                for (auto& e : m.channels) {
                    if (!glob(pat, e.first))
                        continue;
                    any = true;
                    auto s = std::make_shared<Sink>();
                    s->kind = Sink::limit;
                    s->lim = lim;
                    s->s1 = e.second.sink;
                    e.second.sink = s;
                    e.second.lim = lim;
                }
                if (!any) {
                    reject("limit", [&] { log::BasicLimitLogger<C> l(*b.logger, pat); });
                    break;
                }
                if (fixed) {
                    add<C>(make<log::BasicLimitLogger<C>>(*b.logger, log::LogLevel(lim->value), pat), m, "limit" + on + pat + "=" + std::to_string(lim->value));
                }
                else {
                    auto& l = pat == "*" && c.rng.chance(1, 2) ? make<log::BasicLimitLogger<C>>(*b.logger) : make<log::BasicLimitLogger<C>>(*b.logger, pat);
                    add<C>(l, m, "vlimit" + on + pat, &l, lim);
                }
                break;
            }
            case 6: {
                typename log::BasicTimestampLogger<C>::Config cfg;
                cfg.format = ts_format;
                cfg.utc_time = c.rng.chance(1, 2);
                m.prefix += ts_model;
                add<C>(make<log::BasicTimestampLogger<C>>(*b.logger, std::move(cfg)), m, "ts" + on);
                break;
            }
            case 7:
            case 8: {
                for (auto& e : m.channels)
                    e.second.prefix += b.model.prefix;
                m.prefix.clear();
                std::string d = "channel" + on;
                using Rule = typename log::BasicChannelLogger<C>::Rule;
                std::vector<Rule> rules;
                std::vector<std::string> names(c.rng.below(4));
                bool single = c.rng.chance(1, 2);
                if (single)
                    names.resize(1);
                for (std::string& n : names) {
                    n = channel_name();
                    Node<C> t2 = single ? t : pick<C>();
                    std::string tc = t2.model.selected;
                    if (!single && c.rng.chance(1, 2)) {
                        std::string k = channel_name();
                        if (t2.model.channels.count(k)) {
                            tc = k;
                            rules.push_back(Rule(n, *t2.logger, k));
                        }
                        else {
                            reject("rule", [&] { Rule r(n, *t2.logger, k); });
                            rules.push_back(Rule(n, *t2.logger));
                        }
                    }
                    else if (!single) {
                        rules.push_back(Rule(n, *t2.logger));
                    }
                    Chan ch = t2.model.channels.at(tc);
                    ch.prefix += t2.model.prefix;
                    m.channels[n] = ch;
                    d += " " + n + "->" + tag_of(t2) + "/" + tc;
                }
                if (single)
                    add<C>(make<log::BasicChannelLogger<C>>(*b.logger, names[0], *t.logger), m, d);
                else
                    add<C>(make<log::BasicChannelLogger<C>>(*b.logger, core::Span<const Rule>(rules.data(), rules.size())), m, d);
                break;
            }
            case 9: {
                for (auto& e : m.channels)
                    e.second.prefix += b.model.prefix;
                m.prefix.clear();
                std::string d = "dup" + on;
                using Rule = typename log::BasicDuplicatingLogger<C>::Rule;
                std::vector<Rule> rules;
                int mode = int(c.rng.below(3));
                std::vector<std::string> names;
                if (mode == 0) {
                    names.push_back(m.selected);
                }
                else {
                    for (auto& e : m.channels)
                        if (c.rng.chance(1, 2))
                            names.push_back(e.first);
                    if (mode == 1 && names.empty())
                        names.push_back(m.selected);
                    if (mode == 1)
                        names.resize(1);
                    std::string n = channel_name();
                    if (!m.channels.count(n))
                        reject("dup", [&] { log::BasicDuplicatingLogger<C> l(*b.logger, n, *t.logger); });
                }
                for (const std::string& n : names) {
                    Node<C> t2 = mode < 2 ? t : pick<C>();
                    std::string tc = t2.model.selected;
                    if (mode == 2) {
                        std::string k = channel_name();
                        if (t2.model.channels.count(k)) {
                            tc = k;
                            rules.push_back(Rule(n, *t2.logger, k));
                        }
                        else {
                            rules.push_back(Rule(n, *t2.logger));
                        }
                    }
                    Chan ch2 = t2.model.channels.at(tc);
                    Chan& ch = m.channels[n];
                    auto s = std::make_shared<Sink>();
                    s->kind = Sink::dup;
                    s->p1 = ch.prefix;
                    s->s1 = ch.sink;
                    s->p2 = ch2.prefix + t2.model.prefix;
                    s->s2 = ch2.sink;
                    auto lim = std::make_shared<Lim>();
                    lim->a = ch.lim;
                    lim->b = ch2.lim;
                    ch = { "", lim, s };
                    d += " " + n + "->" + tag_of(t2) + "/" + tc;
                }
                if (mode == 0)
                    add<C>(make<log::BasicDuplicatingLogger<C>>(*b.logger, *t.logger), m, d);
                else if (mode == 1)
                    add<C>(make<log::BasicDuplicatingLogger<C>>(*b.logger, names[0], *t.logger), m, d);
                else
                    add<C>(make<log::BasicDuplicatingLogger<C>>(*b.logger, core::Span<const Rule>(rules.data(), rules.size())), m, d);
                break;
            }
            default: {
                // Jail
                std::string n = c.rng.chance(1, 2) ? m.selected : channel_name();
                if (!m.channels.count(n)) {
                    reject("jail", [&] { log::BasicJailLogger<C> l(*b.logger, n); });
                    break;
                }
                Chan ch = m.channels.at(n);
                ch.prefix += m.prefix;
                Model m2;
                m2.channels[""] = ch;
                bool sel = n == m.selected && c.rng.chance(1, 2);
                if (sel)
                    add<C>(make<log::BasicJailLogger<C>>(*b.logger), m2, "jail" + on);
                else
                    add<C>(make<log::BasicJailLogger<C>>(*b.logger, n), m2, "jail" + on + n);
                break;
            }
        }
    }

    template<class C> void encode()
    {
        if (narrow.empty())
            return;
        Node<char> b = pick<char>();
        if constexpr (std::is_same_v<C, wchar_t>) {
            Chan ch = b.model.sel();
            auto s = std::make_shared<Sink>();
            s->kind = Sink::enc;
            s->p1 = ch.prefix;
            s->p2 = b.model.prefix;
            s->s1 = ch.sink;
            Model m;
            m.selected = b.model.selected;
            m.channels[m.selected] = { "", ch.lim, s };
            add<C>(make<log::BasicEncodingLogger<C>>(*b.logger), m, "enc(" + tag_of(b) + ")");
        }
        else {
            // Degenerate
            add<C>(make<log::BasicEncodingLogger<C>>(*b.logger), b.model, "enc(" + tag_of(b) + ")");
        }
    }

    template<class F> void reject(const char* what, F&& f)
    {
        bool thrown = false;
        try {
            f();
        }
        catch (const std::invalid_argument&) {
            thrown = true;
        }
        VF_REQUIRE(thrown, "missing_channel_not_rejected", what << " on " << descr);
        c.event("rejected");
    }

    void compare(const std::string& what)
    {
        for (std::size_t i = 0; i < dests.size(); ++i) {
            std::string a = dests[i]->actual();
            VF_REQUIRE(a == dests[i]->expect, "destination_text", "destination " << i << " after " << what << "\n" << descr << "\ngot:\n" << a << "\nexpected:\n" << dests[i]->expect);
        }
    }

    template<class C> void message()
    {
        if (nodes<C>().empty())
            return;
        Node<C> n = pick<C>();
        if (n.variable && c.rng.chance(1, 2)) {
            int v = int(c.rng.below(9));
            n.var_lim->value = v;
            n.variable->set_log_level_limit(log::LogLevel(v));
            c.event("limit_changed");
            n = pick<C>();
        }
        int level = 1 + int(c.rng.below(7));
        auto lv = log::LogLevel(level);
        Chan ch = n.model.sel();
        int lim = ch.lim->get();
        bool will = level <= lim;
        std::string what = "logger " + tag_of(n) + " level " + std::to_string(level);
        auto ctx = [&](std::ostream& o) { o << what << " on " << descr; };
        int real_limit = int(n.logger->get_log_level_limit());
        VF_EQ(real_limit, lim, "effective_limit", ctx);
        VF_EQ(n.logger->will_log(lv), will, "will_log", ctx);
        // Channels
        for (const char* k : { "", "a", "ab", "b", "abc", "a.b", "zz" }) {
            bool found = true;
            try {
                const auto& f = n.logger->find_channel(k);
                VF_REQUIRE(f.get_name() == k, "find_channel", ctx);
            }
            catch (const std::invalid_argument&) {
                found = false;
            }
            VF_EQ(found, n.model.channels.count(k) != 0, "channel_set", ctx);
        }
        VF_REQUIRE(n.logger->get_channel().get_name() == n.model.selected, "selected_channel", ctx);
        int count = 0;
        std::string body = text(6);
        for (int k = int(c.rng.below(c.rng.chance(1, 3) ? 4 : 1)); k > 0; --k)
            body += "\n" + text(4);
        if (c.rng.chance(1, 40))
            body += std::string(c.rng.below(6000), 'L');
        Probe p { &count, &body };
        std::string msg = "<" + body + ">%";
        using V = std::basic_string_view<C>;
        std::basic_string<C> f = conv<C>("<%s>%%");
        bool by_level = c.rng.chance(1, 2);
        bool cstr = c.rng.chance(1, 2);
        if (by_level) {
            if (cstr)
                n.logger->log(lv, "<%s>%%", p);
            else
                n.logger->log(lv, V(f), p);
        }
        else {
            auto& l = *n.logger;
            switch (level) {
                case 1: cstr ? l.fatal("<%s>%%", p) : l.fatal(V(f), p); break;
                case 2: cstr ? l.error("<%s>%%", p) : l.error(V(f), p); break;
                case 3: cstr ? l.warn("<%s>%%", p) : l.warn(V(f), p); break;
                case 4: cstr ? l.info("<%s>%%", p) : l.info(V(f), p); break;
                case 5: cstr ? l.detail("<%s>%%", p) : l.detail(V(f), p); break;
                case 6: cstr ? l.debug("<%s>%%", p) : l.debug(V(f), p); break;
                default: cstr ? l.trace("<%s>%%", p) : l.trace(V(f), p); break;
            }
        }
        if (will)
            ch.sink->emit(level, ch.prefix, n.model.prefix, msg);
        else
            VF_EQ(count, 0, "suppressed_but_formatted", ctx);
        VF_REQUIRE(count <= 1, "formatted_more_than_once", ctx);
        compare(what);
        c.event(will ? "logged" : "suppressed");
    }
};

} // unnamed namespace

#endif
