#include "cli.hpp"

#include <algorithm>

namespace m {

namespace {

const std::vector<std::string> keyword_pool = { "foo", "bar", "baz", "qux", "add", "rm", "x1", "list" };
const std::vector<std::string> option_pool = { "-x", "-y", "-z", "--long", "--lo", "-l", "--with-dash", "-1" };
const std::vector<std::string> good_values = { "0", "5", "13", "42", "100000", "2.5", "7", "1" };
const std::vector<std::string> bad_values = { "abc", "1x", "", "99999999999", "-", "foo", "bar", "a b", "=", "*" };

std::vector<std::string> subset(vf::Rng& rng, const std::vector<std::string>& pool, std::size_t n)
{
    auto v = pool;
    for (std::size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[rng.below(i)]);
    v.resize(std::min(n, v.size()));
    return v;
}

// A random word of a pattern, as leaves
void word(const Seq& s, vf::Rng& rng, std::vector<const Node*>& out)
{
    for (const Node& n : s) {
        switch (n.kind) {
            case 'O':
                if (rng.chance(3, 5))
                    word(n.kids[0], rng, out);
                break;
            case 'R': {
                std::size_t k = 1 + rng.below(3);
                for (std::size_t i = 0; i < k; ++i)
                    word(n.kids[0], rng, out);
                break;
            }
            case 'A':
                word(n.kids[rng.below(n.kids.size())], rng, out);
                break;
            default:
                out.push_back(&n);
        }
    }
}

std::string value(vf::Rng& rng, char type, bool allow_dash)
{
    if (allow_dash && rng.chance(1, 8))
        return rng.pick({ "-7", "-x", "--long", "--", "-5" });
    if (rng.chance(1, 10))
        return rng.pick(bad_values);
    if (type == 's' && rng.chance(1, 2))
        return rng.pick({ "abc", "a b", "foo", "bar", "zzz", "", "-" });
    if (type == 'b')
        return rng.pick({ "0", "1" });
    if (type != 'd' && rng.chance(9, 10))
        return rng.pick({ "0", "5", "13", "42", "100000", "7", "1" });
    return rng.pick(good_values);
}

char opt_type(int action)
{
    switch (action) {
        case 4:
        case 5:
        case 14:
            return 's';
        case 11:
        case 12:
            return 'b';
    }
    return 'i';
}

// Arguments for an occurrence of a declared option
void occur(vf::Rng& rng, const OptDecl& o, std::vector<std::string>& args)
{
    const std::string& form = o.forms[rng.below(o.forms.size())];
    bool lng = (form.size() > 1 && form[1] == '-');
    bool give = (o.argmode == 2 ? !rng.chance(1, 20) : o.argmode == 1 ? rng.chance(1, 2) : rng.chance(1, 12));
    if (!give) {
        args.push_back(form);
        return;
    }
    std::string v = value(rng, opt_type(o.action), true);
    if (o.argmode == 2 && rng.chance(1, 2)) {
        args.push_back(form);
        args.push_back(v);
    }
    else if (lng) {
        args.push_back(form + "=" + v);
    }
    else {
        args.push_back(form + v);
    }
}

} // namespace

World gen_world(vf::Rng& rng, const WorldCfg& cfg, std::string id)
{
    World best;
    for (int attempt = 0; attempt < 24; ++attempt) {
        World w;
        w.id = id;
        auto forms = subset(rng, option_pool, option_pool.size());
        std::size_t next_form = 0;
        std::size_t num_opts = rng.below(cfg.max_opts + 1);
        for (std::size_t i = 0; i < num_opts; ++i) {
            OptDecl o;
            std::size_t k = 1 + rng.chance(1, 3);
            for (std::size_t j = 0; j < k && next_form < forms.size(); ++j)
                o.forms.push_back(forms[next_form++]);
            if (o.forms.empty())
                break;
            if (cfg.bad_options && rng.chance(1, 40))
                o.forms.push_back(rng.pick(forms));
            o.argmode = int(rng.below(3));
            if (rng.chance(1, 14)) {
                o.attr = cli::short_circuit;
                o.argmode = 0;
            }
            if (rng.chance(1, 6))
                o.attr |= cli::unlisted;
            for (int t = 0;; ++t) {
                o.action = int(rng.below(num_actions));
                bool bad = ((o.argmode != 0 && !action_allows(o.action)) || (o.argmode != 2 && action_requires(o.action)));
                if (!bad || (cfg.bad_options && t == 0 && rng.chance(1, 8)))
                    break;
            }
            if (cfg.bad_options && rng.chance(1, 40))
                o.attr |= int(rng.pick({ 1, 2, 8, 16 }));
            w.opts.push_back(o);
        }
        if (rng.chance(1, 3)) {
            OptDecl o;
            o.forms = { rng.chance(4, 5) ? "--" : "-e" };
            o.attr = cli::further_args_are_values;
            o.action = int(rng.pick({ 0, 1, 2, 7, 11 }));
            w.opts.insert(w.opts.begin() + std::ptrdiff_t(rng.below(w.opts.size() + 1)), o);
        }
        // Forms available to patterns: the remaining ones, and those of option without argument
        std::vector<std::string> pf;
        for (std::size_t i = next_form; i < forms.size() && pf.size() < 4; ++i)
            pf.push_back(forms[i]);
        for (const OptDecl& o : w.opts) {
            if ((o.argmode == 0 && o.attr == 0 && rng.chance(1, 2)) || (cfg.bad_options && rng.chance(1, 60)))
                pf.insert(pf.end(), o.forms.begin(), o.forms.end());
        }
        w.allow_cross = rng.chance(1, 5);
        w.allow_positional = rng.chance(1, 6);
        auto kws = subset(rng, keyword_pool, 2 + rng.below(5));
        std::size_t num_pats = (rng.chance(1, 16) ? 0 : 1 + rng.below(cfg.max_pats));
        bool retry = false;
        for (std::size_t i = 0; i < num_pats; ++i) {
            PatDecl p;
            p.kind = (rng.chance(1, 6) ? 2 : rng.chance(1, 12) ? 3 : rng.chance(1, 2));
            p.completing = rng.chance(1, 2);
            p.status = int(rng.pick({ 0, 0, 1, 7, -3, 255 }));
            Gen g = { rng, kws, pf, 1 + int(rng.below(std::uint64_t(cfg.budget))) };
            if (rng.chance(1, 2))
                g.opts.clear();
            if (cfg.allow_deleg && rng.chance(1, 8)) {
                p.kind = 4;
                p.sig = nullptr;
                g.budget = 3;
                // No value slots
                p.tree = g.rng.chance(1, 3) ? SeqT<std::tuple<bool>>::gen(g, true) : SeqT<std::monostate>::gen(g, true);
                if (!w.subs.empty() && rng.chance(1, 3)) {
                    p.sub = w.subs[rng.below(w.subs.size())].get();
                }
                else {
                    WorldCfg c2 = cfg;
                    c2.allow_deleg = (id.size() < 2);
                    c2.bad_options = false;
                    c2.mismatch = false;
                    c2.max_pats = 2;
                    World sub;
                    for (int t = 0;; ++t) {
                        sub = gen_world(rng, c2, id + ">" + std::to_string(w.subs.size()) + ":");
                        auto v = judge(sub);
                        if (v.ctor.empty() && v.process.empty())
                            break;
                        if (t == 20) {
                            sub = World();
                            sub.id = id + ">" + std::to_string(w.subs.size()) + ":";
                            break;
                        }
                    }
                    w.subs.push_back(std::make_unique<World>(std::move(sub)));
                    p.sub = w.subs.back().get();
                }
            }
            else {
                const auto& sigs = all_sigs();
                do {
                    p.sig = sigs[rng.below(sigs.size())];
                } while (cfg.wide && !p.sig->wadd);
                p.tree = p.sig->gen(g);
                if (p.kind == 2 && p.sig->name == std::string("()"))
                    p.kind = 3; // No variables to be assigned
                if (cfg.mismatch && rng.chance(1, 10)) {
                    const Sig* s;
                    do {
                        s = sigs[rng.below(sigs.size())];
                    } while (cfg.wide && !s->wadd);
                    if (!s->compat(p.tree) && s->name != std::string("()"))
                        p.sig = s;
                }
            }
            p.text = render_pattern(p.tree, rng);
            w.pats.push_back(std::move(p));
        }
        for (const PatDecl& p : w.pats)
            retry = (retry || p.text.size() > 300);
        auto v = judge(w);
        bool bad = (!v.ctor.empty() || !v.process.empty());
        best = std::move(w);
        if (!retry && (!bad || rng.chance(1, 25)))
            break;
    }
    return best;
}

std::vector<std::string> gen_args(vf::Rng& rng, const World& w)
{
    std::vector<std::string> args;
    bool stop = false; // Further arguments are values
    auto maybe_options = [&](unsigned num, unsigned den) {
        while (!w.opts.empty() && rng.chance(num, den)) {
            const OptDecl& o = w.opts[rng.below(w.opts.size())];
            if (stop)
                break;
            if (o.attr & cli::further_args_are_values) {
                if (rng.chance(1, 2))
                    continue;
                stop = true;
            }
            if ((o.attr & cli::short_circuit) && rng.chance(3, 4))
                continue;
            occur(rng, o, args);
        }
    };
    if (!w.pats.empty()) {
        const PatDecl& p = w.pats[rng.below(w.pats.size())];
        std::vector<const Node*> leaves;
        word(p.tree, rng, leaves);
        for (const Node* n : leaves) {
            maybe_options(1, 4);
            switch (n->kind) {
                case 'k':
                    args.push_back(n->text);
                    break;
                case 'o': {
                    std::string f = n->text;
                    for (const OptDecl& o : w.opts) {
                        if (std::find(o.forms.begin(), o.forms.end(), f) != o.forms.end())
                            f = o.forms[rng.below(o.forms.size())];
                    }
                    args.push_back(f);
                    break;
                }
                default:
                    args.push_back(value(rng, n->mode, stop));
            }
        }
        maybe_options(1, 4);
        if (p.kind == 4) {
            auto sub = gen_args(rng, *p.sub);
            args.insert(args.end(), sub.begin(), sub.end());
        }
    }
    else {
        maybe_options(1, 2);
    }
    // Merge adjacent short options
    std::vector<std::string> merged;
    for (auto& a : args) {
        if (!merged.empty() && rng.chance(1, 3) && a.size() >= 2 && a[0] == '-' && a[1] != '-') {
            const std::string& b = merged.back();
            if (b.size() >= 2 && b[0] == '-' && b[1] != '-') {
                merged.back() += a.substr(1);
                continue;
            }
        }
        merged.push_back(a);
    }
    args = std::move(merged);
    // Mutate
    while (rng.chance(1, 4)) {
        switch (rng.below(6)) {
            case 0:
                if (!args.empty())
                    args.erase(args.begin() + std::ptrdiff_t(rng.below(args.size())));
                break;
            case 1:
                if (!args.empty()) {
                    std::size_t i = rng.below(args.size());
                    args.insert(args.begin() + std::ptrdiff_t(i), args[i]);
                }
                break;
            case 2:
                if (args.size() >= 2) {
                    std::size_t i = rng.below(args.size() - 1);
                    std::swap(args[i], args[i + 1]);
                }
                break;
            case 3:
                args.insert(args.begin() + std::ptrdiff_t(rng.below(args.size() + 1)),
                            rng.chance(1, 2) ? rng.pick(keyword_pool) : rng.pick(good_values));
                break;
            case 4:
                args.insert(args.begin() + std::ptrdiff_t(rng.below(args.size() + 1)),
                            rng.pick({ "-q", "--unknown", "--unknown=5", "-xq", "-qx", "--", "--long", "-x", "-yz", "-x-",
                                       "--lo=", "-", "---", "-l5" }));
                break;
            case 5:
                if (!args.empty()) {
                    std::string& a = args[rng.below(args.size())];
                    if (rng.chance(1, 2) && !a.empty())
                        a.pop_back();
                    else
                        a += rng.pick({ "x", "1", "=", "-", "=5" });
                }
                break;
        }
    }
    return args;
}

std::string show_args(const std::vector<std::string>& a)
{
    std::string s;
    for (const auto& x : a)
        s += (s.empty() ? "" : " ") + ("'" + x + "'");
    return s;
}

std::string describe(const World& w)
{
    std::string s = "world[" + w.id + "]{";
    if (w.allow_cross)
        s += " allow-cross";
    if (w.allow_positional)
        s += " allow-positional";
    for (const OptDecl& o : w.opts)
        s += "\n  opt \"" + o.cat() + "\" argmode=" + std::to_string(o.argmode) + " attr=" + std::to_string(o.attr) +
            " action=" + std::to_string(o.action);
    for (const PatDecl& p : w.pats) {
        s += "\n  pat \"" + p.text + "\" kind=" + std::to_string(p.kind) + " sig=" + (p.sig ? p.sig->name : "deleg") +
            (p.completing ? " completing" : "") + " status=" + std::to_string(p.status);
        if (p.sub)
            s += " -> " + p.sub->id;
    }
    for (const auto& sub : w.subs)
        s += "\n" + describe(*sub);
    return s + " }";
}

} // namespace m
