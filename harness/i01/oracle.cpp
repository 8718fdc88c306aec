#include "cli.hpp"

#include <algorithm>
#include <cstdlib>
#include <map>

namespace m {

namespace {

int E(cli::SpecError e) { return int(e); }
int P(cli::ProcError e) { return int(e); }

int pos_count(const Seq& s)
{
    int n = 0;
    for (const Node& e : s) {
        if (e.kids.empty()) {
            ++n;
        }
        else {
            for (const Seq& k : e.kids)
                n += pos_count(k);
        }
    }
    return n;
}

bool nullable_elem(const Node& n)
{
    switch (n.kind) {
        case 'O':
            return true;
        case 'R':
            return nullable(n.kids[0]);
        case 'A':
            return std::any_of(n.kids.begin(), n.kids.end(), [](const Seq& s) { return nullable(s); });
    }
    return false;
}

// Local position automaton of a sequence. Positions are numbered in textual order from `base`.
struct G {
    bool null = true;
    std::set<int> first, last;
};
using Follow = std::map<int, std::set<int>>;

G build_seq(const Seq&, int& base, Follow&);
G build_elem(const Node& n, int& base, Follow& f)
{
    switch (n.kind) {
        case 'k':
        case 'o':
        case 'v': {
            int p = base++;
            return { false, { p }, { p } };
        }
        case 'O': {
            G g = build_seq(n.kids[0], base, f);
            g.null = true;
            return g;
        }
        case 'R': {
            G g = build_seq(n.kids[0], base, f);
            for (int p : g.last)
                f[p].insert(g.first.begin(), g.first.end());
            return g;
        }
        default: {
            G g;
            g.null = false;
            for (const Seq& s : n.kids) {
                G b = build_seq(s, base, f);
                g.null = (g.null || b.null);
                g.first.insert(b.first.begin(), b.first.end());
                g.last.insert(b.last.begin(), b.last.end());
            }
            return g;
        }
    }
}
G build_seq(const Seq& s, int& base, Follow& f)
{
    G g;
    for (const Node& e : s) {
        G b = build_elem(e, base, f);
        for (int p : g.last)
            f[p].insert(b.first.begin(), b.first.end());
        if (g.null)
            g.first.insert(b.first.begin(), b.first.end());
        if (!b.null)
            g.last.clear();
        g.last.insert(b.last.begin(), b.last.end());
        g.null = (g.null && b.null);
    }
    return g;
}

// Is there a nonempty sequence of positions such that all repetitions of it are in the language (over
// positions)? As each position occurs once in the expression, a word w and ww are both in the language
// precisely if last(w) can be followed by first(w); and a word can then be chosen freely.
bool repeating(const Seq& s)
{
    int base = 0;
    Follow f;
    G g = build_seq(s, base, f);
    // Need i in last and j in first, with j in follow(i), and with j ->* i
    for (int j : g.first) {
        std::set<int> reach = { j };
        std::vector<int> todo = { j };
        while (!todo.empty()) {
            int p = todo.back();
            todo.pop_back();
            for (int q : f[p]) {
                if (reach.insert(q).second)
                    todo.push_back(q);
            }
        }
        for (int i : g.last) {
            if (reach.count(i) && f[i].count(j))
                return true;
        }
    }
    return false;
}

bool structural(const Seq& s)
{
    for (const Node& n : s) {
        if (n.kind == 'O' && nullable(n.kids[0]))
            return true;
        if (n.kind == 'R' && (nullable(n.kids[0]) || repeating(n.kids[0])))
            return true;
        if (n.kind == 'A' &&
            std::count_if(n.kids.begin(), n.kids.end(), [](const Seq& k) { return nullable(k); }) > 1)
            return true;
        for (const Seq& k : n.kids) {
            if (structural(k))
                return true;
        }
    }
    return false;
}

void flat(const Seq& s, std::vector<const Node*>& out)
{
    for (const Node& n : s) {
        if (n.kids.empty())
            out.push_back(&n);
        for (const Seq& k : n.kids)
            flat(k, out);
    }
}

int find_decl(const World& w, const std::string& form)
{
    for (std::size_t i = 0; i < w.opts.size(); ++i) {
        for (const auto& f : w.opts[i].forms) {
            if (f == form)
                return int(i);
        }
    }
    return -1;
}

} // namespace

bool nullable(const Seq& s)
{
    return std::all_of(s.begin(), s.end(), nullable_elem);
}

std::string Auto::option_sym(const std::string& form) const
{
    int i = find_decl(m_w, form);
    if (i >= 0)
        return "o#" + std::to_string(i);
    return "o" + form;
}

Auto::Auto(const World& w)
    : m_w(w)
{
    std::vector<Seq> trees;
    for (const PatDecl& p : w.pats)
        trees.push_back(p.tree);
    if (trees.empty())
        trees.push_back({});
    int base = 0;
    Follow f;
    for (std::size_t i = 0; i < trees.size(); ++i) {
        std::vector<const Node*> leaves;
        flat(trees[i], leaves);
        for (const Node* n : leaves) {
            Pos p;
            p.pat = int(i);
            p.sym = (n->kind == 'k' ? "k" + n->text : n->kind == 'o' ? option_sym(n->text) : "v");
            pos.push_back(p);
        }
        int before = base;
        G g = build_seq(trees[i], base, f);
        if (base - before != int(leaves.size()))
            std::abort();
        start.insert(g.first.begin(), g.first.end());
        int end = ~int(i);
        if (g.null)
            start.insert(end);
        for (int p : g.last)
            f[p].insert(end);
    }
    for (auto& [p, s] : f)
        pos[std::size_t(p)].follow = s;

    std::set<State> seen = { start };
    std::vector<State> todo = { start };
    while (!todo.empty()) {
        State s = todo.back();
        todo.pop_back();
        if (++num_states > 1500) {
            too_big = true;
            return;
        }
        std::vector<int> ends;
        std::set<std::string> syms;
        for (int p : s) {
            if (p < 0)
                ends.push_back(~p);
            else
                syms.insert(pos[std::size_t(p)].sym);
        }
        if (ends.size() > 1 && !w.allow_cross)
            cross = true;
        if (!ends.empty() && !syms.empty()) {
            std::size_t e = std::size_t(*std::min_element(ends.begin(), ends.end()));
            if (e < w.pats.size() && w.pats[e].kind == 4)
                prefix_deleg = true;
        }
        for (int p : s) {
            for (int q : s) {
                if (p >= 0 && q > p && pos[std::size_t(p)].sym == pos[std::size_t(q)].sym) {
                    for (int t : pos[std::size_t(p)].follow) {
                        if (pos[std::size_t(q)].follow.count(t))
                            positional = positional || !w.allow_positional;
                    }
                }
            }
        }
        for (const auto& sym : syms) {
            State t = step(s, sym);
            if (seen.insert(t).second)
                todo.push_back(t);
        }
    }
}

auto Auto::step(const State& s, const std::string& sym) const -> State
{
    State t;
    for (int p : s) {
        if (p >= 0 && pos[std::size_t(p)].sym == sym)
            t.insert(pos[std::size_t(p)].follow.begin(), pos[std::size_t(p)].follow.end());
    }
    return t;
}

SpecVerdict judge(const World& w)
{
    SpecVerdict v;
    std::set<std::string> forms;
    for (const OptDecl& o : w.opts) {
        if (o.attr & ~7)
            v.ctor.insert(E(cli::SpecError::bad_option_attr));
        if (o.argmode != 0 && (o.attr & (cli::short_circuit | cli::further_args_are_values)))
            v.ctor.insert(E(cli::SpecError::option_arg_not_allowed));
        if (o.argmode != 0 && !action_allows(o.action))
            v.ctor.insert(E(cli::SpecError::option_func_mismatch));
        if (o.argmode != 2 && action_requires(o.action))
            v.ctor.insert(E(cli::SpecError::option_func_mismatch));
        for (const auto& f : o.forms) {
            if (forms.count(f))
                v.ctor.insert(E(cli::SpecError::option_form_reuse));
        }
        forms.insert(o.forms.begin(), o.forms.end());
    }
    for (const PatDecl& p : w.pats) {
        if (structural(p.tree))
            v.ctor.insert(E(cli::SpecError::structural_ambiguity));
        std::vector<const Node*> leaves;
        flat(p.tree, leaves);
        for (const Node* n : leaves) {
            if (n->kind != 'o')
                continue;
            int i = find_decl(w, n->text);
            if (i >= 0 && (w.opts[std::size_t(i)].argmode != 0 ||
                           (w.opts[std::size_t(i)].attr & (cli::short_circuit | cli::further_args_are_values))))
                v.ctor.insert(E(cli::SpecError::bad_option_ref));
        }
        if (p.kind < 3 && p.sig && !p.sig->compat(p.tree))
            v.ctor.insert(E(cli::SpecError::pattern_func_mismatch));
    }
    if (v.ctor.empty()) {
        Auto a(w);
        if (a.positional)
            v.process.insert(E(cli::SpecError::positional_ambiguity));
        if (a.cross)
            v.process.insert(E(cli::SpecError::cross_pattern_ambiguity));
        if (a.prefix_deleg)
            v.process.insert(E(cli::SpecError::prefix_deleg_pattern));
    }
    return v;
}

// ---------------------------------------------------------------- matching

namespace {

using Res = std::set<std::pair<std::size_t, std::string>>;

struct Matcher {
    const World& w;
    const Auto& a;
    const std::vector<std::string>& syms;
    const std::vector<std::string>& args;
    std::size_t limit;
    bool overflow = false;

    Res elem(const Node& n, std::size_t at)
    {
        Res r;
        switch (n.kind) {
            case 'k':
                if (at < syms.size() && syms[at] == "k" + n.text)
                    r.insert({ at + 1, "" });
                return r;
            case 'o':
                if (at < syms.size() && syms[at] == a.option_sym(n.text))
                    r.insert({ at + 1, "" });
                return r;
            case 'v':
                if (at < syms.size() && syms[at] == "v") {
                    std::string out;
                    if (!conv(n.mode, args[at], out))
                        out = "\x01" + std::to_string(at) + ";";
                    r.insert({ at + 1, out });
                }
                return r;
            case 'O': {
                r.insert({ at, n.mode == 'b' ? "B0" : n.mode == 'O' ? "O-" : n.mode == 'V' ? "V[]" : "0" });
                for (const auto& [to, s] : seq(n.kids[0], at)) {
                    if (to > at)
                        r.insert({ to, n.mode == 'b' ? "B1" : n.mode == 'O' ? "O{" + s + "}" : s });
                }
                return r;
            }
            case 'R': {
                // Sets of (end, joined, count)
                std::set<std::tuple<std::size_t, std::string, std::size_t>> cur;
                for (const auto& [to, s] : seq(n.kids[0], at))
                    cur.insert({ to, s, 1 });
                while (!cur.empty()) {
                    std::set<std::tuple<std::size_t, std::string, std::size_t>> next;
                    for (const auto& [to, s, k] : cur) {
                        r.insert({ to, n.mode == 'V' ? "V[" + s + "]" : std::to_string(k) });
                        for (const auto& [to2, s2] : seq(n.kids[0], to)) {
                            if (to2 > to)
                                next.insert({ to2, s + ";" + s2, k + 1 });
                        }
                    }
                    if (r.size() > limit) {
                        overflow = true;
                        break;
                    }
                    cur = std::move(next);
                }
                return r;
            }
            default: {
                for (std::size_t i = 0; i < n.kids.size(); ++i) {
                    for (const auto& [to, s] : seq(n.kids[i], at)) {
                        std::string t = std::to_string(i);
                        r.insert({ to, n.mode == 'A' ? "A" + t + "{" + s + "}" : t });
                    }
                }
                return r;
            }
        }
    }

    Res seq(const Seq& s, std::size_t at)
    {
        Res cur = { { at, "" } };
        bool any = false;
        for (const Node& e : s) {
            Res next;
            bool p = is_param(e);
            for (const auto& [to, t] : cur) {
                for (const auto& [to2, t2] : elem(e, to))
                    next.insert({ to2, p ? (any ? t + "," + t2 : t2) : t });
            }
            any = (any || p);
            cur = std::move(next);
            if (cur.size() > limit) {
                overflow = true;
                break;
            }
        }
        return cur;
    }
};

} // namespace

std::set<std::string> match_all(const World& w, const PatDecl& p, const std::vector<std::string>& syms,
                                const std::vector<std::string>& args, const Auto& a, std::size_t limit)
{
    Matcher mt = { w, a, syms, args, limit };
    std::set<std::string> r;
    for (const auto& [to, s] : mt.seq(p.tree, 0)) {
        if (to == syms.size())
            r.insert(s);
    }
    if (mt.overflow)
        r.clear();
    return r;
}

bool conv(char type, const std::string& t, std::string& out)
{
    auto digits = [](std::string_view s) {
        return !s.empty() && s.size() < 19 && std::all_of(s.begin(), s.end(), [](char c) { return c >= '0' && c <= '9'; });
    };
    std::string_view body = t;
    bool neg = (!body.empty() && body[0] == '-');
    if (neg)
        body.remove_prefix(1);
    switch (type) {
        case 's':
            out = "\"" + t + "\"";
            return true;
        case 'i': {
            if (!digits(body))
                return false;
            long long v = std::atoll(t.c_str());
            if (v < -2147483648LL || v > 2147483647LL)
                return false;
            out = std::to_string(v);
            return true;
        }
        case 'z':
            if (neg || !digits(body))
                return false;
            out = std::to_string(std::strtoull(t.c_str(), nullptr, 10));
            return true;
        case 'b':
            if (!digits(body) || std::strtoull(std::string(body).c_str(), nullptr, 10) > (neg ? 0 : 1))
                return false;
            out = (body.back() == '1' ? "1" : "0");
            return true;
        case 'x': // hexadecimal digits
            if (body.empty() || body.size() > 14 ||
                body.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
                return false;
            out = std::to_string(std::strtoll(t.c_str(), nullptr, 16));
            return std::strtoll(t.c_str(), nullptr, 16) <= 2147483647LL &&
                std::strtoll(t.c_str(), nullptr, 16) >= -2147483648LL;
        case 'd': {
            auto dot = body.find('.');
            std::string d(body.substr(0, dot));
            if (dot != std::string_view::npos)
                d += body.substr(dot + 1);
            if (!digits(d))
                return false;
            std::ostringstream o;
            o << std::strtod(t.c_str(), nullptr);
            out = o.str();
            return true;
        }
    }
    std::abort();
}

// ---------------------------------------------------------------- options

bool action_allows(int a) { return a != 0 && a != 1; }
bool action_requires(int a) { return a == 15; }

bool option_effect(const World& w, const OptAct& o, std::string& log)
{
    std::string head = "opt" + std::to_string(o.opt) + "(";
    std::string set = "set" + std::to_string(o.opt) + "(";
    std::string v;
    auto exec = [&](char type, const char* dflt, const std::function<bool(const std::string&)>& pre,
                    const std::function<bool(const std::string&)>& post) {
        if (!o.has_value) {
            log = head + dflt + ")";
            return true;
        }
        if (!conv(type, o.value, v) || !pre(v))
            return false;
        log = head + v + ")";
        return post(v);
    };
    auto assign = [&](char type, const char* dflt, const std::function<bool(const std::string&)>& pre) {
        if (!o.has_value) {
            log = set + dflt + ")";
            return true;
        }
        if (!conv(type, o.value, v) || !pre(v))
            return false;
        log = set + v + ")";
        return true;
    };
    auto yes = [](const std::string&) { return true; };
    auto even = [](const std::string& s) { return std::atoll(s.c_str()) % 2 == 0; };
    auto nonneg = [](const std::string& s) { return std::atoll(s.c_str()) >= 0; };
    auto not13 = [](const std::string& s) { return s != "13"; };
    switch (w.opts[std::size_t(o.opt)].action) {
        case 0:
            return true;
        case 1:
            log = head + ")";
            return true;
        case 2:
            return exec('i', "0", yes, yes);
        case 3:
            return exec('i', "7", yes, yes);
        case 4:
            return exec('s', "\"\"", yes, yes);
        case 5:
            return exec('s', "\"dflt\"", yes, yes);
        case 6:
            return assign('i', "0", yes);
        case 7:
            return assign('i', "42", yes);
        case 8:
            return assign('i', "0", even);
        case 9:
            return exec('i', "3", nonneg, yes);
        case 10:
            return exec('i', "0", yes, not13);
        case 11:
            return assign('b', "1", yes);
        case 12:
            return assign('b', "0", yes);
        case 13:
            return assign('i', "none", yes);
        case 14:
            return assign('s', "\"\"", yes);
        case 15:
            return assign('x', "?", yes);
    }
    std::abort();
}

// ---------------------------------------------------------------- processing

namespace {

struct Runner {
    const Model& model;
    Outcome& out;
    // Invocations and errors from parent processors
    struct Frame {
        const World* w;
        std::vector<OptAct> acts;
    };
    std::vector<Frame> frames;
    std::vector<Err> parent_errs;

    void fail(std::vector<Err> errs)
    {
        std::vector<Err> all = parent_errs;
        all.insert(all.end(), errs.begin(), errs.end());
        std::stable_sort(all.begin(), all.end(), [](const Err& a, const Err& b) { return a.arg_index < b.arg_index; });
        out.errors = all;
        out.complete = true;
        out.exit_status = (model.custom_handler ? model.handler_status : EXIT_FAILURE);
        out.status_assigned = true;
    }

    void run(const World& w, std::size_t i, std::size_t depth)
    {
        out.depth = depth;
        const auto& args = model.args;
        const std::size_t n = args.size();
        Auto a(w);
        Auto::State st = a.start;
        std::vector<OptAct> acts;
        std::vector<Err> errs;
        std::vector<std::string> syms, symargs;
        std::vector<std::size_t> symidx;
        bool matching = true, values_only = false, dead = false;
        int matched = -1;

        auto accepted = [&] {
            int best = -1;
            for (int p : st) {
                if (p < 0 && (best < 0 || ~p < best))
                    best = ~p;
            }
            return best;
        };
        auto is_deleg = [&](int p) { return std::size_t(p) < w.pats.size() && w.pats[std::size_t(p)].kind == 4; };
        auto stop_matching = [&](std::size_t at, cli::ProcError code) {
            errs.push_back({ at, P(code) });
            bool deleg = false;
            for (int p : st)
                deleg = (deleg || is_deleg(p < 0 ? ~p : a.pos[std::size_t(p)].pat));
            if (deleg)
                dead = true;
            matching = false;
        };
        auto feed = [&](const std::string& sym, const std::string& arg, std::size_t at) {
            auto next = a.step(st, sym);
            if (next.empty())
                return false;
            st = next;
            syms.push_back(sym);
            symargs.push_back(arg);
            symidx.push_back(at);
            return true;
        };
        std::set<std::string> implicit, keywords;
        for (const PatDecl& p : w.pats) {
            std::vector<const Node*> leaves;
            flat(p.tree, leaves);
            for (const Node* l : leaves) {
                if (l->kind == 'o')
                    implicit.insert(l->text);
                if (l->kind == 'k')
                    keywords.insert(l->text);
            }
        }
        std::set<std::string> mentioned; // Option symbols mentioned by patterns
        for (const auto& f : implicit)
            mentioned.insert(a.option_sym(f));

        // Handle occurrence without argument. Returns false if processing is over.
        auto occurrence = [&](const std::string& form, std::size_t at) {
            int d = find_decl(w, form);
            if (d >= 0) {
                const OptDecl& o = w.opts[std::size_t(d)];
                if (o.attr & cli::short_circuit) {
                    std::string l;
                    option_effect(w, { d, false, "", at }, l);
                    if (!l.empty())
                        out.log.push_back(w.id + l);
                    out.complete = true;
                    out.exit_status = EXIT_SUCCESS;
                    out.status_assigned = true;
                    return false;
                }
                acts.push_back({ d, false, "", at });
                if (o.attr & cli::further_args_are_values)
                    values_only = true;
            }
            std::string sym = a.option_sym(form);
            if (mentioned.count(sym) && matching) {
                if (!feed(sym, form, at))
                    stop_matching(at, cli::ProcError::no_pattern_match);
            }
            return true;
        };
        auto known = [&](const std::string& form) { return find_decl(w, form) >= 0 || implicit.count(form); };
        auto argmode = [&](const std::string& form) {
            int d = find_decl(w, form);
            return d < 0 ? 0 : w.opts[std::size_t(d)].argmode;
        };

        while (!dead) {
            if (matching) {
                int p = accepted();
                if (p >= 0 && is_deleg(p)) {
                    frames.push_back({ &w, acts });
                    std::stable_sort(errs.begin(), errs.end(),
                                     [](const Err& x, const Err& y) { return x.arg_index < y.arg_index; });
                    parent_errs.insert(parent_errs.end(), errs.begin(), errs.end());
                    out.log.push_back(w.id + "deleg" + std::to_string(p));
                    run(*w.pats[std::size_t(p)].sub, i, depth + 1);
                    if (!out.complete) {
                        // The delegating pattern function passes on a plain exit status
                        out.complete = true;
                        out.exit_status = EXIT_SUCCESS;
                        out.status_assigned = true;
                    }
                    return;
                }
                if (i == n) {
                    if (p < 0)
                        errs.push_back({ i, P(cli::ProcError::no_pattern_match) });
                    else
                        matched = p;
                    break;
                }
            }
            else if (i == n) {
                break;
            }
            const std::string& arg = args[i];
            if (values_only || arg.size() < 2 || arg[0] != '-') {
                if (matching) {
                    bool fed = false;
                    if (!values_only && keywords.count(arg))
                        fed = feed("k" + arg, arg, i);
                    if (!fed)
                        fed = feed("v", arg, i);
                    if (!fed)
                        stop_matching(i, cli::ProcError::no_pattern_match);
                }
                ++i;
                continue;
            }
            if (arg[1] == '-') {
                std::string form = arg.substr(0, arg.find('='));
                if (!known(form)) {
                    stop_matching(i, cli::ProcError::bad_option);
                }
                else {
                    int am = argmode(form);
                    if (form.size() < arg.size()) {
                        if (am)
                            acts.push_back({ find_decl(w, form), true, arg.substr(form.size() + 1), i });
                        else
                            errs.push_back({ i, P(cli::ProcError::bad_option) });
                    }
                    else if (am == 2) {
                        if (i + 1 == n) {
                            errs.push_back({ i, P(cli::ProcError::bad_option) });
                        }
                        else {
                            acts.push_back({ find_decl(w, form), true, args[i + 1], i });
                            ++i;
                        }
                    }
                    else if (!occurrence(form, i)) {
                        return;
                    }
                }
                ++i;
                continue;
            }
            std::size_t at = i;
            for (std::size_t k = 1; k < arg.size() && !dead; ++k) {
                std::string form = { '-', arg[k] };
                if (!known(form)) {
                    // Note: An unknown option can be reported after pattern matching has been abandoned
                    stop_matching(at, cli::ProcError::bad_option);
                    break;
                }
                int am = argmode(form);
                if (am == 0) {
                    if (k + 1 < arg.size() && arg[k + 1] == '-') {
                        errs.push_back({ at, P(cli::ProcError::bad_option) });
                        break;
                    }
                    if (!occurrence(form, at))
                        return;
                    continue;
                }
                if (k + 1 < arg.size()) {
                    acts.push_back({ find_decl(w, form), true, arg.substr(k + 1), at });
                    break;
                }
                if (am == 1) {
                    if (!occurrence(form, at))
                        return;
                    continue;
                }
                if (at + 1 == n) {
                    errs.push_back({ at, P(cli::ProcError::bad_option) });
                    break;
                }
                acts.push_back({ find_decl(w, form), true, args[at + 1], at });
                ++i;
                break;
            }
            ++i;
        }

        // Pattern arguments are examined only when the command line is otherwise well-formed
        bool well_formed = (errs.empty() && parent_errs.empty());

        // Carry out options
        frames.push_back({ &w, acts });
        for (const Frame& f : frames) {
            for (const OptAct& o : f.acts) {
                std::string l;
                bool ok = option_effect(*f.w, o, l);
                if (!l.empty())
                    out.log.push_back(f.w->id + l);
                if (!ok)
                    errs.push_back({ o.arg_index, P(cli::ProcError::bad_option_arg) });
            }
        }
        if (matched >= 0) {
            out.matched = matched;
            out.matched_world = &w;
            std::string rendering;
            static const PatDecl none = [] {
                PatDecl d;
                d.kind = 3;
                return d;
            }();
            const PatDecl& p = (w.pats.empty() ? none : w.pats[std::size_t(matched)]);
            out.renderings = match_all(w, p, syms, symargs, a, 200);
            if (p.kind < 3 && out.renderings.size() == 1 && well_formed) {
                const std::string& r = *out.renderings.begin();
                for (std::size_t k = 0; k < r.size(); ++k) {
                    if (r[k] == '\x01') {
                        std::size_t s = std::size_t(std::atoi(r.c_str() + k + 1));
                        errs.push_back({ symidx[s], P(cli::ProcError::bad_pattern_arg) });
                    }
                }
            }
            if (errs.empty() && parent_errs.empty()) {
                if (p.kind < 3)
                    {
                    out.log.push_back(w.id + "pat" + std::to_string(matched));
                    out.matched_tie = (p.kind == 2);
                }
                int status = (p.kind == 1 ? p.status : EXIT_SUCCESS);
                out.complete = (p.completing || status != 0);
                out.exit_status = status;
                out.status_assigned = out.complete;
                return;
            }
        }
        fail(errs);
    }
};

} // namespace

Outcome Model::run(const World& w) const
{
    Outcome out;
    Runner r = { *this, out };
    r.run(w, 1, 0);
    return out;
}

} // namespace m
