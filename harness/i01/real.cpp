#include "cli.hpp"

#include <archon/core/as_int.hpp>
#include <archon/log.hpp>

namespace m {

namespace core = archon::core;
namespace log_ns = archon::log;

std::vector<const Sig*>& all_sigs()
{
    static std::vector<const Sig*> v;
    return v;
}

bool action_assigns(int a) { return a == 6 || a == 7 || a == 8 || (a >= 11 && a <= 15); }

std::string var_value(int a, const Vars& v)
{
    switch (a) {
        case 11:
        case 12:
            return v.b ? "1" : "0";
        case 13:
            return v.oi ? std::to_string(*v.oi) : "none";
        case 14:
            return "\"" + v.s + "\"";
    }
    return std::to_string(v.i);
}

template<class C> void add_option(cli::BasicSpec<C>& spec, const World& w, std::size_t index, Rec& rec,
                                     std::deque<Vars>& vars)
{
    const OptDecl& o = w.opts[index];
    const auto& forms = keep<C>(o.cat());
    const auto& arg = keep<C>(o.argmode == 0 ? "" : o.argmode == 1 ? "[<a>]" : "<a>");
    std::string head = w.id + "opt" + std::to_string(index) + "(";
    Vars& v = vars.emplace_back();
    if (o.action == 12)
        v.b = true;
    auto note = [head, &rec](const std::string& s) { rec.log.push_back(head + s + ")"); };
    auto f_int = [note](int i) { note(std::to_string(i)); };
    switch (o.action) {
        case 0:
            opt(forms, arg, o.attr, spec, {}, cli::no_action);
            break;
        case 1:
            opt(forms, arg, o.attr, spec, {}, [note] { note(""); });
            break;
        case 2:
            opt(forms, arg, o.attr, spec, {}, f_int);
            break;
        case 3:
            opt(forms, arg, o.attr, spec, {}, cli::exec(f_int, 7));
            break;
        case 4:
            opt(forms, arg, o.attr, spec, {}, [note](const std::string& s) { note("\"" + s + "\""); });
            break;
        case 5:
            opt(forms, arg, o.attr, spec, {},
                cli::exec([note](std::string_view s) { note("\"" + std::string(s) + "\""); }, "dflt"));
            break;
        case 6:
            opt(forms, arg, o.attr, spec, {}, cli::assign(v.i));
            break;
        case 7:
            opt(forms, arg, o.attr, spec, {}, cli::assign(v.i, 42));
            break;
        case 8:
            opt(forms, arg, o.attr, spec, {}, cli::assign_c(v.i, [](int i) { return i % 2 == 0; }));
            break;
        case 9:
            opt(forms, arg, o.attr, spec, {}, cli::exec_c(f_int, [](int i) { return i >= 0; }, 3));
            break;
        case 10:
            opt(forms, arg, o.attr, spec, {}, cli::exec([note](int i) {
                note(std::to_string(i));
                return i != 13;
            }));
            break;
        case 11:
            opt(forms, arg, o.attr, spec, {}, cli::raise_flag(v.b));
            break;
        case 12:
            opt(forms, arg, o.attr, spec, {}, cli::lower_flag(v.b));
            break;
        case 13:
            opt(forms, arg, o.attr, spec, {}, cli::assign(v.oi));
            break;
        case 14:
            opt(forms, arg, o.attr, spec, {}, std::tie(v.s));
            break;
        case 15:
            opt(forms, arg, o.attr, spec, {}, cli::assign(core::as_hex_int(v.i)));
            break;
    }
}

namespace {

template<class C> struct Built {
    cli::BasicSpec<C> spec;
    std::deque<Vars> vars; // One per option
    std::map<const World*, std::unique_ptr<Built>> subs;
};

template<class C> void build(Built<C>& b, const World& w, Rec& rec, After& after)
{
    for (std::size_t i = 0; i < w.opts.size(); ++i)
        add_option<C>(b.spec, w, i, rec, b.vars);
    if (w.allow_cross)
        b.spec.allow_cross_pattern_ambiguity();
    if (w.allow_positional)
        b.spec.allow_pattern_internal_positional_ambiguity();
    for (std::size_t i = 0; i < w.pats.size(); ++i) {
        const PatDecl& p = w.pats[i];
        if (p.kind == 4) {
            auto& sub = b.subs[p.sub];
            if (!sub) {
                sub = std::make_unique<Built<C>>();
                build(*sub, *p.sub, rec, after);
            }
            const cli::BasicSpec<C>& ss = sub->spec;
            std::string head = w.id + "deleg" + std::to_string(i);
            pat(keep<C>(p.text), (p.completing ? cli::completing : cli::no_attributes), b.spec, {},
                [&ss, head, &rec](const cli::BasicCommandLine<C>& cl) {
                    rec.log.push_back(head);
                    return cli::process(cl, ss);
                });
            continue;
        }
        if constexpr (std::is_same_v<C, char>)
            p.sig->add(b.spec, w, int(i), rec, after);
        else
            p.sig->wadd(b.spec, w, int(i), rec, after);
    }
}

template<class C> struct Handler : cli::BasicErrorHandler<C> {
    using Base = cli::BasicErrorHandler<C>;
    std::vector<Err> errors;
    int calls = 0;
    int status;
    bool empty_message = false;
    void handle(core::Span<const typename Base::ErrorEntry> e, int& exit_status) override
    {
        ++calls;
        for (const auto& x : e) {
            errors.push_back({ x.arg_index, int(x.error_code) });
            if (x.error_message.empty())
                empty_message = true;
        }
        exit_status = status;
    }
};

template<class C> void collect_vars(const Built<C>& b, const World& w, Real& r)
{
    for (std::size_t i = 0; i < w.opts.size(); ++i) {
        if (action_assigns(w.opts[i].action))
            r.vars[w.id + std::to_string(i)] = var_value(w.opts[i].action, b.vars[i]);
    }
    for (const auto& [sw, sb] : b.subs)
        collect_vars(*sb, *sw, r);
}

template<class C> Real run_t(const World& w, const Model& m, const Outcome& exp, int api)
{
    kept<C>.clear();
    Real r;
    Rec rec;
    After after;
    Built<C> b;
    bool constructed = false;
    std::vector<const char*> argv;
    for (const auto& a : m.args)
        argv.push_back(a.c_str());
    int argc = int(argv.size());
    argv.push_back(nullptr);
    Handler<C> handler;
    handler.status = m.handler_status;
    auto& null_logger = log_ns::BasicLogger<C>::get_null();
    cli::BasicLoggingErrorHandler<C> logging_handler(null_logger);
    cli::BasicConfig<C> config;
    if (m.custom_handler)
        config.error_handler = &handler;
    else
        config.error_handler = &logging_handler;
    cli::BasicStringHolder<C> holder;
    const int unset = 987654;
    int status = unset;
    auto finish = [&] {
        if (exp.matched_tie && handler.calls == 0) {
            auto i = after.find({ exp.matched_world, exp.matched });
            if (i != after.end())
                i->second();
        }
    };
    try {
        build(b, w, rec, after);
        std::locale loc;
        if (api == 0) {
            cli::BasicCommandLine<C> cl(argc, argv.data(), loc, config);
            cli::BasicProcessor<C> proc(cl, b.spec);
            constructed = true;
            r.out.complete = proc.process(status);
            finish();
        }
        else if (api == 1) {
            config.string_holder = &holder;
            cli::BasicProcessor<C> proc(argc, argv.data(), b.spec, loc, config);
            constructed = true;
            r.out.complete = proc.process(status);
            finish();
        }
        else {
            config.string_holder = &holder;
            constructed = true; // Not distinguishable
            r.out.complete = cli::process(argc, argv.data(), b.spec, status, loc, config);
            finish();
        }
    }
    catch (const cli::BadSpec& e) {
        (constructed ? r.process_error : r.ctor_error) = int(e.error_code());
        r.what = e.what();
    }
    r.out.status_assigned = (status != unset);
    r.out.exit_status = status;
    r.out.errors = handler.errors;
    r.out.log = rec.log;
    r.patargs = rec.patargs;
    if (handler.empty_message)
        r.what = "Empty error message";
    collect_vars(b, w, r);
    return r;
}

} // namespace

Real run_real(const World& w, const Model& m, const Outcome& exp, bool wide, int api)
{
    if (wide)
        return run_t<wchar_t>(w, m, exp, api);
    return run_t<char>(w, m, exp, api);
}

std::string render_pattern(const Seq& s, vf::Rng& rng)
{
    std::string out;
    auto sep = [&] {
        if (!out.empty())
            out += (rng.chance(1, 12) ? "  " : " ");
    };
    for (std::size_t i = 0; i < s.size(); ++i) {
        const Node& n = s[i];
        sep();
        switch (n.kind) {
            case 'k':
            case 'o':
                out += n.text;
                break;
            case 'v':
                out += rng.pick({ "<a>", "<foo>", "<some value>", "<b-c>" });
                break;
            case 'O':
                out += "[" + render_pattern(n.kids[0], rng) + "]";
                break;
            case 'R': {
                std::string t = render_pattern(n.kids[0], rng);
                bool simple = (n.kids[0].size() == 1 && n.kids[0][0].kind != 'R');
                if (!simple || rng.chance(1, 4))
                    t = "(" + t + ")";
                out += t + (rng.chance(1, 6) ? " ..." : "...");
                break;
            }
            case 'A': {
                std::string t;
                for (const Seq& k : n.kids) {
                    std::string b = render_pattern(k, rng);
                    if (rng.chance(1, 8))
                        b = "(" + b + ")";
                    t += (t.empty() ? "" : rng.chance(1, 5) ? "|" : " | ") + b;
                }
                out += "(" + t + ")";
                break;
            }
        }
        if (rng.chance(1, 16) && n.kind != 'A') {
            // Redundant parentheses around everything so far
            out = "(" + out + ")";
        }
    }
    return out;
}

} // namespace m
