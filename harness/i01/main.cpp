#include "cli.hpp"

#include <algorithm>

using namespace m;

namespace m {

void check_case(vf::Case& c, const World& w, bool wide)
{
    if (Auto(w).too_big)
        return;
    SpecVerdict v = judge(w);
    int num_lines = (v.ctor.empty() && v.process.empty() ? 6 : 1);
    for (int k = 0; k < num_lines; ++k) {
        Model model;
        model.args = { "prog" };
        for (auto& a : gen_args(c.rng, w))
            model.args.push_back(a);
        model.custom_handler = !c.rng.chance(1, 8);
        model.handler_status = int(c.rng.pick({ 1, 2, 0, 77 }));
        int api = int(c.rng.below(3));
        Outcome exp;
        if (v.ctor.empty() && v.process.empty())
            exp = model.run(w);
        auto ctx = [&](std::ostream& o) {
            o << "args: " << show_args(model.args) << (wide ? " (wide)" : "") << " api=" << api << "\n" << describe(w);
        };
        Real r = run_real(w, model, exp, wide, api);
        if (!v.ctor.empty()) {
            int got = (r.ctor_error >= 0 ? r.ctor_error : r.process_error);
            VF_REQUIRE(v.ctor.count(got), "bad-spec-not-rejected",
                       "expected one of " << vf::show(std::vector<int>(v.ctor.begin(), v.ctor.end())) << ", got " << got << " " << r.what << "\n" << ctx);
            c.event("rejected_spec", 1);
            c.event(("rejected_spec_code_" + std::to_string(got)).c_str(), 1);
            c.nontrivial(vf::Hash().add(std::to_string(got)).add(w.pats.empty() ? "" : w.pats[0].text).get());
            return;
        }
        VF_REQUIRE(r.ctor_error < 0, "valid-spec-rejected", "got " << r.ctor_error << " " << r.what << "\n" << ctx);
        if (!v.process.empty()) {
            VF_REQUIRE(v.process.count(r.process_error), "ambiguity-not-rejected",
                       "expected one of " << vf::show(std::vector<int>(v.process.begin(), v.process.end())) << ", got " << r.process_error << " " << r.what << "\n" << ctx);
            c.event("rejected_spec", 1);
            c.event(("rejected_spec_code_" + std::to_string(r.process_error)).c_str(), 1);
            c.nontrivial(vf::Hash().add(std::to_string(r.process_error)).add(w.pats[0].text).get());
            return;
        }
        VF_REQUIRE(r.process_error < 0, "unambiguous-spec-rejected", "got " << r.process_error << " " << r.what << "\n" << ctx);
        if (exp.matched >= 0 && exp.renderings.empty())
            continue; // Too many ways to match (only with ambiguities allowed)
        if (exp.renderings.size() > 1) {
            if (!exp.matched_world->allow_positional) {
                VF_REQUIRE(false, "ambiguous-spec-accepted", *exp.renderings.begin() << " or " << *exp.renderings.rbegin() << "\n" << ctx);
            }
            // Any interpretation is acceptable, but with invalid values errors depend on interpretation
            bool any_bad = false;
            for (const auto& s : exp.renderings)
                any_bad = (any_bad || s.find('\x01') != std::string::npos);
            if (any_bad)
                continue;
            c.event("ambiguous_match", 1);
        }
        // Split expected log into function calls and assignments
        std::vector<std::string> log;
        std::map<std::string, std::string> vars;
        std::function<void(const World&)> init = [&](const World& x) {
            for (std::size_t i = 0; i < x.opts.size(); ++i) {
                int a = x.opts[i].action;
                if (a == 6 || a == 7 || a == 8 || a == 13 || a == 15)
                    vars[x.id + std::to_string(i)] = "-1";
                else if (a == 11 || a == 12)
                    vars[x.id + std::to_string(i)] = (a == 12 ? "1" : "0");
                else if (a == 14)
                    vars[x.id + std::to_string(i)] = "\"init\"";
            }
            for (const auto& s : x.subs)
                init(*s);
        };
        init(w);
        for (const auto& s : exp.log) {
            std::size_t p = s.find("set");
            if (p == std::string::npos || s.find('"') < p) {
                log.push_back(s);
                continue;
            }
            std::size_t q = s.find('(', p);
            vars[s.substr(0, p) + s.substr(p + 3, q - p - 3)] = s.substr(q + 1, s.size() - q - 2);
        }
        auto errs = [](const std::vector<Err>& e) {
            std::string s;
            for (const Err& x : e)
                s += std::to_string(x.arg_index) + ":" + std::to_string(x.code) + " ";
            return s;
        };
        auto join = [](const std::vector<std::string>& l) {
            std::string s;
            for (const auto& x : l)
                s += x + " ";
            return s;
        };
        if (model.custom_handler)
            VF_EQ(errs(r.out.errors), errs(exp.errors), "errors", ctx);
        VF_EQ(join(r.out.log), join(log), "actions", ctx);
        if (exp.errors.empty() && exp.matched >= 0 && !log.empty() && log.back().find("pat") != std::string::npos)
            VF_REQUIRE(exp.renderings.count(r.patargs), "pattern-args",
                       "got " << r.patargs << ", expected " << *exp.renderings.begin() << "\n" << ctx);
        for (const auto& [k2, s] : vars)
            VF_EQ(r.vars[k2], s, "assigned-variable", "option " << k2 << "\n" << ctx);
        VF_EQ(r.out.complete, exp.complete, "completeness", ctx);
        VF_EQ(r.out.status_assigned, exp.complete, "exit-status-assigned", ctx);
        if (exp.complete)
            VF_EQ(r.out.exit_status, exp.exit_status, "exit-status", ctx);
        VF_REQUIRE(r.what.empty(), "error-message", r.what << "\n" << ctx);
        std::string kind;
        if (!exp.errors.empty()) {
            c.event("erroneous_line", 1);
            c.event("reported_errors", exp.errors.size());
            for (const Err& e : exp.errors)
                c.event(("error_code_" + std::to_string(e.code)).c_str(), 1);
            if (exp.errors.size() > 1)
                c.event("multiple_errors", 1);
            kind = "err" + errs(exp.errors);
        }
        else if (exp.matched >= 0) {
            c.event("matched_line", 1);
            if (exp.matched > 0)
                c.event("matched_other_than_first_pattern", 1);
            kind = *exp.renderings.begin();
        }
        else {
            c.event("short_circuited", 1);
            kind = "short";
        }
        if (exp.depth > 0)
            c.event("delegated", 1);
        if (!exp.log.empty())
            c.event("actions_taken", exp.log.size());
        c.nontrivial(vf::Hash().add(w.pats.empty() ? "" : w.pats[0].text).add(kind).add(join(exp.log)).get());
        c.sample([&](std::ostream& o) { o << show_args(model.args) << " -> " << kind << " | " << join(exp.log) << "\n" << describe(w); });
    }
}

} // namespace m

VF_MONITOR(patterns, 24000, 400000)
{
    WorldCfg cfg;
    cfg.wide = c.rng.chance(1, 6);
    cfg.max_pats = 1 + c.rng.below(4);
    cfg.max_opts = c.rng.below(3);
    cfg.budget = 3 + int(c.rng.below(10));
    cfg.mismatch = true;
    World w = gen_world(c.rng, cfg, "");
    check_case(c, w, cfg.wide);
}

VF_MONITOR(options, 24000, 400000)
{
    WorldCfg cfg;
    cfg.wide = c.rng.chance(1, 6);
    cfg.max_pats = 2;
    cfg.max_opts = 6;
    cfg.budget = 4;
    cfg.bad_options = true;
    World w = gen_world(c.rng, cfg, "");
    check_case(c, w, cfg.wide);
}
