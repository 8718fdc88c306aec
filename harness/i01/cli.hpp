// Independent model of the command-line language of archon::cli, plus machinery for mapping C++
// parameter types to random patterns and back.
#pragma once

#include <array>
#include <cstddef>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

#include "vf.hpp"

#include <archon/cli.hpp>

namespace m {

namespace cli = archon::cli;

// ---------------------------------------------------------------- pattern trees

struct Node;
using Seq = std::vector<Node>;

struct Node {
    char kind;             // k: keyword, o: option, v: value slot, O: optional, R: repetition, A: alternatives
    std::string text;      // k, o
    char mode = 0;         // v: i s z d ; O: b O V z ; R: V z ; A: A z
    std::vector<Seq> kids; // O, R: one; A: branches
    int pos = -1;          // position (k, o, v)
};

inline bool is_param(const Node& n) { return n.kind != 'k' && n.kind != 'o'; }
inline std::size_t num_params(const Seq& s)
{
    std::size_t n = 0;
    for (const Node& e : s)
        n += is_param(e);
    return n;
}
inline const Node& only_param(const Seq& s)
{
    for (const Node& e : s) {
        if (is_param(e))
            return e;
    }
    std::abort();
}
inline bool collapsible(const Node& n)
{
    for (const Seq& s : n.kids) {
        if (num_params(s))
            return false;
    }
    return true;
}

std::string render_pattern(const Seq&, vf::Rng&);

// ---------------------------------------------------------------- generation from types

struct Gen {
    vf::Rng& rng;
    std::vector<std::string> kws;  // Available keywords
    std::vector<std::string> opts; // Available option forms
    int budget = 10;
    std::set<std::string> used = {};

    Node sym()
    {
        for (int tries = 0;; ++tries) {
            bool o = !opts.empty() && (kws.empty() || rng.chance(1, 3));
            const auto& pool = (o ? opts : kws);
            const std::string& t = pool[rng.below(pool.size())];
            if (tries < 6 && used.count(t) && !rng.chance(1, 8))
                continue;
            used.insert(t);
            --budget;
            return { o ? 'o' : 'k', t };
        }
    }
    Seq syms(std::size_t n)
    {
        Seq s;
        for (std::size_t i = 0; i < n; ++i)
            s.push_back(sym());
        return s;
    }
    // Surround parameter elements with symbols
    Seq lace(std::vector<Node> params, bool root)
    {
        Seq s;
        for (std::size_t i = 0; i <= params.size(); ++i) {
            while (budget > 0 && rng.chance(2, 5))
                s.push_back(sym());
            if (i < params.size())
                s.push_back(std::move(params[i]));
        }
        if (s.empty() && !root)
            s.push_back(sym());
        return s;
    }
};

template<class U> struct ElemT;
template<class U> struct SeqT {
    static Seq gen(Gen& g, bool root = false) { return g.lace({ ElemT<U>::gen(g) }, root); }
    static bool compat(const Seq& s) { return num_params(s) == 1 && ElemT<U>::compat(only_param(s)); }
    static std::string fmt(const U& v) { return ElemT<U>::fmt(v); }
};
template<class T, class... U> struct TupleLikeT {
    static Seq gen(Gen& g, bool root = false)
    {
        std::vector<Node> p;
        (p.push_back(ElemT<U>::gen(g)), ...);
        return g.lace(std::move(p), root);
    }
    static bool compat(const Seq& s)
    {
        if (num_params(s) != sizeof...(U))
            return false;
        std::vector<const Node*> p;
        for (const Node& n : s) {
            if (is_param(n))
                p.push_back(&n);
        }
        std::size_t i = 0;
        (void)p;
        (void)i;
        return (true && ... && ElemT<U>::compat(*p[i++]));
    }
    static std::string fmt(const T& v)
    {
        std::string s;
        std::apply([&](const auto&... e) {
            ((s += (s.empty() ? "" : ",") + ElemT<std::decay_t<decltype(e)>>::fmt(e)), ...);
        }, v);
        return s;
    }
};
template<class... U> struct SeqT<std::tuple<U...>> : TupleLikeT<std::tuple<U...>, U...> {};
template<class U, class V> struct SeqT<std::pair<U, V>> : TupleLikeT<std::pair<U, V>, U, V> {};
template<class U> struct SeqT<std::array<U, 2>> : TupleLikeT<std::array<U, 2>, U, U> {};
template<class U> struct SeqT<std::array<U, 3>> : TupleLikeT<std::array<U, 3>, U, U, U> {};
template<> struct SeqT<std::monostate> {
    static Seq gen(Gen& g, bool root = false) { return g.lace({}, root); }
    static bool compat(const Seq& s) { return num_params(s) == 0; }
    static std::string fmt(std::monostate) { return ""; }
};

template<char M> struct SlotT {
    static Node gen(Gen& g)
    {
        --g.budget;
        return { 'v', "", M };
    }
    static bool compat(const Node& n) { return n.kind == 'v'; }
};
template<> struct ElemT<int> : SlotT<'i'> {
    static std::string fmt(int v) { return std::to_string(v); }
};
template<> struct ElemT<double> : SlotT<'d'> {
    static std::string fmt(double v)
    {
        std::ostringstream o;
        o << v;
        return o.str();
    }
};
template<> struct ElemT<std::string> : SlotT<'s'> {
    static std::string fmt(const std::string& v) { return "\"" + v + "\""; }
};
template<> struct ElemT<std::string_view> : SlotT<'s'> {
    static std::string fmt(std::string_view v) { return "\"" + std::string(v) + "\""; }
};
template<> struct ElemT<bool> {
    static Node gen(Gen& g) { return { 'O', "", 'b', { g.syms(1 + (g.budget > 2 && g.rng.chance(1, 3))) } }; }
    static bool compat(const Node& n) { return n.kind == 'v' || (n.kind == 'O' && collapsible(n)); }
    static std::string fmt(bool v) { return v ? "B1" : "B0"; }
};
template<> struct ElemT<std::size_t> {
    static Node rep(Gen& g) { return { 'R', "", 'z', { g.syms(1 + (g.budget > 2 && g.rng.chance(1, 3))) } }; }
    static Node gen(Gen& g)
    {
        switch (g.rng.below(5)) {
            case 0:
                return SlotT<'z'>::gen(g);
            case 1:
                return rep(g);
            case 2:
            case 3: {
                Node r = rep(g);
                return { 'O', "", 'z', { g.lace({ std::move(r) }, false) } };
            }
            default: {
                Node n = { 'A', "", 'z' };
                std::size_t k = 2 + g.rng.below(3);
                for (std::size_t i = 0; i < k; ++i)
                    n.kids.push_back(g.syms(1 + g.rng.chance(1, 4)));
                return n;
            }
        }
    }
    static bool compat(const Node& n)
    {
        switch (n.kind) {
            case 'v':
                return true;
            case 'R':
            case 'A':
                return collapsible(n);
            case 'O':
                return num_params(n.kids[0]) == 1 && only_param(n.kids[0]).kind == 'R' &&
                    collapsible(only_param(n.kids[0]));
        }
        return false;
    }
    static std::string fmt(std::size_t v) { return std::to_string(v); }
};
template<class U> struct ElemT<std::optional<U>> {
    static Node gen(Gen& g)
    {
        Seq s = SeqT<U>::gen(g);
        return { 'O', "", 'O', { std::move(s) } };
    }
    static bool compat(const Node& n) { return n.kind == 'O' && SeqT<U>::compat(n.kids[0]); }
    static std::string fmt(const std::optional<U>& v) { return v ? "O{" + SeqT<U>::fmt(*v) + "}" : "O-"; }
};
template<class U> struct ElemT<std::vector<U>> {
    static Node gen(Gen& g)
    {
        Seq s = SeqT<U>::gen(g);
        Node r = { 'R', "", 'V', { std::move(s) } };
        if (g.rng.chance(1, 2))
            return r;
        return { 'O', "", 'V', { g.lace({ std::move(r) }, false) } };
    }
    static bool compat(const Node& n)
    {
        if (n.kind == 'R')
            return SeqT<U>::compat(n.kids[0]);
        return n.kind == 'O' && num_params(n.kids[0]) == 1 && only_param(n.kids[0]).kind == 'R' &&
            SeqT<U>::compat(only_param(n.kids[0]).kids[0]);
    }
    static std::string fmt(const std::vector<U>& v)
    {
        std::string s = "V[";
        for (std::size_t i = 0; i < v.size(); ++i)
            s += (i ? ";" : "") + SeqT<U>::fmt(v[i]);
        return s + "]";
    }
};
template<class... U> struct ElemT<std::variant<U...>> {
    static Node gen(Gen& g)
    {
        Node n = { 'A', "", 'A' };
        auto add = [&](Seq s) {
            if (s.size() == 1 && s[0].kind == 'A')
                s.insert(s.begin(), g.sym()); // Else it would be a flattened alternatives construct
            n.kids.push_back(std::move(s));
        };
        (add(SeqT<U>::gen(g)), ...);
        return n;
    }
    static bool compat(const Node& n)
    {
        if (n.kind != 'A' || n.kids.size() != sizeof...(U))
            return false;
        std::size_t i = 0;
        return (true && ... && SeqT<U>::compat(n.kids[i++]));
    }
    static std::string fmt(const std::variant<U...>& v)
    {
        std::string s = "A" + std::to_string(v.index()) + "{";
        std::visit([&](const auto& x) { s += SeqT<std::decay_t<decltype(x)>>::fmt(x); }, v);
        return s + "}";
    }
};

// ---------------------------------------------------------------- worlds

struct OptDecl {
    std::vector<std::string> forms;
    int argmode = 0;      // 0: none, 1: optional, 2: mandatory
    int attr = 0;
    int action = 0;       // See actions.cpp
    std::string cat() const
    {
        std::string s;
        for (const auto& f : forms)
            s += (s.empty() ? "" : ", ") + f;
        return s;
    }
};

struct World;

struct PatDecl {
    Seq tree;
    std::string text;
    const struct Sig* sig = nullptr;
    int kind = 0;     // 0: void func, 1: int func, 2: tie, 3: no_action, 4: delegating
    int status = 0;
    bool completing = false;
    World* sub = nullptr;
};

struct World {
    std::string id;
    std::vector<OptDecl> opts;
    std::vector<PatDecl> pats;
    bool allow_cross = false;
    bool allow_positional = false;
    std::vector<std::unique_ptr<World>> subs;
};

// ---------------------------------------------------------------- oracle: specification errors

struct SpecVerdict {
    std::set<int> ctor;    // Error codes that may be thrown by the constructor of the processor
    std::set<int> process; // Error codes that may be thrown by process()
};

class Auto; // Joint position automaton of a world

struct OptAct { // An option invocation
    int opt;
    bool has_value;
    std::string value;
    std::size_t arg_index;
};

struct Err {
    std::size_t arg_index;
    int code;
    bool operator==(const Err&) const = default;
};

struct Outcome {
    std::vector<std::string> log; // Actions taken, in order
    std::vector<Err> errors;
    bool complete = false;
    int exit_status = 0;
    bool status_assigned = false;
    int matched = -1;                 // Matched pattern in the innermost world
    const World* matched_world = nullptr;
    bool matched_tie = false;
    std::set<std::string> renderings; // Acceptable arguments for the matched pattern
    std::size_t depth = 0;
};

SpecVerdict judge(const World&);
// Structural facts
bool nullable(const Seq&);

class Auto {
public:
    explicit Auto(const World&);
    struct Pos {
        int pat;
        std::string sym;      // "k<kw>", "o<id>", "v"
        std::set<int> follow; // Positions, or -1 for end
    };
    std::vector<Pos> pos;
    std::set<int> start;             // Start set (positions; ends are encoded as ~pattern)
    // A state is a set of positions that may come next; a negative number, ~p, means that pattern p
    // may end here.
    using State = std::set<int>;
    State step(const State&, const std::string& sym) const;
    std::string option_sym(const std::string& form) const;
    bool positional = false, cross = false, prefix_deleg = false;
    std::size_t num_states = 0;
    bool too_big = false;
private:
    const World& m_w;
};

// All ways (as rendered arguments) in which the sequence of symbols can be matched by the pattern
std::set<std::string> match_all(const World&, const PatDecl&, const std::vector<std::string>& syms,
                                const std::vector<std::string>& args, const Auto&, std::size_t limit);

// Expected outcome
struct Model {
    std::vector<std::string> args; // Including args[0]
    bool custom_handler = true;
    int handler_status = 0;
    Outcome run(const World&) const;
};

// Value conversion
bool conv(char type, const std::string& token, std::string& out);
// Option action model: returns false if the argument is bad
bool option_effect(const World&, const OptAct&, std::string& log);
// Does the action allow / require an argument?
bool action_allows(int action);
bool action_requires(int action);
constexpr int num_actions = 16;

// ---------------------------------------------------------------- real side

// Targets of assigning option actions
struct Vars {
    int i = -1;
    bool b = false;
    std::optional<int> oi = -1;
    std::string s = "init";
};

struct Rec {
    std::vector<std::string> log;
    std::string patargs; // Arguments of last invoked pattern
};

std::string var_value(int action, const Vars&);
bool action_assigns(int action);
template<class C> std::basic_string<C> widen(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }

// Strings passed to a specification must stay alive for as long as the specification is used
template<class C> inline std::deque<std::basic_string<C>> kept;
template<class C> const std::basic_string<C>& keep(const std::string& s) { return kept<C>.emplace_back(widen<C>(s)); }

using After = std::map<std::pair<const World*, int>, std::function<void()>>;

// Signature of a pattern function
struct Sig {
    const char* name;
    Seq (*gen)(Gen&);
    bool (*compat)(const Seq&);
    void (*add)(cli::Spec&, const World&, int index, Rec&, After&);
    void (*wadd)(cli::WideSpec&, const World&, int index, Rec&, After&);
};

template<class C, class... P>
void add_pattern(cli::BasicSpec<C>& spec, const World& w, int index, Rec& rec, After& after)
{
    const PatDecl& d = w.pats[std::size_t(index)];
    int attr = (d.completing ? cli::completing : cli::no_attributes);
    const auto& text = keep<C>(d.text);
    std::string head = w.id + "pat" + std::to_string(index);
    auto note = [head, &rec](const P&... p) {
        std::string s;
        ((s += (s.empty() ? "" : ",") + ElemT<P>::fmt(p)), ...);
        rec.log.push_back(head);
        rec.patargs = s;
    };
    switch (d.kind) {
        case 0:
            pat(text, attr, spec, {}, [note](P... p) { note(p...); });
            break;
        case 1:
            pat(text, attr, spec, {}, [note, status = d.status](P... p) {
                note(p...);
                return status;
            });
            break;
        case 2:
            if constexpr (sizeof...(P) > 0) {
                auto vars = std::make_shared<std::tuple<P...>>();
                std::apply([&](P&... p) { pat(text, attr, spec, {}, std::tie(p...)); }, *vars);
                after[{ &w, index }] = [vars, note] { std::apply(note, *vars); };
                break;
            }
            [[fallthrough]];
        case 3:
            pat(text, attr, spec, {}, cli::no_action);
            break;
    }
}

template<class... P> constexpr Sig make_sig(const char* name)
{
    return {
        name,
        [](Gen& g) { return SeqT<std::tuple<P...>>::gen(g, true); },
        [](const Seq& s) { return SeqT<std::tuple<P...>>::compat(s); },
        &add_pattern<char, P...>,
        nullptr,
    };
}
template<class... P> constexpr Sig make_wsig(const char* name)
{
    Sig s = make_sig<P...>(name);
    s.wadd = &add_pattern<wchar_t, P...>;
    return s;
}

std::vector<const Sig*>& all_sigs();
template<std::size_t N> int reg_sigs(const Sig (&sigs)[N])
{
    for (const Sig& s : sigs)
        all_sigs().push_back(&s);
    return int(N);
}

// Run the real thing
struct Real {
    Outcome out;
    std::string patargs;
    std::map<std::string, std::string> vars;
    int ctor_error = -1;
    int process_error = -1;
    std::string what;
};
Real run_real(const World&, const Model&, const Outcome& expected, bool wide, int api);

// ---------------------------------------------------------------- workload

struct WorldCfg {
    std::size_t max_pats = 3;
    std::size_t max_opts = 3;
    int budget = 9;
    bool allow_deleg = true;
    bool wide = false;
    bool bad_options = false; // Occasionally produce invalid option specifications
    bool mismatch = false;    // Occasionally use the wrong type of pattern function
};
World gen_world(vf::Rng&, const WorldCfg&, std::string id);
std::vector<std::string> gen_args(vf::Rng&, const World&);
std::string describe(const World&);
std::string show_args(const std::vector<std::string>&);

// Run and compare
void check_case(vf::Case&, const World&, bool wide);

} // namespace m
