#include "k.hpp"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <random>
#include <set>
#include <thread>
#include <unistd.h>

namespace k {

namespace {

namespace fs = std::filesystem;

bool g_yes() { return true; }
bool g_no() { return false; }

// Overlap detection. Relaxed, such that no synchronization is introduced between the test
// functions.
std::atomic<int> g_running { 0 };
std::atomic<int> g_nonconcur { 0 };
std::atomic<long> g_starts { 0 };
std::atomic<int> g_max_running { 0 };
constexpr auto relaxed = std::memory_order_relaxed;

struct SetFilter : check::Filter {
    const World* w;
    bool include(const check::TestDetails& d) const noexcept override
    {
        for (std::size_t i = 0; i < w->tests.size(); ++i) {
            if (w->tests[i].name == d.name)
                return w->set_filter[i];
        }
        return false;
    }
};

struct RankOrder : check::TestOrder {
    const World* w;
    int rank(std::string_view n) const noexcept
    {
        for (auto& t : w->tests) {
            if (t.name == n)
                return t.rank;
        }
        return 0;
    }
    bool less(const check::TestDetails& a, const check::TestDetails& b) const noexcept override
    {
        return rank(a.name) < rank(b.name);
    }
};

struct Mapper : check::SourcePathMapper {
    bool map(fs::path& p) const override
    {
        p = fs::path("mapped") / p.filename();
        return true;
    }
};

std::string map_path(const World& w, const std::string& p)
{
    if (!w.mapper)
        return p;
    std::size_t i = p.rfind('/');
    return "mapped/" + (i == std::string::npos ? p : p.substr(i + 1));
}

// Independent wildcard matching (dynamic programming)
bool wild(std::string_view p, std::string_view s)
{
    std::vector<bool> row(s.size() + 1);
    row[0] = true;
    for (char ch : p) {
        std::vector<bool> next(s.size() + 1);
        for (std::size_t i = 0; i <= s.size(); ++i) {
            if (ch == '*')
                next[i] = row[i] || (i > 0 && next[i - 1]);
            else
                next[i] = (i > 0 && row[i - 1] && s[i - 1] == ch);
        }
        row = next;
    }
    return row[s.size()];
}

bool wildcard_include(const std::string& filter, const std::string& name)
{
    std::vector<std::string> inc, exc;
    bool second = false;
    std::istringstream in(filter);
    std::string word;
    while (in >> word) {
        if (word == "-" && !second)
            second = true;
        else
            (second ? exc : inc).push_back(word);
    }
    if (inc.empty())
        inc.push_back("*");
    auto any = [&](const std::vector<std::string>& v) {
        return std::any_of(v.begin(), v.end(), [&](auto& p) { return wild(p, name); });
    };
    return any(inc) && !any(exc);
}

struct GuardPath : check::TestPath {
    GuardPath(fs::path p, std::vector<std::string>* ops) noexcept
        : check::TestPath(std::move(p))
        , ops(ops)
    {
    }
    std::vector<std::string>* ops;
    // Stand-ins that record rather than delete
    void prepare(const check::TestContext&) { ops->push_back("prepare"); }
    void cleanup(const check::TestContext&) { ops->push_back("cleanup"); }
};

// Receives calls that the runner promises never to overlap, and which it promises to make in
// a particular order. Deliberately without any synchronization.
struct Recorder : check::Reporter {
    struct Exec {
        int begins = 0, ends = 0;
        std::vector<std::tuple<std::string, std::string, long, std::string>> fails; // mapped, unmapped, line, message
        int thread = -1;
        double elapsed = -1;
    };
    struct Thread {
        int begins = 0, ends = 0;
    };
    std::atomic<int> inside { 0 };
    std::vector<std::string> violations;
    std::map<std::pair<std::size_t, int>, Exec> execs;
    std::map<int, Thread> threads;
    std::vector<std::pair<std::size_t, int>> begin_order;
    std::vector<std::string> names; // By test index
    int root_begins = 0, root_ends = 0;
    int num_threads = -1;
    long num_tests = -1, num_execs = -1;
    int reps = -1;
    check::Summary summary = {};

    struct Enter {
        Recorder& r;
        Enter(Recorder& r, const char* what)
            : r(r)
        {
            if (r.inside.fetch_add(1, relaxed) != 0)
                r.violations.push_back(std::string("overlapping reporter call: ") + what);
            if (r.root_ends > 0)
                r.violations.push_back(std::string("reporter call after root_end: ") + what);
        }
        ~Enter() { r.inside.fetch_sub(1, relaxed); }
    };
    void bad(std::string s) { violations.push_back(std::move(s)); }

    void root_begin(const check::RootContext& c) override
    {
        Enter e(*this, "root_begin");
        if (++root_begins != 1)
            bad("root_begin more than once");
        num_threads = c.num_threads;
        num_tests = long(c.num_tests);
        num_execs = long(c.num_test_executions);
        reps = c.num_repetitions;
        for (std::size_t i = 0; i < c.num_tests; ++i)
            names.push_back(std::string(c.get_test_details(i).name));
    }
    void thread_begin(const check::ThreadContext& c) override
    {
        Enter e(*this, "thread_begin");
        if (root_begins != 1)
            bad("thread_begin before root_begin");
        if (c.thread_index < 0 || c.thread_index >= num_threads)
            bad("bad thread index");
        if (++threads[c.thread_index].begins != 1)
            bad("thread_begin more than once");
    }
    void begin(const check::TestContext& c, log::Logger&) override
    {
        Enter e(*this, "begin");
        auto key = std::make_pair(c.test_index, c.repetition_no);
        Exec& x = execs[key];
        if (++x.begins != 1)
            bad("begin more than once");
        x.thread = c.thread_context.thread_index;
        if (threads[x.thread].begins != 1 || threads[x.thread].ends != 0)
            bad("begin outside the life of its test thread");
        if (c.test_index >= names.size() || names[c.test_index] != c.test_details.name)
            bad("test index and details disagree");
        begin_order.push_back(key);
    }
    void fail(const check::FailContext& c, std::string_view message, log::Logger&) override
    {
        Enter e(*this, "fail");
        Exec& x = execs[std::make_pair(c.test_context.test_index, c.test_context.repetition_no)];
        if (x.begins != 1 || x.ends != 0)
            bad("fail outside of execution");
        x.fails.emplace_back(std::string(c.mapped_file_path), std::string(c.location.file_path), c.location.line_number, std::string(message));
    }
    void end(const check::TestContext& c, double elapsed, log::Logger&) override
    {
        Enter e(*this, "end");
        Exec& x = execs[std::make_pair(c.test_index, c.repetition_no)];
        if (x.begins != 1 || ++x.ends != 1)
            bad("end without begin, or more than once");
        if (x.thread != c.thread_context.thread_index)
            bad("end in different thread");
        if (!(elapsed >= 0 && elapsed < 600))
            bad("bad elapsed time");
        x.elapsed = elapsed;
        if (threads[x.thread].ends != 0)
            bad("end after thread_end");
    }
    void thread_end(const check::ThreadContext& c) override
    {
        Enter e(*this, "thread_end");
        Thread& t = threads[c.thread_index];
        if (t.begins != 1)
            bad("thread_end without thread_begin");
        if (++t.ends != 1)
            bad("thread_end more than once");
    }
    void root_end(const check::RootContext&, const check::Summary& s) override
    {
        Enter e(*this, "root_end");
        for (auto& p : threads) {
            if (p.second.ends != 1)
                bad("root_end before thread_end");
        }
        if (long(threads.size()) != num_threads)
            bad("thread_begin was not called for each test thread");
        ++root_ends;
        summary = s;
    }
};

struct Running {
    const World* w;
    std::vector<std::vector<Slot>> slots; // By test, repetition
    std::thread::id caller;
};

void delay(Gen& g, int mode)
{
    switch (mode) {
        case 0:
            return;
        case 1:
            for (std::uint64_t n = g.below(4); n > 0; --n)
                std::this_thread::yield();
            return;
        case 2:
            std::this_thread::sleep_for(std::chrono::microseconds(g.below(300)));
            return;
        case 3:
            // A few slow ones
            if (g.chance(1, 4))
                std::this_thread::sleep_for(std::chrono::microseconds(500 + g.below(1500)));
            return;
    }
}

void actions(check::TestContext& test_context, const World& w, Gen& g, Out& o, int depth)
{
    int n = int(g.below(std::uint64_t(w.max_actions) + 1));
    for (int i = 0; i < n; ++i) {
        if (!w.rich) {
            bool cond = !g.chance(unsigned(w.fail_percent), 100);
            bool r = ARCHON_CHECK(cond); o.done(r, cond, __FILE__, __LINE__, [] { Fail f; f.prefix = "ARCHON_CHECK(cond) failed"; f.exact = true; return f; });
            continue;
        }
        switch (g.below(8)) {
            case 0:
                if (depth < 3) {
                    std::string seg = "seg" + std::to_string(g.below(100));
                    check::TestContext& parent_test_context = test_context;
                    ARCHON_TEST_TRAIL(parent_test_context, seg);
                    Out p { o.slot, o.trail + seg + ": " };
                    actions(test_context, w, g, p, depth + 1);
                }
                break;
            case 1:
                test_context.logger.info("inner %s%s#%s", o.trail, test_context.test_details.name, test_context.repetition_no);
                ++o.slot->inner_logs;
                break;
            case 2:
            case 3:
                (*(&relation_sites[g.below(relation_sites.size())]))(test_context, g, o);
                break;
            case 4:
                (*(&dist_sites[g.below(dist_sites.size())]))(test_context, g, o);
                break;
            default:
                (*(&other_sites[g.below(other_sites.size())]))(test_context, g, o);
        }
        if (g.chance(1, 8))
            delay(g, w.delay_mode);
    }
}

void test_func(Running& run, std::size_t index, check::TestContext& test_context)
{
    const World& w = *run.w;
    const TestSpec& spec = w.tests[index];
    int rep = test_context.repetition_no;
    if (rep < 1 || rep > w.reps) {
        // Recorded on first slot, racy only if already wrong
        run.slots[index][0].violations.push_back("bad repetition number");
        return;
    }
    Slot& slot = run.slots[index][std::size_t(rep - 1)];
    auto bad = [&](std::string s) { slot.violations.push_back(std::move(s)); };
    // Enter
    int now = g_running.fetch_add(1, relaxed) + 1;
    long start = g_starts.fetch_add(1, relaxed) + 1;
    int max = g_max_running.load(relaxed);
    while (now > max && !g_max_running.compare_exchange_weak(max, now, relaxed)) {
    }
    ++slot.count;
    if (slot.in_progress)
        bad("execution overlaps itself");
    slot.in_progress = true;
    slot.on_calling_thread = (std::this_thread::get_id() == run.caller);
    if (g_nonconcur.load(relaxed) != 0)
        bad("execution begins while nonconcurrent test is executing");
    if (!spec.concur) {
        g_nonconcur.fetch_add(1, relaxed);
        if (now != 1)
            bad("nonconcurrent test begins while other test is executing");
    }
    struct Leave {
        Slot& slot;
        const TestSpec& spec;
        long start;
        ~Leave()
        {
            if (!spec.concur) {
                if (g_starts.load(relaxed) != start)
                    slot.violations.push_back("other test began while nonconcurrent test was executing");
                g_nonconcur.fetch_sub(1, relaxed);
            }
            slot.in_progress = false;
            g_running.fetch_sub(1, relaxed);
        }
    } leave { slot, spec, start };

    if (test_context.test_details.name != spec.name || test_context.test_details.location.file_path != spec.file || test_context.test_details.location.line_number != spec.line)
        bad("wrong test details");
    if (test_context.mapped_file_path != map_path(w, spec.file))
        bad("wrong mapped file path: " + std::string(test_context.mapped_file_path));
    if (test_context.keep_test_files() != w.keep_files)
        bad("wrong keep_test_files");

    Gen g { w.seed + index * 1000003 + std::uint64_t(rep) * 7919 };
    g.next();
    slot.seeds.resize(4);
    test_context.seed_seq().generate(slot.seeds.begin(), slot.seeds.end());
    slot.path = test_context.make_test_path(".x").string();
    delay(g, w.delay_mode);
    Out o { &slot, "" };
    if (w.rich && g.chance(1, 6)) {
        std::vector<std::string> ops;
        {
            check::TestPathGuard<GuardPath> guard(test_context, ".y", &ops);
            if (guard.path().path() != test_context.make_test_path(".y"))
                bad("wrong guard path");
            check::TestPathGuard<GuardPath> other(std::move(guard));
            ops.push_back("in use");
        }
        std::vector<std::string> expected = { "cleanup", "prepare", "in use" };
        if (!w.keep_files)
            expected.push_back("cleanup");
        if (ops != expected)
            bad("wrong operations on test path: " + vf::show(ops));
    }
    actions(test_context, w, g, o, 0);
    delay(g, w.delay_mode);
    if (g.chance(unsigned(w.throw_percent), 100)) {
        std::string what = "what " + std::to_string(g.below(100));
        if (w.noisy_text) {
            static const char* const pool[] = { " <a href=\"x\">&amp;</a>", " 'q' > \"", " ]]> --> <!--", " \x01\x02\x1f\x7f", "\ttab", "", " %s %d @1", "\\\"", "\nsecond line", "\r\n" };
            what += pool[g.below(10)];
        }
        slot.failed = true;
        Fail f;
        f.file = spec.file;
        f.line = spec.line;
        switch (g.below(3)) {
            case 0:
                f.prefix = "Unhandled exception";
                f.parts = { "std::runtime_error", what };
                slot.fails.push_back(f);
                throw std::runtime_error(what);
            case 1:
                f.prefix = "Unhandled exception";
                f.parts = { "unknown" };
                slot.fails.push_back(f);
                throw MyExc { 1 };
            case 2: {
                // Wrong kind of exception is not a check, but fails the test
                f.prefix = "Unhandled exception";
                f.parts = { "std::runtime_error", what };
                slot.fails.push_back(f);
                ARCHON_CHECK_THROW(throw std::runtime_error(what), std::logic_error);
            }
        }
    }
}

} // namespace

std::string describe(const World& w)
{
    std::ostringstream o;
    o << "threads=" << w.threads << " reps=" << w.reps << " shuffle=" << w.shuffle << " order=" << w.order << " patterns=" << vf::show(w.patterns);
    if (w.use_wildcard)
        o << " wildcard=" << vf::show(w.wildcard);
    o << " set_filter=" << w.use_set_filter << " delay=" << w.delay_mode << " fail%=" << w.fail_percent << " seed=" << w.seed << " tests:";
    for (std::size_t i = 0; i < w.tests.size(); ++i) {
        auto& t = w.tests[i];
        o << " " << t.name << (t.concur ? "" : "[nonconcur]") << (t.enabled ? "" : "[disabled]");
        if (w.use_set_filter)
            o << (w.set_filter[i] ? "" : "[excluded]");
        if (w.order == 1)
            o << "@" << t.rank;
    }
    return o.str();
}

World make_world(vf::Case& c, bool rich)
{
    World w;
    w.rich = rich;
    w.seed = c.rng.next();
    static const char* const files[] = { "a/b/test_1.cpp", "a/test_2.cpp", "test_3.cpp", "x/y<&>/test_4.cpp" };
    std::size_t n = (c.rng.chance(1, 20) ? 0 : c.rng.chance(1, 4) ? 1 + c.rng.below(2) : 1 + c.rng.below(rich ? 8 : 24));
    int concur_percent = int(c.rng.pick({ 0, 50, 80, 95, 100 }));
    std::set<std::string> names;
    const char* alphabet = (rich && c.rng.chance(1, 6) ? "ab<&>'\"" : "abC_");
    for (std::size_t i = 0; i < n; ++i) {
        TestSpec t;
        do {
            t.name.clear();
            std::size_t len = 1 + c.rng.below(6);
            for (std::size_t j = 0; j < len; ++j)
                t.name += alphabet[c.rng.below(std::string(alphabet).size())];
        } while (!names.insert(t.name).second);
        t.file = files[c.rng.below(4)];
        t.line = 1 + long(c.rng.below(5000));
        t.concur = c.rng.chance(unsigned(concur_percent), 100);
        t.enabled = !c.rng.chance(1, 8);
        t.rank = int(c.rng.below(4));
        w.tests.push_back(std::move(t));
    }
    w.reps = int(c.rng.chance(1, 30) ? 0 : c.rng.chance(1, 2) ? 1 : 1 + c.rng.below(rich ? 3 : 6));
    w.threads = int(c.rng.chance(1, 20) ? 0 : c.rng.chance(1, 5) ? 1 : 1 + c.rng.below(8));
    w.shuffle = c.rng.chance(1, 3);
    for (std::size_t k = c.rng.below(3) * 6; k > 0; --k)
        w.rseed.push_back(std::uint32_t(c.rng.next()));
    if (c.rng.chance(1, 4))
        w.rseed_override = int(1 + c.rng.below(100));
    auto pattern = [&] {
        std::string p;
        std::size_t len = c.rng.below(4);
        for (std::size_t i = 0; i < len; ++i)
            p += "abC_***"[c.rng.below(7)];
        if (p.empty())
            p = "*";
        if (!w.tests.empty() && c.rng.chance(1, 3)) {
            p = w.tests[c.rng.below(w.tests.size())].name;
            if (c.rng.chance(1, 2))
                p[c.rng.below(p.size())] = '*';
        }
        return p;
    };
    switch (c.rng.below(4)) {
        case 0: {
            w.use_wildcard = true;
            static const char* const seps[] = { " ", "  ", "   ", " " };
            auto sep = [&] { return seps[c.rng.chance(3, 4) ? 0 : c.rng.below(4)]; };
            if (c.rng.chance(1, 5))
                w.wildcard += sep();
            for (std::size_t k = c.rng.below(4); k > 0; --k)
                w.wildcard += pattern() + sep();
            if (c.rng.chance(1, 2)) {
                w.wildcard += std::string("-") + sep();
                for (std::size_t k = c.rng.below(3); k > 0; --k)
                    w.wildcard += pattern() + sep();
            }
            if (!w.wildcard.empty() && c.rng.chance(1, 2)) {
                while (!w.wildcard.empty() && std::string(" \t\n").find(w.wildcard.back()) != std::string::npos)
                    w.wildcard.pop_back();
            }
            break;
        }
        case 1:
            w.use_set_filter = true;
            for (std::size_t i = 0; i < n; ++i)
                w.set_filter.push_back(c.rng.chance(2, 3));
            break;
    }
    w.order = int(c.rng.below(4));
    if (w.order == 2) {
        for (std::size_t k = c.rng.below(4); k > 0; --k)
            w.patterns.push_back(pattern());
    }
    else if (w.order == 3) {
        w.order = 0;
    }
    w.inner_log = c.rng.chance(1, 2);
    w.keep_files = c.rng.chance(1, 4);
    w.mapper = c.rng.chance(1, 3);
    w.progress = c.rng.chance(1, 3);
    w.reporters = (rich || c.rng.chance(1, 2) ? 1 : 0);
    w.fail_percent = int(c.rng.pick({ 0, 0, 1, 10, 50 }));
    w.throw_percent = int(c.rng.pick({ 0, 0, 3, 20 }));
    w.max_actions = int(rich ? 2 + c.rng.below(10) : c.rng.below(6));
    w.delay_mode = int(c.rng.below(4));
    if (rich && n > 8)
        w.delay_mode = 0;
    w.noisy_text = rich && c.rng.chance(1, 2);
    if (c.rng.chance(1, 3))
        w.suite = c.rng.chance(1, 2) ? "Suite" : "S<&\">'";
    w.log_to_files = rich && c.rng.chance(1, 4);
    return w;
}

void check_world(vf::Case& c, const World& w)
{
    auto ctx = [&](std::ostream& o) { o << describe(w); };

    // Expected selection and order
    std::vector<std::size_t> sel;
    long num_disabled = 0, num_excluded = 0;
    for (std::size_t i = 0; i < w.tests.size(); ++i) {
        if (!w.tests[i].enabled) {
            ++num_disabled;
            continue;
        }
        bool in = (w.use_wildcard ? wildcard_include(w.wildcard, w.tests[i].name) : w.use_set_filter ? bool(w.set_filter[i]) : true);
        if (!in) {
            ++num_excluded;
            continue;
        }
        sel.push_back(i);
    }
    if (w.order != 0) {
        auto rank = [&](std::size_t i) {
            if (w.order == 1)
                return w.tests[i].rank;
            for (std::size_t j = 0; j < w.patterns.size(); ++j) {
                if (wild(w.patterns[j], w.tests[i].name))
                    return int(j);
            }
            return int(w.patterns.size());
        };
        std::stable_sort(sel.begin(), sel.end(), [&](auto a, auto b) { return rank(a) < rank(b); });
    }

    // Build
    Running run;
    run.w = &w;
    run.slots.resize(w.tests.size());
    for (auto& v : run.slots)
        v.resize(std::size_t(std::max(w.reps, 1)));
    check::TestList list;
    for (std::size_t i = 0; i < w.tests.size(); ++i) {
        auto& t = w.tests[i];
        list.add(t.name, t.file.c_str(), t.line, [&run, i](check::TestContext& tc) { test_func(run, i, tc); }, t.enabled ? (i % 2 == 0 ? &g_yes : nullptr) : &g_no, t.concur);
    }
    Recorder recorder;
    std::ostringstream xml_out, log_out;
    log_out.imbue(std::locale::classic());
    log::StreamLogger logger(log_out);
    check::XmlReporter xml(xml_out, w.suite);
    check::SimpleReporter simple(w.progress);
    check::DuplicatingReporter dup { &recorder, &simple, &xml };
    check::TestConfig config;
    config.num_repetitions = w.reps;
    config.num_threads = w.threads;
    config.shuffle = w.shuffle;
    config.test_list = &list;
    SetFilter set_filter;
    set_filter.w = &w;
    std::unique_ptr<check::WildcardFilter> wf;
    if (w.use_wildcard) {
        wf = std::make_unique<check::WildcardFilter>(w.wildcard);
        config.filter = wf.get();
    }
    else if (w.use_set_filter) {
        config.filter = &set_filter;
    }
    RankOrder rank_order;
    rank_order.w = &w;
    std::unique_ptr<check::PatternBasedTestOrder> po;
    if (w.order == 1) {
        config.test_order = &rank_order;
    }
    else if (w.order == 2) {
        std::vector<std::string_view> v(w.patterns.begin(), w.patterns.end());
        po = std::make_unique<check::PatternBasedTestOrder>(core::Span<const std::string_view>(v.data(), v.size()));
        config.test_order = po.get();
    }
    Mapper mapper;
    if (w.mapper)
        config.source_path_mapper = &mapper;
    config.logger = &logger;
    config.keep_test_files = w.keep_files;
    if (w.inner_log)
        config.inner_log_level_limit = log::LogLevel::info;
    if (w.reporters == 0)
        config.reporter = &recorder;
    else
        config.reporter = &dup;
    fs::path base = fs::path(c.tmp_dir) / ("k" + std::to_string(c.index));
    fs::create_directories(base);
    config.test_file_base_dir = base;
    config.test_file_subdir = "sub/dir";
    if (w.log_to_files) {
        config.log_to_files = true;
        config.log_file_base_dir = base;
        config.log_path_template = "log/t@i.log";
    }
    config.random_seed = check::RandomSeed(core::Span<const std::uint32_t>(w.rseed.data(), w.rseed.size()));
    config.rseed_rep_no_override = w.rseed_override;

    // Run
    run.caller = std::this_thread::get_id();
    g_running = 0;
    g_nonconcur = 0;
    g_starts = 0;
    g_max_running = 0;
    check::TestRunner runner(std::move(config));
    bool verdict = runner.run();

    // Judge the executions
    long expected_execs = long(sel.size()) * w.reps;
    long total_checks = 0, total_failed_checks = 0, total_failed = 0, executed = 0;
    std::vector<std::size_t> rev(w.tests.size(), std::size_t(-1));
    for (std::size_t j = 0; j < sel.size(); ++j)
        rev[sel[j]] = j;
    std::string rel = (base / "sub/dir").string();
    std::set<std::string> paths;
    for (std::size_t i = 0; i < w.tests.size(); ++i) {
        for (int r = 1; r <= std::max(w.reps, 1); ++r) {
            const Slot& s = run.slots[i][std::size_t(r - 1)];
            auto ectx = [&](std::ostream& o) { o << "test " << w.tests[i].name << "#" << r << " in " << describe(w); };
            int expected = (rev[i] != std::size_t(-1) && r <= w.reps ? 1 : 0);
            VF_REQUIRE(s.count == expected, "execution-count", "executed " << s.count << " times, expected " << expected << ": " << ectx);
            VF_REQUIRE(s.violations.empty(), "test-environment", vf::show(s.violations) << ": " << ectx);
            if (s.count == 0)
                continue;
            ++executed;
            if (!w.tests[i].concur)
                VF_REQUIRE(s.on_calling_thread, "nonconcurrent-thread", "nonconcurrent test executed by other thread: " << ectx);
            total_checks += s.checks;
            total_failed += (s.failed ? 1 : 0);
            // Seed
            std::vector<std::uint32_t> init = w.rseed;
            init.push_back(std::uint32_t(w.rseed_override != 0 ? w.rseed_override : r));
            init.push_back(0);
            std::seed_seq sq(init.begin(), init.end());
            std::vector<std::uint32_t> exp(4);
            sq.generate(exp.begin(), exp.end());
            VF_REQUIRE(s.seeds == exp, "seed-sequence", "unexpected seed sequence: " << ectx);
            VF_REQUIRE(paths.insert(s.path).second, "test-path-unique", s.path << ": " << ectx);
            VF_REQUIRE(s.path.compare(0, rel.size() + 1, rel + "/") == 0 && s.path.find(w.tests[i].name) != std::string::npos, "test-path", s.path << ": " << ectx);
        }
    }
    VF_EQ(executed, expected_execs, "total-executions", ctx);

    // Judge the reporter's view
    VF_REQUIRE(recorder.violations.empty(), "reporter-protocol", vf::show(recorder.violations) << ": " << ctx);
    VF_REQUIRE(recorder.root_begins == 1 && recorder.root_ends == 1, "reporter-root", ctx);
    VF_EQ(recorder.num_tests, long(sel.size()), "root-context-num-tests", ctx);
    VF_EQ(recorder.num_execs, expected_execs, "root-context-num-executions", ctx);
    VF_EQ(recorder.reps, w.reps, "root-context-num-repetitions", ctx);
    int max_threads = (w.threads != 0 ? w.threads : std::max(1, int(std::thread::hardware_concurrency())));
    VF_REQUIRE(recorder.num_threads <= max_threads, "too-many-threads", recorder.num_threads << ": " << ctx);
    VF_REQUIRE(g_max_running.load() <= std::max(recorder.num_threads, 1), "too-much-concurrency", g_max_running.load() << " concurrent executions in " << recorder.num_threads << " threads: " << ctx);
    for (std::size_t j = 0; j < sel.size(); ++j)
        VF_EQ(recorder.names[j], w.tests[sel[j]].name, "selection-order", ctx);
    VF_EQ(long(recorder.execs.size()), expected_execs, "reported-executions", ctx);
    if (!w.shuffle) {
        // Executions are initiated in order
        long last_c = -1, last_n = -1, last = -1;
        for (auto& key : recorder.begin_order) {
            long pos = long(key.second - 1) * long(sel.size()) + long(key.first);
            long& l = (max_threads == 1 ? last : w.tests[sel[key.first]].concur ? last_c : last_n);
            VF_REQUIRE(pos > l, "initiation-order", "execution " << key.first << "#" << key.second << " out of order: " << ctx);
            l = pos;
        }
    }
    else if (expected_execs > 1) {
        c.event("shuffled_run", 1);
    }
    std::vector<std::string> expected_log_lines;
    for (auto& p : recorder.execs) {
        std::size_t i = sel[p.first.first];
        int r = p.first.second;
        const Slot& s = run.slots[i][std::size_t(r - 1)];
        auto& x = p.second;
        auto ectx = [&](std::ostream& o) { o << "test " << w.tests[i].name << "#" << r << " in " << describe(w); };
        VF_REQUIRE(x.begins == 1 && x.ends == 1, "begin-end", ectx);
        VF_REQUIRE(x.fails.size() == s.fails.size(), "number-of-failures", "reported " << x.fails.size() << " failures, expected " << s.fails.size() << ": " << ectx);
        for (std::size_t k = 0; k < s.fails.size(); ++k) {
            auto& [mapped, file, line, msg] = x.fails[k];
            const Fail& f = s.fails[k];
            VF_REQUIRE(file == f.file && line == f.line, "failure-location", file << ":" << line << ", expected " << f.file << ":" << f.line << ": " << ectx);
            VF_EQ(mapped, map_path(w, f.file), "failure-mapped-path", ectx);
            // Whether the name of this one macro is right is decided by k02_nothrow
            std::string judged = msg;
            const std::string misnomer = "ARCHON_CHECK_THROW_ANY(";
            if (f.prefix.compare(0, 21, "ARCHON_CHECK_NOTHROW(") == 0 && msg.compare(0, misnomer.size(), misnomer) == 0)
                judged = "ARCHON_CHECK_NOTHROW(" + msg.substr(misnomer.size());
            bool good = (judged.compare(0, f.prefix.size(), f.prefix) == 0 && (!f.exact || judged == f.prefix));
            std::size_t at = f.prefix.size();
            for (auto& part : f.parts) {
                at = (good ? judged.find(part, at) : 0);
                good = (good && at != std::string::npos);
            }
            VF_REQUIRE(good, "failure-message", "message " << vf::show(msg) << ", expected " << vf::show(f.prefix) << (f.exact ? "" : "...") << " " << vf::show(f.parts) << ": " << ectx);
            if (f.prefix.compare(0, 9, "Unhandled") != 0)
                ++total_failed_checks;
            std::ostringstream o;
            o << mapped << ":" << line << ": " << w.tests[i].name;
            if (w.reps > 1)
                o << "#" << r;
            o << ": " << f.trail << "ERROR: ";
            // Every line of a message carries the prefix
            std::size_t at_2 = 0;
            for (;;) {
                std::size_t e = msg.find('\n', at_2);
                expected_log_lines.push_back(o.str() + msg.substr(at_2, e == std::string::npos ? e : e - at_2));
                if (e == std::string::npos)
                    break;
                at_2 = e + 1;
            }
        }
    }
    const check::Summary& sum = recorder.summary;
    VF_EQ(sum.num_disabled_tests, num_disabled, "summary-disabled", ctx);
    VF_EQ(sum.num_excluded_tests, num_excluded, "summary-excluded", ctx);
    VF_EQ(sum.num_selected_tests, long(sel.size()), "summary-selected", ctx);
    VF_EQ(sum.num_test_executions, expected_execs, "summary-executions", ctx);
    VF_EQ(sum.num_checks, static_cast<long long>(total_checks), "summary-checks", ctx);
    VF_EQ(sum.num_failed_checks, static_cast<long long>(total_failed_checks), "summary-failed-checks", ctx);
    VF_EQ(sum.num_failed_test_executions, total_failed, "summary-failed-executions", ctx);
    VF_EQ(verdict, total_failed == 0, "verdict", ctx);

    // Judge the log
    std::vector<std::string> lines;
    auto split = [&](const std::string& text) {
        std::istringstream in(text);
        std::string l;
        while (std::getline(in, l))
            lines.push_back(l);
    };
    split(log_out.str());
    std::size_t num_main_lines = lines.size();
    if (w.log_to_files) {
        for (int t = 0; t < recorder.num_threads; ++t) {
            std::ifstream in(base / ("log/t" + std::to_string(t) + ".log"));
            VF_REQUIRE(bool(in), "log-file-missing", "thread " << t << ": " << ctx);
            std::ostringstream o;
            o << in.rdbuf();
            split(o.str());
        }
    }
    if (w.reporters != 0) {
        std::vector<std::string> got;
        for (auto& l : lines) {
            if (l.find(": ERROR: ") == std::string::npos)
                continue;
            std::string m = l;
            if (m.compare(0, 7, "Thread[") == 0)
                m = m.substr(m.find(": ") + 2);
            got.push_back(m);
        }
        std::sort(got.begin(), got.end());
        std::sort(expected_log_lines.begin(), expected_log_lines.end());
        VF_REQUIRE(got == expected_log_lines, "log-failures", [&](std::ostream& o) {
            for (auto& g : got) {
                if (!std::binary_search(expected_log_lines.begin(), expected_log_lines.end(), g))
                    o << "unexpected " << vf::show(g) << "\n";
            }
            for (auto& g : expected_log_lines) {
                if (!std::binary_search(got.begin(), got.end(), g))
                    o << "missing " << vf::show(g) << "\n";
            }
            o << got.size() << " lines, expected " << expected_log_lines.size() << ": " << describe(w);
        });
        // The verdict line
        bool says_success = false, says_failure = false;
        for (std::size_t i = 0; i < num_main_lines; ++i) {
            says_success = (says_success || lines[i].compare(0, 9, "Success: ") == 0);
            says_failure = (says_failure || lines[i].compare(0, 9, "FAILURE: ") == 0);
            if (lines[i].compare(0, 9, "FAILURE: ") == 0) {
                std::ostringstream o;
                o << "FAILURE: " << total_failed << " out of " << expected_execs << " ";
                std::ostringstream p;
                p << "(" << total_failed_checks << " out of " << total_checks << " ";
                VF_REQUIRE(lines[i].compare(0, o.str().size(), o.str()) == 0 && lines[i].find(p.str()) != std::string::npos, "log-verdict", lines[i] << ": expected " << o.str() << p.str() << ": " << ctx);
            }
        }
        VF_REQUIRE(says_success == (total_failed == 0) && says_failure == (total_failed != 0), "log-verdict", "success=" << says_success << " failure=" << says_failure << ": " << ctx);
        if (w.rich) {
            long inner = 0, expected_inner = 0;
            for (auto& v : run.slots) {
                for (auto& s : v)
                    expected_inner += s.inner_logs;
            }
            for (auto& l : lines)
                inner += (l.find("Inner: ") != std::string::npos && l.find("inner ") != std::string::npos ? 1 : 0);
            VF_EQ(inner, w.inner_log ? expected_inner : 0, "inner-log-lines", ctx);
            c.event("inner_log_lines", inner);
        }

        // Judge the XML report
        XmlNode root;
        std::string err;
        bool wf_ok = parse_xml(xml_out.str(), root, err);
        VF_REQUIRE(wf_ok, "xml-well-formed", err << "\n" << xml_out.str().substr(0, 2000) << "\n" << ctx);
        VF_EQ(root.tag, std::string("unittest-results"), "xml-root", ctx);
        VF_EQ(root.attrs["tests"], std::to_string(expected_execs), "xml-tests", ctx);
        VF_EQ(root.attrs["failedtests"], std::to_string(total_failed), "xml-failedtests", ctx);
        VF_EQ(root.attrs["checks"], std::to_string(total_checks), "xml-checks", ctx);
        VF_EQ(root.attrs["failures"], std::to_string(total_failed_checks), "xml-failures", ctx);
        VF_EQ(long(root.children.size()), expected_execs, "xml-number-of-tests", ctx);
        std::set<std::string> seen;
        for (auto& n : root.children) {
            VF_EQ(n.tag, std::string("test"), "xml-test-tag", ctx);
            VF_EQ(n.attrs["suite"], w.suite, "xml-suite", ctx);
            std::string name = n.attrs["name"];
            VF_REQUIRE(seen.insert(name).second, "xml-duplicate-test", name << ": " << ctx);
            int rep = 1;
            std::string base_name = name;
            if (w.reps > 1) {
                std::size_t k = name.rfind('#');
                VF_REQUIRE(k != std::string::npos, "xml-test-name", name << ": " << ctx);
                rep = std::stoi(name.substr(k + 1));
                base_name = name.substr(0, k);
            }
            auto i = std::find_if(sel.begin(), sel.end(), [&](std::size_t j) { return w.tests[j].name == base_name; });
            VF_REQUIRE(i != sel.end() && rep >= 1 && rep <= w.reps, "xml-unknown-test", name << ": " << ctx);
            const Slot& s = run.slots[*i][std::size_t(rep - 1)];
            VF_EQ(n.children.size(), s.fails.size(), "xml-test-failures", name << ": " << ctx);
            auto& fails = recorder.execs[std::make_pair(rev[*i], rep)].fails;
            for (std::size_t k = 0; k < s.fails.size(); ++k) {
                auto& [mapped, file, line, msg] = fails[k];
                std::string m = n.children[k].attrs["message"];
                std::string e = mapped + "(" + std::to_string(line) + ") : " + msg;
                bool same = (m == e);
                if (!same) {
                    // Characters that cannot occur in XML may be shown in some other way
                    std::string pre = e.substr(0, std::size_t(std::find_if(e.begin(), e.end(), [](char ch) { return static_cast<unsigned char>(ch) < 32; }) - e.begin()));
                    same = (pre.size() < e.size() && m.compare(0, pre.size(), pre) == 0);
                    c.event("xml_unrepresentable", 1);
                }
                VF_REQUIRE(same, "xml-failure-message", vf::show(m) << ", expected " << vf::show(e) << ": " << ctx);
            }
        }
        c.event("xml_reports", 1);
    }
    std::error_code ec;
    if (base.string().find("/k" + std::to_string(c.index)) != std::string::npos && !c.tmp_dir.empty())
        fs::remove_all(base, ec);

    c.event("executions", executed);
    c.event("checks", total_checks);
    c.event("failed_checks", total_failed_checks);
    c.event("failed_executions", total_failed);
    if (g_max_running.load() > 1)
        c.event("runs_with_real_concurrency", 1);
    bool has_c = false, has_n = false;
    for (std::size_t i : sel)
        (w.tests[i].concur ? has_c : has_n) = true;
    if (has_c && has_n && recorder.num_threads > 1)
        c.event("mixed_multithreaded_runs", 1);
    vf::Hash h;
    for (auto& key : recorder.begin_order)
        h.add(key.first).add(key.second).add(recorder.execs[key].thread);
    c.nontrivial(h.add(total_checks).add(total_failed).get());
    c.sample([&](std::ostream& o) {
        o << describe(w) << " -> " << executed << " executions, " << total_failed << " failed, max concurrency " << g_max_running.load();
    });
}

VF_MONITOR(k01_schedule, 8000, 100000)
{
    World w = make_world(c, false);
    check_world(c, w);
}

VF_MONITOR(k01_duplicates, 1000, 5000)
{
    World w = make_world(c, false);
    if (w.tests.empty())
        return;
    int n = 0;
    check::TestList list;
    for (auto& t : w.tests)
        list.add(t.name, t.file.c_str(), t.line, [&](check::TestContext&) { ++n; }, t.enabled ? nullptr : &g_no, t.concur);
    auto& t = w.tests[c.rng.below(w.tests.size())];
    std::string copy = t.name;
    list.add(copy, "other.cpp", 7, [&](check::TestContext&) { ++n; });
    check::TestConfig config;
    config.test_list = &list;
    config.num_threads = w.threads;
    config.test_file_base_dir = c.tmp_dir;
    config.test_file_subdir = "";
    std::ostringstream out;
    log::StreamLogger logger(out);
    config.logger = &logger;
    bool threw = false;
    try {
        check::TestRunner runner(std::move(config));
        runner.run();
    }
    catch (std::runtime_error&) {
        threw = true;
    }
    VF_REQUIRE(threw && n == 0, "duplicate-name", "two tests named " << copy << ": threw=" << threw << ", executed " << n);
    // Seed round trip
    std::vector<std::uint32_t> words;
    for (std::size_t k = c.rng.below(4) * 6; k > 0; --k)
        words.push_back(c.rng.chance(1, 6) ? 0xFFFFFFFFu : c.rng.chance(1, 6) ? 0 : std::uint32_t(c.rng.next()));
    check::RandomSeed seed(core::Span<const std::uint32_t>(words.data(), words.size())), seed_2;
    std::ostringstream o;
    o << seed;
    std::istringstream in(o.str());
    in >> seed_2;
    VF_REQUIRE(bool(in), "seed-parse", o.str());
    VF_REQUIRE(std::vector<std::uint32_t>(seed_2.begin(), seed_2.end()) == words, "seed-round-trip", o.str());
    c.event("seed_round_trips", 1);
    c.nontrivial(vf::Hash().add(copy).add(o.str()).get());
}

VF_MONITOR(k02_reports, 14000, 200000)
{
    World w = make_world(c, true);
    check_world(c, w);
}

VF_MONITOR(k02_nothrow, 20, 100)
{
    struct Rec : check::Reporter {
        std::vector<std::string> messages;
        void fail(const check::FailContext&, std::string_view message, log::Logger&) override
        {
            messages.emplace_back(message);
        }
    };
    Rec rec;
    bool odd = c.rng.chance(1, 2);
    check::TestList list;
    list.add("t", "t.cpp", 1, [&](check::TestContext& test_context) {
        auto f = [&] {
            if (odd)
                throw MyExc { 7 };
            throw std::runtime_error("rt");
        };
        ARCHON_CHECK_NOTHROW(f());
    }, nullptr, true);
    check::TestConfig config;
    config.test_list = &list;
    config.num_threads = 1;
    config.test_file_base_dir = c.tmp_dir;
    config.test_file_subdir = "";
    std::ostringstream out;
    log::StreamLogger logger(out);
    config.logger = &logger;
    config.reporter = &rec;
    check::TestRunner runner(std::move(config));
    runner.run();
    VF_REQUIRE(rec.messages.size() == 1, "nothrow-count", rec.messages.size());
    c.nontrivial(std::size_t(odd));
    VF_REQUIRE(rec.messages[0].compare(0, 30, "ARCHON_CHECK_NOTHROW(f()) fail") == 0, "nothrow-name", vf::show(rec.messages[0]));
}

} // namespace k
