#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <archon/check.hpp>
#include <archon/check/test_config.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/test_path.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>
#include <archon/check/simple_reporter.hpp>
#include <archon/check/xml_reporter.hpp>
#include <archon/check/duplicating_reporter.hpp>
#include <archon/check/wildcard_filter.hpp>
#include <archon/check/pattern_based_test_order.hpp>
#include <archon/check/check_no_error.hpp>
#include <archon/check/random_seed.hpp>
#include <archon/check/thread_context.hpp>
#include <archon/check/root_context.hpp>
#include <archon/log.hpp>
#include <archon/log/stream_logger.hpp>

#include <vf.hpp>

namespace k {

namespace check = archon::check;
namespace core = archon::core;
namespace log = archon::log;

// A private generator, so that what a test function does depends only on
// (seed, test, repetition), not on the schedule.
struct Gen {
    std::uint64_t s;
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
    bool chance(unsigned n, unsigned d) { return below(d) < n; }
};

struct Fail {
    std::string file;
    long line = 0;
    std::string prefix;                  // The message starts with this
    std::vector<std::string> parts;      // and contains these, in order
    bool exact = false;                  // The message is exactly `prefix`
    std::string trail;                   // "a: b: "
};

// What a test function actually did. Written only by the thread that executes it.
struct Slot {
    int count = 0;
    bool in_progress = false;
    bool on_calling_thread = false;
    long checks = 0;
    std::vector<Fail> fails;
    bool failed = false;
    long inner_logs = 0;
    std::vector<std::string> violations;
    std::vector<std::uint32_t> seeds;
    std::string path;
};

struct Out {
    Slot* slot;
    std::string trail;
    void done(bool ret, bool ok, const char* file, long line, std::function<Fail()> f)
    {
        if (ret != ok)
            slot->violations.push_back(std::string("check at ") + file + ":" + std::to_string(line) + " returned " + (ret ? "true" : "false") + ", expected " + (ok ? "true" : "false"));
        ++slot->checks;
        if (!ok) {
            Fail g = f();
            g.file = file;
            g.line = line;
            g.trail = trail;
            slot->fails.push_back(std::move(g));
            slot->failed = true;
        }
    }
};

using Site = void (*)(check::TestContext& test_context, Gen& g, Out& o);
extern const std::vector<Site> relation_sites;
extern const std::vector<Site> dist_sites;
extern const std::vector<Site> other_sites;

struct MyExc {
    int code;
};

struct TestSpec {
    std::string name;
    std::string file;
    long line;
    bool concur;
    bool enabled;
    int rank;
};

struct World {
    std::vector<TestSpec> tests;
    int reps = 1;
    int threads = 1;
    bool shuffle = false;
    bool rich = false;
    bool use_wildcard = false, use_set_filter = false;
    std::string wildcard;
    std::vector<bool> set_filter; // By test index
    int order = 0; // 0 none, 1 by rank, 2 by patterns
    std::vector<std::string> patterns;
    bool inner_log = false;
    bool keep_files = false;
    bool mapper = false;
    bool progress = false;
    int reporters = 0; // 0 recorder only, 1 duplicating (recorder, simple, xml)
    int fail_percent = 5;
    int throw_percent = 3;
    int max_actions = 5;
    int delay_mode = 0;
    bool noisy_text = false;
    std::uint64_t seed = 0;
    std::vector<std::uint32_t> rseed;
    int rseed_override = 0;
    std::string suite = "default";
    bool log_to_files = false;
};

World make_world(vf::Case& c, bool rich);
void check_world(vf::Case& c, const World& w);
std::string describe(const World& w);

// Strict parser for the small XML subset that a report can use
struct XmlNode {
    std::string tag;
    std::map<std::string, std::string> attrs;
    std::vector<XmlNode> children;
};
bool parse_xml(const std::string& text, XmlNode& root, std::string& error);

} // namespace k
