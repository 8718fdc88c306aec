#include "vf.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <set>
#include <typeinfo>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cxxabi.h>

#if defined __has_feature
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#    include <sanitizer/allocator_interface.h>
#  endif
#endif

namespace {

std::vector<vf::Monitor>& registry()
{
    static std::vector<vf::Monitor> r;
    return r;
}

// Shared with the driver, which uses it to attribute crashes and hangs.
struct State {
    volatile std::uint64_t progress;
    volatile std::uint64_t case_index;
    char monitor[128];
    char tag[512];
};
State g_local_state;
State* g_state = &g_local_state;

std::string json(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += char(ch);
        }
        else if (ch >= 32 && ch < 127) {
            r += char(ch);
        }
        else {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
    }
    return r + '"';
}

std::size_t allocated()
{
#if VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

std::string demangle(const char* s)
{
    int st = 0;
    char* p = abi::__cxa_demangle(s, nullptr, nullptr, &st);
    std::string r = (p ? p : s);
    std::free(p);
    return r;
}

std::string g_tmp;

struct Outcome {
    bool failed = false;
    vf::Fail fail;
};

Outcome run_once(const vf::Monitor& m, vf::Case& c)
{
    Outcome o;
    try {
        m.func(c);
    }
    catch (vf::Fail& f) {
        o.failed = true;
        o.fail = f;
    }
    catch (std::exception& e) {
        o.failed = true;
        o.fail.key = std::string("exception.") + demangle(typeid(e).name());
        o.fail.msg = std::string("Unexpected exception: ") + demangle(typeid(e).name()) + ": " + e.what();
    }
    return o;
}

void init_case(vf::Case& c, const vf::Monitor& m, std::uint64_t seed, std::uint64_t k, bool thorough)
{
    c.rng = vf::Rng(vf::mix64(seed) ^ vf::hash_bytes(m.name, std::strlen(m.name)) ^ vf::mix64(k * 2 + 1));
    c.index = k;
    c.total = thorough ? m.thorough : m.quick;
    c.thorough = thorough;
    c.tmp_dir = g_tmp;
    c.sigs.reserve(16);
}

} // namespace

namespace vf {

Reg::Reg(const char* name, void (*func)(Case&), std::uint64_t quick, std::uint64_t thorough, Options opt)
{
    registry().push_back(Monitor{name, func, quick, thorough, opt});
}

} // namespace vf

int main(int argc, char* argv[])
{
    std::uint64_t seed = 1;
    std::uint64_t shard = 0, num_shards = 1;
    bool thorough = false, verbose = false, list = false;
    std::string only, out_path, state_path, skip_path;
    std::set<std::string> known;
    bool have_case = false;
    std::uint64_t only_case = 0;
    std::uint64_t scale_num = 1, scale_den = 1;
    std::set<std::string> monitors;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            if (i + 1 >= argc) {
                std::fprintf(stderr, "missing value for %s\n", a.c_str());
                std::exit(2);
            }
            return argv[++i];
        };
        if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") {
            std::string s = val();
            if (std::sscanf(s.c_str(), "%lu/%lu", &shard, &num_shards) != 2)
                return 2;
        }
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--monitor") monitors.insert(val());
        else if (a == "--case") { have_case = true; only_case = std::strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--out") out_path = val();
        else if (a == "--state") state_path = val();
        else if (a == "--skip") skip_path = val();
        else if (a == "--known") known.insert(val());
        else if (a == "--tmp") g_tmp = val();
        else if (a == "--scale") {
            std::string s = val();
            if (std::sscanf(s.c_str(), "%lu/%lu", &scale_num, &scale_den) != 2)
                return 2;
        }
        else if (a == "--list") list = true;
        else {
            std::fprintf(stderr, "bad argument: %s\n", a.c_str());
            return 2;
        }
    }
    if (list) {
        for (const vf::Monitor& m : registry())
            std::printf("%s %lu %lu\n", m.name, static_cast<unsigned long>(m.quick), static_cast<unsigned long>(m.thorough));
        return 0;
    }
    if (g_tmp.empty()) {
        char buf[] = "/tmp/vf-XXXXXX";
        if (!mkdtemp(buf))
            return 2;
        g_tmp = buf;
    }
    else {
        g_tmp += "/s" + std::to_string(shard);
        mkdir(g_tmp.c_str(), 0700);
    }
    if (!state_path.empty()) {
        int fd = open(state_path.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(State)) < 0)
            return 2;
        void* p = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            return 2;
        g_state = static_cast<State*>(p);
    }
    // Cases already executed by an earlier incarnation of this shard (before a crash)
    std::map<std::string, std::uint64_t> resume_at; // First case to be run
    std::set<std::string> done;
    if (!skip_path.empty()) {
        std::ifstream in(skip_path);
        std::string name;
        std::uint64_t k;
        while (in >> name >> k)
            resume_at[name] = k;
    }

    std::FILE* out = (out_path.empty() ? stdout : std::fopen(out_path.c_str(), "a"));
    if (!out)
        return 2;

    bool violated = false;
    for (const vf::Monitor& m : registry()) {
        if (!monitors.empty() && !monitors.count(m.name))
            continue;
        std::snprintf(g_state->monitor, sizeof g_state->monitor, "%s", m.name);
        std::uint64_t n = (thorough ? m.thorough : m.quick);
        n = (n * scale_num + scale_den - 1) / scale_den;
        std::uint64_t executed = 0, num_nontrivial = 0, num_known = 0;
        std::map<std::string, std::uint64_t> events, known_hits;
        std::set<std::uint64_t> sigs;
        std::vector<std::string> samples;
        bool stop = false;
        std::uint64_t start = shard;
        if (auto i = resume_at.find(m.name); i != resume_at.end())
            start = i->second;
        for (std::uint64_t k = (have_case ? only_case : start); (have_case ? k == only_case : k < n) && !stop;
             k += num_shards) {
            g_state->case_index = k;
            g_state->progress = g_state->progress + 1;
            std::size_t before = allocated();
            std::size_t after = 0;
            Outcome o;
            {
                vf::Case c;
                init_case(c, m, seed, k, thorough);
                c.verbose = verbose;
                c.want_sample = (samples.size() < 2);
                std::size_t mark = allocated();
                o = run_once(m, c);
                ++executed;
                if (!c.sigs.empty())
                    ++num_nontrivial;
                for (std::uint64_t s : c.sigs)
                    sigs.insert(s);
                for (auto& e : c.events)
                    events[e.first] += e.second;
                for (auto& s : c.samples) {
                    if (samples.size() < 3)
                        samples.push_back(s);
                    if (verbose)
                        std::fprintf(stderr, "sample: %s\n", s.c_str());
                }
                (void)mark;
            }
            (void)before;
            (void)after;
            if (!o.failed && m.opt.leak_check && allocated() > before) {
                // Either one-time initialization, growth of the driver's own records, or a
                // leak. A leak grows on every execution of the same case.
                int grown = 0;
                std::size_t amount = 0;
                for (int r = 0; r < 3; ++r) {
                    std::size_t a = allocated();
                    {
                        vf::Case c;
                        init_case(c, m, seed, k, thorough);
                        run_once(m, c);
                    }
                    std::size_t b = allocated();
                    if (b <= a)
                        break;
                    ++grown;
                    amount = b - a;
                }
                if (grown == 3) {
                    o.failed = true;
                    o.fail.key = std::string("leak");
                    o.fail.msg = "Each execution of the case leaves " + std::to_string(amount) + " more bytes allocated";
                }
            }
            if (o.failed) {
                std::string key = std::string(m.name) + "/" + o.fail.key;
                if (known.count(key)) {
                    ++num_known;
                    ++known_hits[key];
                    if (verbose)
                        std::fprintf(stderr, "known: %s: %s\n", key.c_str(), o.fail.msg.c_str());
                }
                else {
                    std::fprintf(out, "{\"type\": \"violation\", \"monitor\": %s, \"case\": %lu, \"key\": %s, \"msg\": %s}\n",
                                 json(m.name).c_str(), static_cast<unsigned long>(k), json(key).c_str(),
                                 json(o.fail.msg).c_str());
                    std::fflush(out);
                    violated = true;
                    stop = true;
                }
            }
        }
        std::fprintf(out, "{\"type\": \"monitor\", \"monitor\": %s, \"planned\": %lu, \"executed\": %lu, \"nontrivial\": %lu, "
                     "\"known\": {", json(m.name).c_str(), static_cast<unsigned long>(n),
                     static_cast<unsigned long>(executed), static_cast<unsigned long>(num_nontrivial));
        bool first = true;
        for (auto& e : known_hits) {
            std::fprintf(out, "%s%s: %lu", first ? "" : ", ", json(e.first).c_str(), static_cast<unsigned long>(e.second));
            first = false;
        }
        std::fprintf(out, "}, \"events\": {");
        first = true;
        for (auto& e : events) {
            std::fprintf(out, "%s%s: %lu", first ? "" : ", ", json(e.first).c_str(), static_cast<unsigned long>(e.second));
            first = false;
        }
        std::fprintf(out, "}, \"samples\": [");
        first = true;
        for (auto& s : samples) {
            std::fprintf(out, "%s%s", first ? "" : ", ", json(s).c_str());
            first = false;
        }
        std::fprintf(out, "], \"sigs\": [");
        first = true;
        for (std::uint64_t s : sigs) {
            std::fprintf(out, "%s%lu", first ? "" : ",", static_cast<unsigned long>(s));
            first = false;
        }
        std::fprintf(out, "]}\n");
        std::fflush(out);
    }
    std::fprintf(out, "{\"type\": \"end\"}\n");
    std::fflush(out);
    std::snprintf(g_state->monitor, sizeof g_state->monitor, "%s", "(exit)");
    return violated ? 1 : 0;
}
