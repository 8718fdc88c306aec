// The standard loggers (null, standard output, standard error), first used by many threads at the
// same time, in a child process whose standard streams are files.

#include <atomic>
#include <barrier>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <archon/log.hpp>
#include <archon/log/prefix_logger.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

template<class C> void use(int t, int count, std::uint64_t seed)
{
    for (int i = 0; i < count; ++i) {
        seed = seed * 6364136223846793005 + 1442695040888963407;
        switch (seed >> 60 & 3) {
            case 0: {
                auto& l = log::BasicLogger<C>::get_cout();
                l.info("%s.%s.o", t, i);
                break;
            }
            case 1: {
                log::BasicPrefixLogger<C> l(log::BasicLogger<C>::get_cerr(), "p ");
                l.error("%s.%s.e", t, i);
                break;
            }
            case 2: {
                log::BasicLogger<C> l; // Standard error
                l.warn("%s.%s.e", t, i);
                break;
            }
            default: {
                auto& l = log::BasicLogger<C>::or_null(nullptr);
                l.fatal("%s.%s.n", t, i);
                break;
            }
        }
    }
}

std::string slurp(const std::string& path)
{
    std::ifstream in(path);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

} // unnamed namespace

VF_MONITOR(standard, 300, 4000)
{
    int threads = 2 + int(c.rng.below(7)), count = 1 + int(c.rng.below(40));
    std::vector<std::uint64_t> seeds;
    for (int i = 0; i < threads; ++i)
        seeds.push_back(c.rng.next());
    bool wide = c.rng.chance(1, 3);
    std::string out = c.tmp_dir + "/out", err = c.tmp_dir + "/err";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        // A sanitizer report goes to where sanitizer reports go, not to the files
        dup2(o, 1);
        dup2(e, 2);
        {
            std::barrier start(threads);
            std::vector<std::thread> th;
            for (int t = 0; t < threads; ++t)
                th.emplace_back([&, t] {
                    start.arrive_and_wait();
                    if (wide)
                        use<wchar_t>(t, count, seeds[std::size_t(t)]);
                    else
                        use<char>(t, count, seeds[std::size_t(t)]);
                });
            for (auto& t : th)
                t.join();
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    VF_REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 0, "child_failed", "status " << status << "\n" << slurp(err).substr(0, 3000));
    std::size_t lines = 0;
    vf::Hash order;
    for (int f = 0; f < 2; ++f) {
        std::istringstream in(slurp(f == 0 ? out : err));
        std::vector<std::vector<std::string>> got(std::size_t(threads) + 0), want(std::size_t(threads) + 0);
        std::string line;
        while (std::getline(in, line)) {
            const char* p = line.c_str();
            if (f == 1) {
                if (line.compare(0, 2, "p ") == 0)
                    p += 2;
                if (std::string(p).compare(0, 7, "ERROR: ") == 0)
                    p += 7;
                else if (std::string(p).compare(0, 9, "WARNING: ") == 0)
                    p += 9;
            }
            int t = -1, i = -1;
            char k = 0, extra = 0;
            VF_REQUIRE(std::sscanf(p, "%d.%d.%c%c", &t, &i, &k, &extra) == 3 && t >= 0 && t < threads, "mangled_line", line << "\n" << slurp(err).substr(0, 2000));
            got[std::size_t(t)].push_back(line);
            ++lines;
            order.add(t);
        }
        for (int t = 0; t < threads; ++t) {
            std::uint64_t seed = seeds[std::size_t(t)];
            for (int i = 0; i < count; ++i) {
                seed = seed * 6364136223846793005 + 1442695040888963407;
                auto id = std::to_string(t) + "." + std::to_string(i);
                int k = int(seed >> 60 & 3);
                if (k == 0 && f == 0)
                    want[std::size_t(t)].push_back(id + ".o");
                if (k == 1 && f == 1)
                    want[std::size_t(t)].push_back("p ERROR: " + id + ".e");
                if (k == 2 && f == 1)
                    want[std::size_t(t)].push_back("WARNING: " + id + ".e");
            }
        }
        VF_REQUIRE(got == want, "lines_of_thread", "standard " << (f == 0 ? "output" : "error") << ": " << slurp(f == 0 ? out : err).substr(0, 2000));
    }
    c.event("lines", lines);
    if (lines > 1)
        c.nontrivial(order.get());
}
