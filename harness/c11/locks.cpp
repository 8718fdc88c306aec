// Locks, pipes and signals
#include "common.hpp"
#include <atomic>
#include <thread>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <archon/core/file_source.hpp>
#include <archon/core/file_sink.hpp>

using namespace c11;

namespace {

std::atomic<unsigned long> g_signals;
void on_signal(int) { g_signals.fetch_add(1); }

// Signals whose handlers interrupt system calls
void install()
{
    struct sigaction sa = {};
    sa.sa_handler = &on_signal;
    sa.sa_flags = 0; // Not SA_RESTART
    sigaction(SIGUSR1, &sa, nullptr);
}

// What is observed about the holders of a lock (also shared between processes)
struct Board {
    std::atomic<int> exclusive, shared;
    std::atomic<unsigned long> acquired_exclusive, acquired_shared, refused, overlaps, max_shared;
    std::atomic<int> violation;
    long counter; // Protected by the exclusive lock only
};

void worker(const fs::path& path, Board& b, vf::Rng r, int rounds, bool may_throw_away)
{
    File file(path, File::Mode::update);
    long counted = 0;
    for (int i = 0; i < rounds; ++i) {
        bool exclusive = r.chance(1, 2), nb = r.chance(1, 2);
        bool got = true;
        if (exclusive) { if (nb) got = file.nb_lock_exclusive(); else file.lock_exclusive(); }
        else { if (nb) got = file.nb_lock_shared(); else file.lock_shared(); }
        if (!got) {
            b.refused.fetch_add(1);
            if (r.chance(1, 2)) sched_yield();
            continue;
        }
        if (exclusive) {
            if (b.exclusive.fetch_add(1) != 0 || b.shared.load() != 0) b.violation = 1;
            b.acquired_exclusive.fetch_add(1);
            long v = b.counter;
            for (int j = int(r.below(40)); j > 0; --j) asm volatile("");
            if (r.chance(1, 4)) sched_yield();
            b.counter = v + 1;
            ++counted;
            if (b.shared.load() != 0) b.violation = 2;
            b.exclusive.fetch_sub(1);
        }
        else {
            int n = b.shared.fetch_add(1) + 1;
            if (b.exclusive.load() != 0) b.violation = 3;
            b.acquired_shared.fetch_add(1);
            unsigned long m = b.max_shared.load();
            while (m < (unsigned long)(n) && !b.max_shared.compare_exchange_weak(m, n)) {}
            if (r.chance(1, 2)) sched_yield();
            if (b.exclusive.load() != 0) b.violation = 4;
            b.shared.fetch_sub(1);
        }
        // A lock may be released by unlocking, by closing, and by destroying, also after having been moved
        switch (may_throw_away ? r.below(6) : 5) {
            case 0: file.close(); file.open(path, File::Mode::update); break;
            case 1: { File file_2 = std::move(file); file.open(path, File::Mode::update); break; }
            case 2: { File file_2 = std::move(file); file_2.unlock(); file = std::move(file_2); break; }
            case 3: file = File(path, File::Mode::update); break;
            case 4: file.unlock(); file.unlock(); break;
            default: file.unlock(); break;
        }
    }
}

void judge(vf::Case& c, Board& b, const char* what)
{
    auto ctx = [&](std::ostream& o) { o << what << ": exclusive " << b.acquired_exclusive << " shared " << b.acquired_shared << " refused " << b.refused << " counter " << b.counter << " violation " << b.violation; };
    VF_EQ(b.violation.load(), 0, "lock-exclusion", ctx);
    VF_EQ(b.counter, long(b.acquired_exclusive.load()), "lock-lost-update", ctx);
    c.event("exclusive", b.acquired_exclusive);
    c.event("shared", b.acquired_shared);
    c.event("refused", b.refused);
    if (b.max_shared > 1) c.event("concurrent_shared");
    c.nontrivial(vf::Hash().add(b.acquired_exclusive.load()).add(b.refused.load()).get());
}

} // unnamed namespace

VF_MONITOR(lock_model, 2000, 20000)
{
    // A single thread that holds locks through several file objects
    auto& r = c.rng;
    std::vector<fs::path> paths;
    fresh(c);
    for (int i = 0; i < 2; ++i) { paths.push_back(fs::path(c.tmp_dir) / ("f" + std::to_string(i))); spit(paths[i], ""); }
    struct H { File file; int path; int state; };
    std::vector<H> hs;
    std::size_t n = 2 + r.below(4);
    for (std::size_t i = 0; i < n; ++i) { int p = int(r.chance(1, 5)); hs.push_back({ File(paths[p], r.chance(1, 3) ? File::Mode::read : File::Mode::update), p, 0 }); }
    std::string log;
    auto ctx = [&](std::ostream& o) { o << log; };
    std::size_t m = 5 + r.size(60);
    for (std::size_t i = 0; i < m; ++i) {
        std::size_t k = r.below(n);
        H& h = hs[k];
        int others = 0, others_ex = 0;
        for (std::size_t j = 0; j < n; ++j) if (j != k && hs[j].path == h.path) { others += (hs[j].state != 0); others_ex += (hs[j].state == 2); }
        if (h.state == 0 && r.chance(3, 4)) {
            bool ex = r.chance(1, 2);
            bool expect = (ex ? others == 0 : others_ex == 0);
            bool block = expect && r.chance(1, 3);
            bool got = true;
            if (block) { if (ex) h.file.lock_exclusive(); else h.file.lock_shared(); }
            else got = ex ? h.file.nb_lock_exclusive() : h.file.nb_lock_shared();
            log += (ex ? "X" : "S") + std::to_string(k) + (got ? "+ " : "- ");
            VF_EQ(got, expect, ex ? "nb-exclusive" : "nb-shared", ctx);
            if (got) h.state = (ex ? 2 : 1);
            c.event(got ? "granted" : "refused");
        }
        else {
            std::size_t how = r.below(5);
            log += "U" + std::to_string(how) + std::to_string(k) + " ";
            if (how == 0) { h.file.close(); h.file.open(paths[h.path], File::Mode::update); h.state = 0; }
            else if (how == 1) { File tmp = std::move(h.file); h.file = std::move(tmp); } // Lock is kept
            else { h.file.unlock(); h.state = 0; }
        }
    }
    c.nontrivial(vf::hash_bytes(log.data(), log.size()));
}

VF_MONITOR(lock_threads, 60, 500)
{
    auto& r = c.rng;
    install();
    fs::path path = fresh(c) / "f";
    spit(path, "");
    auto b = std::make_unique<Board>();
    std::memset(static_cast<void*>(b.get()), 0, sizeof *b);
    int n = 2 + int(r.below(6));
    std::vector<std::thread> threads;
    std::vector<pthread_t> ids;
    std::atomic<int> running = n;
    for (int i = 0; i < n; ++i) {
        vf::Rng r_2(r.next());
        threads.emplace_back([&, r_2] { worker(path, *b, r_2, 150, true); running.fetch_sub(1); });
    }
    // Disturb with signals (all threads can still be signalled until they are joined)
    unsigned long before = g_signals;
    if (r.chance(2, 3)) {
        while (running.load() > 0) {
            pthread_kill(threads[r.below(n)].native_handle(), SIGUSR1);
            std::this_thread::sleep_for(std::chrono::microseconds(20 + r.below(200)));
        }
    }
    for (auto& t : threads) t.join();
    c.event("signals", g_signals - before);
    judge(c, *b, "threads");
}

VF_MONITOR(lock_processes, 25, 200)
{
    auto& r = c.rng;
    fs::path path = fresh(c) / "f";
    spit(path, "");
    void* mem = mmap(nullptr, sizeof (Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    VF_REQUIRE(mem != MAP_FAILED, "mmap", "");
    Board& b = *static_cast<Board*>(mem);
    int n = 2 + int(r.below(4));
    std::vector<pid_t> pids;
    for (int i = 0; i < n; ++i) {
        vf::Rng r_2(r.next());
        pid_t pid = fork();
        if (pid == 0) {
            int rc = 0;
            try { worker(path, b, r_2, 150, true); } catch (...) { rc = 1; }
            _exit(rc);
        }
        if (pid > 0) pids.push_back(pid);
    }
    bool ok = true;
    for (pid_t pid : pids) { int st = 0; waitpid(pid, &st, 0); ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0; }
    VF_REQUIRE(ok, "lock-process-failed", "");
    judge(c, b, "processes");
    munmap(mem, sizeof (Board));
}

VF_MONITOR(pipes, 300, 3000)
{
    // A writer and a reader, both disturbed by signals, transfer bytes through a pipe
    auto& r = c.rng;
    install();
    fs::path path = fresh(c) / "p";
    VF_REQUIRE(mkfifo(path.c_str(), 0600) == 0, "mkfifo", "");
    bool big = r.chance(1, 3);
    std::string data = random_bytes(r, big ? 200000 + r.size(200000) : r.size(5000));
    std::string got;
    std::atomic<int> running = 2, opened = 0;
    std::atomic<bool> stop = false;
    int sink_type = int(r.below(3)), source_type = int(r.below(4));
    vf::Rng rw(r.next()), rr(r.next());
    std::string fault;
    std::thread writer([&] {
        {
            File file(path, File::Mode::update);
            opened.fetch_add(1); // Opening is not protected against interruption
            std::string mem(1 + rw.size(5000), '\0');
            core::BufferedFileSink bsink(file, core::Span<char>(mem));
            core::FileSink fsink(file);
            std::size_t pos = 0;
            while (pos < data.size()) {
                std::size_t m = std::min(data.size() - pos, big ? 1 + rw.size(150000) : 1 + rw.size(300));
                std::string chunk = data.substr(pos, m);
                if (sink_type == 0) file.write(chunk);
                else if (sink_type == 1) fsink.write(chunk);
                else bsink.write(chunk);
                pos += m;
                if (rw.chance(1, 5)) std::this_thread::sleep_for(std::chrono::microseconds(rw.below(60)));
            }
            if (sink_type == 2) bsink.flush();
            while (!stop.load()) std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
        running.fetch_sub(1);
    });
    std::thread reader([&] {
        File file(path, File::Mode::read);
        opened.fetch_add(1);
        std::string mem(1 + rr.size(3000), '\0');
        core::BufferedFileSource bsrc(file, core::Span<char>(mem));
        core::FileSource fsrc(file);
        while (got.size() < data.size()) {
            std::string buf(1 + rr.size(big ? 100000 : 500), '\0');
            std::size_t want = std::min(buf.size(), data.size() - got.size()); // The pipe does not end before we are done
            core::Span<char> span = core::Span<char>(buf).first(want);
            std::size_t n = 0;
            bool full = rr.chance(1, 2);
            core::Source& src = (source_type == 0 ? static_cast<core::Source&>(fsrc) : bsrc);
            if (source_type >= 2) n = full ? file.read(span) : file.read_some(span);
            else n = full ? src.read(span) : src.read_some(span);
            if (n == 0 || n > want || (full && n != want)) { fault = "read " + std::to_string(n) + " of " + std::to_string(want) + " full=" + std::to_string(full); break; }
            got.append(buf, 0, n);
            if (rr.chance(1, 5)) std::this_thread::sleep_for(std::chrono::microseconds(rr.below(60)));
        }
        stop = true;
        if (fault.empty()) {
            // Now the writer closes
            char ch;
            std::size_t n = (source_type == 1 ? bsrc.read(core::Span<char>(&ch, 1)) : file.read(core::Span<char>(&ch, 1)));
            if (n != 0) fault = "data beyond the end";
        }
        running.fetch_sub(1);
    });
    unsigned long before = g_signals;
    while (opened.load() < 2) std::this_thread::sleep_for(std::chrono::microseconds(20));
    while (running.load() > 0) {
        pthread_kill((r.chance(1, 2) ? writer : reader).native_handle(), SIGUSR1);
        std::this_thread::sleep_for(std::chrono::microseconds(10 + r.below(100)));
    }
    writer.join();
    reader.join();
    auto ctx = [&](std::ostream& o) { o << "sink " << sink_type << " source " << source_type << " size " << data.size() << " got " << got.size() << " " << fault; };
    VF_REQUIRE(fault.empty(), "pipe-fault", ctx);
    VF_REQUIRE(got == data, "pipe-data", ctx);
    c.event("signals", g_signals - before);
    c.event("bytes", got.size());
    c.nontrivial(vf::Hash().add(data.size()).add(sink_type).add(source_type).get());
}
