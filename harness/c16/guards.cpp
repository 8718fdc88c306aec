// Scope guards and thread guards

#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <signal.h>
#include <archon/core/assert.hpp>
#include <archon/core/scope_exit.hpp>
#include <archon/core/thread_guard.hpp>
#include <archon/core/value_reset_guard.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

struct Boom {
    int id;
};

// Random nest of scopes; the log of what is executed at exits is compared with what must be executed
void nest(vf::Case& c, int depth, std::vector<int>& log, std::vector<int>& expect, int& id, bool& thrown)
{
    int n = int(c.rng.below(4));
    std::vector<int> pending;
    int my[4];
    for (int i = 0; i < 4; ++i)
        my[i] = id++;
    bool use_macro = c.rng.chance(1, 2);
    auto body = [&](auto&& inner) {
        if (use_macro) {
            ARCHON_SCOPE_EXIT {
                log.push_back(my[0]);
            };
            auto f = [&]() noexcept { log.push_back(my[1]); };
            core::ScopeExit<decltype(f)> guard(f);
            bool release = c.rng.chance(1, 3);
            struct AtExit {
                std::vector<int>& e;
                int a, b;
                bool r;
                ~AtExit()
                {
                    if (!r)
                        e.push_back(b);
                    e.push_back(a);
                }
            } at_exit { expect, my[0], my[1], release };
            if (release)
                guard.release();
            inner();
        }
        else {
            auto f = [&]() noexcept { log.push_back(my[2]); };
            core::ScopeExit<decltype(f)> guard(std::move(f));
            struct AtExit {
                std::vector<int>& e;
                int a;
                ~AtExit() { e.push_back(a); }
            } at_exit { expect, my[2] };
            inner();
        }
    };
    try {
        body([&] {
            for (int i = 0; i < n && depth < 4; ++i)
                nest(c, depth + 1, log, expect, id, thrown);
            if (c.rng.chance(1, 4)) {
                thrown = true;
                throw Boom { depth };
            }
        });
    }
    catch (const Boom&) {
        if (c.rng.chance(1, 2) && depth > 0)
            throw;
    }
}

} // unnamed namespace

VF_MONITOR(scope_guards, 1500, 50000)
{
    {
        std::vector<int> log, expect;
        int id = 0;
        bool thrown = false;
        nest(c, 0, log, expect, id, thrown);
        // In each scope, the expected entries are recorded by an object declared after the guards, so just before they run
        VF_EQ(log.size(), expect.size(), "scope_exit_count", "");
        VF_REQUIRE(log == expect, "scope_exit_order", "log of " << log.size());
        c.event(thrown ? "left_by_exception" : "left_normally", 1);
    }
    // Value reset guards: several variables, nested guards, moves, exceptions
    int vars[3];
    for (int& v : vars)
        v = int(c.rng.below(100));
    std::string str = "initial";
    std::optional<int> opt = 5;
    int model[3] = { vars[0], vars[1], vars[2] };
    bool use_exc = c.rng.chance(1, 2);
    std::size_t i = c.rng.below(3);
    int a = int(c.rng.below(100)), b = int(c.rng.below(100)), d = int(c.rng.below(100));
    try {
        auto g1 = core::make_value_reset_guard(vars[i]);
        VF_EQ(vars[i], model[i], "reset_guard_early", "");
        vars[i] = a;
        {
            auto g2 = core::make_temp_assign(vars[(i + 1) % 3], b, d);
            VF_EQ(vars[(i + 1) % 3], b, "temp_assign", "");
            auto g3 = std::move(g2);
            VF_EQ(vars[(i + 1) % 3], b, "temp_assign_moved", "");
            auto g4 = core::make_temp_assign(str, std::string("temporary value of some length"), std::string("final value of some length"));
            VF_EQ(str, std::string("temporary value of some length"), "temp_assign_str", "");
            auto g5 = core::make_value_reset_guard(opt);
            auto g6 = core::make_value_reset_guard(vars[(i + 2) % 3], a + b);
            if (use_exc)
                throw Boom { 0 };
        }
        VF_EQ(vars[(i + 1) % 3], d, "temp_assign_restored", "");
        VF_EQ(vars[i], a, "reset_guard_still", "");
    }
    catch (const Boom&) {
    }
    VF_EQ(vars[i], 0, "reset_guard", "");
    VF_EQ(vars[(i + 1) % 3], d, "temp_assign_restored", "");
    VF_EQ(vars[(i + 2) % 3], a + b, "reset_guard_value", "");
    VF_EQ(str, std::string("final value of some length"), "temp_assign_str", "");
    VF_REQUIRE(!opt.has_value(), "reset_guard_opt", "");
    {
        // A guard that was moved from has nothing to do with the variable anymore
        auto g1 = core::make_value_reset_guard(vars[i], b);
        auto g2 = core::make_value_reset_guard(str, std::string("x"));
        {
            auto g3 = std::move(g1);
            auto g4 = std::move(g2);
            VF_EQ(vars[i], 0, "reset_guard_moved_early", "");
        }
        VF_EQ(vars[i], b, "reset_guard_moved", "");
        VF_EQ(str, std::string("x"), "reset_guard_moved", "");
        vars[i] = b + 1;
        str = "later value";
    }
    VF_EQ(vars[i], b + 1, "reset_guard_moved_from", "");
    VF_EQ(str, std::string("later value"), "reset_guard_moved_from", "");
    c.event("value_guards", 1);
    c.nontrivial(vf::Hash().add(i).add(use_exc).get());
}

namespace {

struct Gate {
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    void wait()
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return open; });
    }
    void release()
    {
        {
            std::lock_guard<std::mutex> l(m);
            open = true;
        }
        cv.notify_all();
    }
};

// Callable that records whether it was moved from
struct Func {
    std::shared_ptr<Gate> gate;
    std::atomic<int>* ran;
    std::atomic<int>* blocked;
    std::atomic<int>* done;
    int throws;
    int spins;

    void operator()() const
    {
        gate->wait();
        ran->fetch_add(1);
        sigset_t set;
        sigemptyset(&set);
        pthread_sigmask(SIG_BLOCK, nullptr, &set);
        if (sigismember(&set, SIGTERM) == 1 && sigismember(&set, SIGINT) == 1)
            blocked->fetch_add(1);
        for (volatile int i = 0; i < spins; i = i + 1) {}
        done->fetch_add(1);
        if (throws)
            throw Boom { throws };
    }
};

struct Thread {
    std::shared_ptr<Gate> gate = std::make_shared<Gate>();
    int throws = 0;
    bool block = false;
    std::unique_ptr<std::atomic<int>> ran = std::make_unique<std::atomic<int>>(0);
    std::unique_ptr<std::atomic<int>> blocked = std::make_unique<std::atomic<int>>(0);
    std::unique_ptr<std::atomic<int>> done = std::make_unique<std::atomic<int>>(0);
};

} // unnamed namespace

VF_MONITOR(thread_guards, 150, 6000)
{
    // Slots with guards in random places of memory, moved around while their threads run
    std::vector<std::unique_ptr<core::ThreadGuard>> slots;
    std::vector<std::optional<std::size_t>> owner; // Which thread the guard manages or remembers the exception of
    std::vector<Thread> threads;
    std::vector<char> rethrown, joined;
    threads.reserve(16);
    auto add_slot = [&] {
        slots.push_back(std::make_unique<core::ThreadGuard>());
        owner.push_back(std::nullopt);
    };
    add_slot();
    add_slot();
    auto finish = [&](std::size_t t) { // The thread is allowed to end
        threads[t].gate->release();
    };
    std::size_t moves = 0, exceptions = 0, moved_running = 0;
    std::size_t n = 10 + c.rng.below(30);
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t s = c.rng.below(slots.size());
        switch (c.rng.below(9)) {
            case 0:
            case 1:
            case 2: { // Launch
                if (threads.size() >= 8)
                    break;
                std::size_t t = threads.size();
                threads.emplace_back();
                rethrown.push_back(0);
                joined.push_back(0);
                Thread& th = threads[t];
                th.throws = c.rng.chance(1, 2) ? int(1 + c.rng.below(1000)) : 0;
                Func f { th.gate, th.ran.get(), th.blocked.get(), th.done.get(), th.throws, int(c.rng.below(20000)) };
                if (owner[s])
                    finish(*owner[s]); // Since assignment waits
                std::optional<std::size_t> prev = owner[s];
                switch (c.rng.below(4)) {
                    case 0:
                        *slots[s] = core::ThreadGuard(f);
                        VF_REQUIRE(bool(f.gate), "thread_guard_moves_from_lvalue", "");
                        c.event("from_lvalue", 1);
                        break;
                    case 1:
                        *slots[s] = core::ThreadGuard(std::move(f));
                        break;
                    case 2: {
                        core::ThreadGuard::Config config;
                        th.block = config.block_signals = true;
                        *slots[s] = core::ThreadGuard(f, config);
                        VF_REQUIRE(bool(f.gate), "thread_guard_moves_from_lvalue", "");
                        break;
                    }
                    case 3: {
                        core::ThreadGuard::Config config;
                        th.block = config.block_signals = c.rng.chance(1, 2);
                        config.thread_name = core::ThreadGuard::ThreadName("vf");
                        slots[s] = std::make_unique<core::ThreadGuard>(std::move(f), std::move(config));
                        break;
                    }
                }
                if (prev) {
                    VF_EQ(threads[*prev].done->load(), 1, "assignment_waits", "");
                    joined[*prev] = 1;
                }
                owner[s] = t;
                break;
            }
            case 3: { // Move construct
                if (owner[s] && threads[*owner[s]].ran->load() == 0)
                    ++moved_running;
                auto p = std::make_unique<core::ThreadGuard>(std::move(*slots[s]));
                slots.push_back(std::move(p));
                owner.push_back(owner[s]);
                owner[s] = std::nullopt;
                ++moves;
                if (c.rng.chance(1, 2)) {
                    slots.erase(slots.begin() + std::ptrdiff_t(s)); // Destroy the moved-from guard
                    owner.erase(owner.begin() + std::ptrdiff_t(s));
                }
                break;
            }
            case 4: { // Move assign
                std::size_t s2 = c.rng.below(slots.size());
                if (s2 == s)
                    break;
                if (owner[s2])
                    finish(*owner[s2]);
                *slots[s2] = std::move(*slots[s]);
                if (owner[s2]) {
                    VF_EQ(threads[*owner[s2]].done->load(), 1, "assignment_waits", "");
                    joined[*owner[s2]] = 1;
                }
                owner[s2] = owner[s];
                owner[s] = std::nullopt;
                ++moves;
                break;
            }
            case 5: // Let it run
                if (owner[s])
                    finish(*owner[s]);
                if (c.rng.chance(1, 2))
                    std::this_thread::yield();
                break;
            case 6: // Join
                if (owner[s])
                    finish(*owner[s]);
                slots[s]->join();
                if (owner[s]) {
                    VF_EQ(threads[*owner[s]].done->load(), 1, "join_waits", "");
                    joined[*owner[s]] = 1;
                }
                break;
            case 7: { // Join and rethrow
                if (owner[s])
                    finish(*owner[s]);
                int got = 0;
                try {
                    slots[s]->join_and_rethrow();
                }
                catch (const Boom& e) {
                    got = e.id;
                    ++exceptions;
                }
                int want = 0;
                if (owner[s]) {
                    VF_EQ(threads[*owner[s]].done->load(), 1, "join_waits", "");
                    joined[*owner[s]] = 1;
                    if (!rethrown[*owner[s]])
                        want = threads[*owner[s]].throws;
                    rethrown[*owner[s]] = 1;
                }
                VF_EQ(got, want, "rethrown_exception", "managed: " << owner[s].has_value());
                break;
            }
            case 8: // Destroy
                if (slots.size() < 3)
                    break;
                if (owner[s])
                    finish(*owner[s]);
                slots.erase(slots.begin() + std::ptrdiff_t(s));
                if (owner[s]) {
                    VF_EQ(threads[*owner[s]].done->load(), 1, "destruction_waits", "");
                    joined[*owner[s]] = 1;
                }
                owner.erase(owner.begin() + std::ptrdiff_t(s));
                break;
        }
    }
    for (auto& th : threads)
        th.gate->release();
    for (std::size_t s = 0; s < slots.size(); ++s) {
        int got = 0;
        try {
            slots[s]->join_and_rethrow();
        }
        catch (const Boom& e) {
            got = e.id;
            ++exceptions;
        }
        int want = (owner[s] && !rethrown[*owner[s]] ? threads[*owner[s]].throws : 0);
        VF_EQ(got, want, "rethrown_exception", "at end, managed: " << owner[s].has_value());
    }
    slots.clear();
    for (auto& th : threads) {
        VF_EQ(th.ran->load(), 1, "ran_once", "");
        VF_EQ(th.done->load(), 1, "ran_to_end", "");
        if (th.block)
            VF_EQ(th.blocked->load(), 1, "signals_blocked", "");
        else
            VF_EQ(th.blocked->load(), 0, "signals_blocked", "not requested");
    }
    sigset_t set;
    sigemptyset(&set);
    pthread_sigmask(SIG_BLOCK, nullptr, &set);
    VF_REQUIRE(sigismember(&set, SIGTERM) == 0, "signal_mask_of_parent", "");
    c.event("threads", threads.size());
    c.event("moves", moves);
    c.event("moved_while_running", moved_running);
    c.event("rethrown", exceptions);
    c.nontrivial(vf::Hash().add(threads.size()).add(moves).get());
}
