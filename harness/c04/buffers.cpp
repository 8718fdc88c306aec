// C04: growable buffers and their content trackers
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <archon/core/buffer.hpp>
#include <archon/core/buffer_contents.hpp>
#include <archon/core/string_buffer_contents.hpp>
#include <archon/core/array_seeded_buffer.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

template<class T> T mk(int v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return (v % 2 ? "" : "a rather long string to force allocation ") + std::to_string(v);
    else
        return T(v);
}

struct Boom {};

template<class T> struct Run {
    vf::Case& c;
    std::ostringstream log;
    int counter = 1;

    std::vector<T> values(std::size_t n)
    {
        std::vector<T> v;
        for (std::size_t i = 0; i < n; ++i)
            v.push_back(mk<T>(counter++ % 100));
        return v;
    }

    void check(core::Buffer<T>& b, const std::vector<T>& front, const char* what)
    {
        const core::Buffer<T>& cb = b;
        VF_REQUIRE(cb.size() >= front.size(), "size", what << " " << log.str());
        for (std::size_t i = 0; i < front.size(); ++i)
            VF_REQUIRE(b[i] == front[i], "content", what << " at " << i << ": " << log.str());
        VF_REQUIRE(cb.span().size() == cb.size() && cb.span().data() == cb.data() && cb.begin() == cb.data(), "views", what);
        VF_REQUIRE(std::size_t(b.end() - b.begin()) == b.size() && std::size_t(cb.rend() - cb.rbegin()) == b.size(), "views", what);
        if (b.size() > 0) {
            std::size_t i = c.rng.below(b.size());
            VF_REQUIRE(&b.at(i) == b.data() + i && &cb.at(i) == cb.data() + i, "at", what);
            VF_REQUIRE(&*b.rbegin() == b.data() + b.size() - 1, "views", what);
        }
        for (std::size_t i : { b.size(), b.size() + 1, std::size_t(-1) }) {
            bool thrown = false;
            try { (void)cb.at(i); }
            catch (const std::out_of_range&) { thrown = true; }
            VF_REQUIRE(thrown, "at", what << " " << i << " size " << b.size());
        }
    }

    void forward()
    {
        std::size_t seed_size = c.rng.size(12);
        std::unique_ptr<T[]> seed = std::make_unique<T[]>(seed_size);
        std::vector<T> m; // Used part of buffer
        std::unique_ptr<core::Buffer<T>> bp;
        switch (c.rng.below(4)) {
            case 0:
                bp = std::make_unique<core::Buffer<T>>();
                VF_REQUIRE(bp->size() == 0, "size", "ctor");
                break;
            case 1:
                bp = std::make_unique<core::Buffer<T>>(core::Span<T>(seed.get(), seed_size));
                VF_REQUIRE(bp->size() == seed_size && bp->data() == seed.get(), "size", "seed ctor");
                break;
            case 2: {
                std::size_t n = c.rng.size(16);
                bp = std::make_unique<core::Buffer<T>>(core::Span<T>(seed.get(), seed_size), n);
                VF_REQUIRE(bp->size() == n && (n > seed_size || bp->data() == seed.get()), "size", "seed ctor " << n);
                break;
            }
            case 3: {
                m = values(c.rng.size(16));
                bp = std::make_unique<core::Buffer<T>>(core::Span<T>(seed.get(), seed_size), core::BufferDataTag(), core::Span<const T>(m));
                VF_REQUIRE(bp->size() == m.size(), "size", "data ctor");
                break;
            }
        }
        core::Buffer<T>& b = *bp;
        std::size_t steps = 1 + c.rng.below(25);
        for (std::size_t s = 0; s < steps; ++s) {
            const T* addr = b.data();
            std::size_t size = b.size();
            std::size_t off = m.size();
            auto unchanged = [&](const char* what) {
                VF_REQUIRE(b.data() == addr && b.size() == size, "strong_guarantee", what << " " << log.str());
                check(b, m, what);
            };
            auto overflowing = [&](auto&& f, const char* what) {
                bool thrown = false;
                try { f(); }
                catch (const std::length_error&) { thrown = true; }
                VF_REQUIRE(thrown, "overflow_not_reported", what << " " << log.str());
                unchanged(what);
                c.event("overflow_reported");
            };
            switch (c.rng.below(11)) {
                case 0: {
                    std::vector<T> v = values(c.rng.size(20));
                    log << "append " << v.size() << ";";
                    std::size_t o = off;
                    b.append(core::Span<const T>(v), o);
                    VF_EQ(o, off + v.size(), "offset", log.str());
                    m.insert(m.end(), v.begin(), v.end());
                    break;
                }
                case 1: {
                    std::size_t n = c.rng.size(20);
                    log << "append_a " << n << ";";
                    std::size_t o = off;
                    b.append_a(mk<T>(7), o, n);
                    VF_EQ(o, off + n, "offset", log.str());
                    m.insert(m.end(), n, mk<T>(7));
                    break;
                }
                case 2: {
                    std::size_t n = c.rng.size(50);
                    log << "reserve " << n << ";";
                    b.reserve(n, off);
                    VF_REQUIRE(b.size() >= n, "reserve", log.str());
                    if (n <= size)
                        unchanged("reserve");
                    break;
                }
                case 3: {
                    std::size_t n = c.rng.size(50);
                    std::size_t max = c.rng.size(70);
                    log << "reserve " << n << " max " << max << ";";
                    if (n > size && n > max) {
                        overflowing([&] { b.reserve(n, off, max); }, "reserve");
                    }
                    else if (n <= size || max >= size) {
                        b.reserve(n, off, max);
                        VF_REQUIRE(b.size() >= n && (b.size() == size || b.size() <= max), "reserve_max", log.str() << b.size());
                        if (n <= size)
                            unchanged("reserve");
                        else
                            c.event("bounded_growth");
                    }
                    break;
                }
                case 4: {
                    std::size_t n = c.rng.size(30);
                    std::size_t max = c.rng.size(70);
                    log << "reserve_extra " << n << " max " << max << ";";
                    if (off + n <= size) {
                        b.reserve_extra(n, off, max);
                        unchanged("reserve_extra");
                    }
                    else if (off + n > max) {
                        overflowing([&] { b.reserve_extra(n, off, max); }, "reserve_extra");
                    }
                    else {
                        b.reserve_extra(n, off, max);
                        VF_REQUIRE(b.size() >= off + n && b.size() <= max, "reserve_max", log.str() << b.size());
                    }
                    if (off > 0) {
                        std::size_t huge = std::size_t(-1) - c.rng.below(off);
                        addr = b.data();
                        size = b.size();
                        overflowing([&] { b.reserve_extra(huge, off); }, "reserve_extra huge");
                    }
                    break;
                }
                case 5: {
                    log << "expand;";
                    b.expand(off);
                    VF_REQUIRE(b.size() > size, "expand", log.str());
                    break;
                }
                case 6: {
                    std::size_t n = c.rng.size(20);
                    log << "expand_a " << n << ";";
                    b.expand_a(n, off);
                    VF_REQUIRE(b.size() >= size + n, "expand", log.str());
                    break;
                }
                case 7: {
                    bool boom = c.rng.chance(1, 2);
                    std::size_t n = c.rng.size(50);
                    log << "reserve_f " << n << (boom ? "!" : "") << ";";
                    int calls = 0;
                    try {
                        b.reserve_f(n, off, [&](core::Span<T> mem) {
                            ++calls;
                            VF_REQUIRE(mem.size() >= n && mem.size() >= size && b.data() == addr && b.size() == size, "callback", log.str());
                            if (boom)
                                throw Boom();
                            for (T& e : mem)
                                e = mk<T>(1);
                        });
                        VF_REQUIRE(calls == (n > size ? 1 : 0), "callback", log.str());
                    }
                    catch (const Boom&) {
                        unchanged("reserve_f");
                        c.event("injected_exception");
                    }
                    break;
                }
                case 8: {
                    bool boom = c.rng.chance(1, 2);
                    std::size_t n = c.rng.size(50);
                    log << "reserve_a " << n << (boom ? "!" : "") << ";";
                    int calls = 0;
                    auto copy = [&](core::Span<T> mem) {
                        ++calls;
                        VF_REQUIRE(mem.size() >= n && mem.size() >= size && b.data() == addr && b.size() == size, "callback", log.str());
                        std::copy_n(b.data(), off, mem.data());
                        if (boom)
                            throw Boom();
                    };
                    try {
                        if (c.rng.chance(1, 2))
                            b.reserve_a(n, copy);
                        else
                            b.reserve_extra_a(n, off, copy);
                        VF_REQUIRE(calls <= 1 && (calls == 1) == (b.data() != addr), "callback", log.str());
                    }
                    catch (const Boom&) {
                        unchanged("reserve_a");
                        c.event("injected_exception");
                    }
                    break;
                }
                case 9: {
                    if (c.rng.chance(1, 2)) {
                        std::vector<T> v = values(c.rng.size(30));
                        log << "assign " << v.size() << ";";
                        b.assign(core::Span<const T>(v));
                        m = v;
                    }
                    else {
                        std::size_t n = c.rng.size(30);
                        log << "assign_a " << n << ";";
                        b.assign_a(mk<T>(9), n);
                        m.assign(n, mk<T>(9));
                    }
                    break;
                }
                case 10: {
                    log << "move;";
                    core::Buffer<T> b2 = std::move(b);
                    VF_REQUIRE(b2.size() == size && b.size() == 0, "move", log.str());
                    check(b2, m, "move");
                    b = std::move(b2);
                    VF_REQUIRE(b.size() == size && b2.size() == 0, "move", log.str());
                    break;
                }
            }
            check(b, m, "step");
            c.event("operations");
        }
    }

    void backward()
    {
        std::size_t seed_size = c.rng.size(12);
        std::unique_ptr<T[]> seed = std::make_unique<T[]>(seed_size);
        core::Buffer<T> b(core::Span<T>(seed.get(), seed_size));
        std::size_t off = b.size();
        std::vector<T> m;
        std::size_t steps = 1 + c.rng.below(12);
        for (std::size_t s = 0; s < steps; ++s) {
            if (c.rng.chance(1, 2)) {
                std::vector<T> v = values(c.rng.size(20));
                log << "prepend " << v.size() << ";";
                b.prepend(core::Span<const T>(v), off);
                m.insert(m.begin(), v.begin(), v.end());
            }
            else {
                std::size_t n = c.rng.size(20);
                log << "prepend_a " << n << ";";
                b.prepend_a(mk<T>(5), off, n);
                m.insert(m.begin(), n, mk<T>(5));
            }
            VF_EQ(b.size() - off, m.size(), "prepend_size", log.str());
            for (std::size_t i = 0; i < m.size(); ++i)
                VF_REQUIRE(b[off + i] == m[i], "content", "prepend at " << i << " " << log.str());
            c.event("operations");
        }
    }

    void contents()
    {
        core::Buffer<T> b(c.rng.size(6));
        core::BufferContents<T> t(b);
        std::vector<T> m;
        std::size_t steps = 1 + c.rng.below(25);
        for (std::size_t s = 0; s < steps; ++s) {
            switch (c.rng.below(5)) {
                case 0: {
                    T v = mk<T>(counter++);
                    log << "push;";
                    t.push_back(v);
                    m.push_back(v);
                    break;
                }
                case 1: {
                    T v = mk<T>(counter++);
                    m.push_back(v);
                    log << "push&&;";
                    t.push_back(std::move(v));
                    break;
                }
                case 2: {
                    std::vector<T> v = values(c.rng.size(20));
                    log << "append " << v.size() << ";";
                    t.append(core::Span<const T>(v));
                    m.insert(m.end(), v.begin(), v.end());
                    break;
                }
                case 3: {
                    std::size_t n = c.rng.size(20);
                    log << "append n " << n << ";";
                    t.append(n, mk<T>(3));
                    m.insert(m.end(), n, mk<T>(3));
                    break;
                }
                case 4:
                    if (c.rng.chance(1, 4)) {
                        log << "clear;";
                        t.clear();
                        m.clear();
                    }
                    break;
            }
            const auto& ct = t;
            VF_EQ(ct.size(), m.size(), "size", log.str());
            VF_EQ(ct.empty(), m.empty(), "size", log.str());
            VF_REQUIRE(std::vector<T>(ct.begin(), ct.end()) == m && std::vector<T>(t.begin(), t.end()) == m, "content", log.str());
            if (!m.empty()) {
                std::size_t i = c.rng.below(m.size());
                VF_REQUIRE(t[i] == m[i] && ct[i] == m[i] && &t[i] == t.data() + i && ct.data() == b.data(), "content", log.str());
            }
            c.event("operations");
        }
    }

    void string_contents()
    {
        if constexpr (std::is_same_v<T, char> || std::is_same_v<T, wchar_t>) {
            core::ArraySeededBuffer<T, 9> b;
            VF_REQUIRE(b.size() == 9, "array_seeded", b.size());
            core::BasicStringBufferContents<T> t(b);
            std::basic_string<T> m;
            if (c.rng.chance(1, 2)) {
                std::size_t n = c.rng.below(9);
                b.assign_a(T('q'), n);
                t.set_size(n);
                m.assign(n, T('q'));
            }
            std::size_t steps = 1 + c.rng.below(25);
            for (std::size_t s = 0; s < steps; ++s) {
                switch (c.rng.below(3)) {
                    case 0: {
                        std::vector<T> v = values(c.rng.size(20));
                        std::basic_string<T> str(v.begin(), v.end());
                        log << "append " << v.size() << ";";
                        t.append(str);
                        m += str;
                        break;
                    }
                    case 1: {
                        std::size_t n = c.rng.size(20);
                        log << "append n " << n << ";";
                        t.append(n, T('x'));
                        m.append(n, T('x'));
                        break;
                    }
                    case 2:
                        if (c.rng.chance(1, 4)) {
                            log << "clear;";
                            t.clear();
                            m.clear();
                        }
                        break;
                }
                VF_REQUIRE(t.size() == m.size() && t.empty() == m.empty(), "size", log.str());
                VF_REQUIRE(std::basic_string<T>(t.begin(), t.end()) == m && std::basic_string<T>(t.data(), t.size()) == m, "content", log.str());
                VF_REQUIRE(&t.buffer() == &b, "content", log.str());
                c.event("operations");
            }
        }
    }
};

template<class T> void run(vf::Case& c)
{
    Run<T> r { c, {} };
    switch (c.rng.below(4)) {
        case 0:
        case 1:
            r.log << "F:";
            r.forward();
            break;
        case 2:
            r.log << "B:";
            r.backward();
            break;
        case 3:
            if (c.rng.chance(1, 2) || std::is_same_v<T, std::string> || std::is_same_v<T, int>) {
                r.log << "C:";
                r.contents();
            }
            else {
                r.log << "S:";
                r.string_contents();
            }
    }
    c.nontrivial(vf::Hash().add(r.log.str()).add(sizeof(T)).get());
    c.sample([&] { return r.log.str(); });
}

} // unnamed namespace

VF_MONITOR(buffers, 20000, 800000)
{
    switch (c.index % 4) {
        case 0: run<char>(c); break;
        case 1: run<int>(c); break;
        case 2: run<std::string>(c); break;
        case 3: run<wchar_t>(c); break;
    }
}
