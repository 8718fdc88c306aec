// C04: memory streams and string formatters
#include <iomanip>
#include <locale>
#include <memory>
#include <sstream>
#include <string>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
#include <archon/core/string_formatter.hpp>
#include <archon/core/stream_input.hpp>
#include <archon/core/stream_output.hpp>
#include <vf.hpp>

using namespace archon;

namespace {

template<class C> std::basic_string<C> text(vf::Case& c, std::size_t n)
{
    std::basic_string<C> s;
    for (std::size_t i = 0; i < n; ++i) {
        switch (c.rng.below(6)) {
            case 0: s += C(' '); break;
            case 1: s += C('\n'); break;
            case 2: s += C('0' + c.rng.below(10)); break;
            case 3: s += std::is_same_v<C, char> ? C(c.rng.below(256)) : C(c.rng.below(0x20000)); break;
            default: s += C('a' + c.rng.below(26)); break;
        }
    }
    return s;
}

template<class C> void input(vf::Case& c)
{
    using Str = std::basic_string<C>;
    std::ostringstream log;
    // Exact size heap copy, such that any access outside is seen
    auto make = [&](std::size_t n, Str& s) {
        s = text<C>(c, n);
        std::unique_ptr<C[]> p(new C[n]);
        std::copy(s.begin(), s.end(), p.get());
        return p;
    };
    Str s;
    std::unique_ptr<C[]> mem = make(c.rng.size(60), s);
    core::BasicMemoryInputStream<C> in;
    VF_REQUIRE(in.view().empty(), "view", "default");
    if (c.rng.chance(1, 2)) {
        in.reset(core::StringSpan<C>(mem.get(), s.size()));
    }
    std::unique_ptr<core::BasicMemoryInputStream<C>> in2;
    if (in.view().data() != mem.get() || s.empty())
        in2 = std::make_unique<core::BasicMemoryInputStream<C>>(core::StringSpan<C>(mem.get(), s.size()));
    std::basic_istream<C>& a = in2 ? static_cast<std::basic_istream<C>&>(*in2) : in;
    core::BasicMemoryInputStream<C>& as = in2 ? *in2 : in;
    VF_REQUIRE(Str(as.view()) == s, "view", log.str());
    std::basic_istringstream<C> b(s, std::ios_base::in);
    std::size_t steps = 1 + c.rng.below(40);
    for (std::size_t i = 0; i < steps; ++i) {
        unsigned op = unsigned(c.rng.below(12));
        log << op;
        switch (op) {
            case 0: {
                auto x = a.get(), y = b.get();
                VF_REQUIRE(x == y, "get", log.str());
                break;
            }
            case 1: {
                auto x = a.peek(), y = b.peek();
                VF_REQUIRE(x == y, "peek", log.str());
                break;
            }
            case 2: {
                std::size_t n = c.rng.size(20);
                log << "," << n;
                Str x(n, C()), y(n, C());
                a.read(x.data(), std::streamsize(n));
                b.read(y.data(), std::streamsize(n));
                VF_REQUIRE(a.gcount() == b.gcount() && x == y, "read", log.str());
                break;
            }
            case 3:
                a.unget();
                b.unget();
                break;
            case 4: {
                C ch = C('a' + c.rng.below(3));
                if (c.rng.chance(1, 2) && b.good() && b.tellg() > 0) {
                    auto p = b.tellg();
                    ch = s[std::size_t(std::streamoff(p)) - 1]; // Putting back the same character is always possible
                    a.putback(ch);
                    b.putback(ch);
                    VF_REQUIRE(a.good() == b.good(), "putback", log.str());
                }
                break;
            }
            case 5: case 6: {
                std::ios_base::seekdir dir = c.rng.pick({ std::ios_base::beg, std::ios_base::cur, std::ios_base::end });
                std::streamoff off = c.rng.range(-std::int64_t(s.size()) - 2, std::int64_t(s.size()) + 2);
                if (c.rng.chance(1, 10))
                    off = c.rng.chance(1, 2) ? std::numeric_limits<std::streamoff>::max() : std::numeric_limits<std::streamoff>::min();
                log << "," << int(dir) << "," << off;
                // Model of the seek operation (std::istringstream fails on overflow in
                // implementation defined ways).
                if (off > 1000 || off < -1000) {
                    a.seekg(off, dir);
                    bool bad = a.fail();
                    VF_REQUIRE(bad, "seek_overflow", log.str());
                    b.setstate(std::ios_base::failbit);
                    b.clear(b.rdstate() & ~std::ios_base::eofbit);
                    a.clear();
                    b.clear();
                }
                else {
                    a.seekg(off, dir);
                    b.seekg(off, dir);
                }
                break;
            }
            case 7: {
                std::streamoff pos = c.rng.range(-2, std::int64_t(s.size()) + 2);
                log << "," << pos;
                a.seekg(pos);
                b.seekg(pos);
                break;
            }
            case 8: {
                std::size_t n = c.rng.size(10);
                a.ignore(std::streamsize(n));
                b.ignore(std::streamsize(n));
                break;
            }
            case 9: {
                Str x, y;
                std::getline(a, x);
                std::getline(b, y);
                VF_REQUIRE(x == y, "getline", log.str());
                break;
            }
            case 10: {
                if (c.rng.chance(1, 2)) {
                    int x = -1, y = -1;
                    a >> x;
                    b >> y;
                    VF_EQ(x, y, "extract_int", log.str());
                }
                else {
                    Str x, y;
                    a >> x;
                    b >> y;
                    VF_REQUIRE(x == y, "extract_string", log.str());
                }
                break;
            }
            case 11: {
                if (c.rng.chance(1, 3)) {
                    log << "reset";
                    mem = make(c.rng.size(60), s);
                    as.reset(core::StringSpan<C>(mem.get(), s.size()));
                    b.str(s);
                    b.clear();
                    VF_REQUIRE(a.rdstate() == std::ios_base::goodbit && Str(as.view()) == s, "reset", log.str());
                }
                else {
                    a.clear();
                    b.clear();
                }
                break;
            }
        }
        log << ";";
        VF_EQ(int(a.rdstate()), int(b.rdstate()), "state", log.str());
        if (a.good())
            VF_REQUIRE(a.tellg() == b.tellg(), "position", log.str() << " " << a.tellg() << " vs " << b.tellg());
        c.event("operations");
    }
    c.nontrivial(vf::Hash().add(log.str()).add(s).get());
    c.sample([&] { return log.str(); });
}

template<class C> void output(vf::Case& c)
{
    using Str = std::basic_string<C>;
    std::ostringstream log;
    std::size_t cap = c.rng.size(60);
    std::size_t init = c.rng.below(cap + 1);
    std::unique_ptr<C[]> mem(new C[cap]);
    Str model(cap, C('#')); // Whole memory
    std::copy(model.begin(), model.end(), mem.get());
    core::BasicMemoryOutputStream<C> out(core::Span<C>(mem.get(), cap), init);
    std::size_t pos = 0, size = init;
    log << cap << "/" << init << ";";
    std::size_t steps = 1 + c.rng.below(30);
    for (std::size_t i = 0; i < steps; ++i) {
        unsigned op = unsigned(c.rng.below(8));
        log << op;
        auto put = [&](const Str& s) { // Returns false if truncated
            std::size_t n = std::min(s.size(), cap - pos);
            for (std::size_t j = 0; j < n; ++j)
                model[pos++] = s[j];
            size = std::max(size, pos);
            return n == s.size();
        };
        bool good = true;
        out.clear();
        switch (op) {
            case 0: {
                Str s(1, C('a' + c.rng.below(26)));
                out.put(s[0]);
                good = put(s);
                break;
            }
            case 1: case 2: {
                Str s = text<C>(c, c.rng.size(20));
                log << "," << s.size();
                if (c.rng.chance(1, 2))
                    out << s;
                else
                    out.write(s.data(), std::streamsize(s.size()));
                good = put(s);
                break;
            }
            case 3: {
                int v = int(c.rng.range(-100000, 100000));
                log << "," << v;
                out << v;
                std::basic_ostringstream<C> o;
                o << v;
                good = put(o.str());
                break;
            }
            case 4: case 5: {
                int dir = int(c.rng.below(4));
                std::streamoff off = c.rng.range(-std::int64_t(cap) - 2, std::int64_t(cap) + 2);
                if (c.rng.chance(1, 10))
                    off = c.rng.chance(1, 2) ? std::numeric_limits<std::streamoff>::max() : std::numeric_limits<std::streamoff>::min();
                std::int64_t base = (dir == 1 ? std::int64_t(pos) : dir == 2 ? std::int64_t(size) : 0);
                log << "," << dir << "," << off;
                switch (dir) {
                    case 0: out.seekp(off, std::ios_base::beg); break;
                    case 1: out.seekp(off, std::ios_base::cur); break;
                    case 2: out.seekp(off, std::ios_base::end); break;
                    case 3: out.seekp(off); break;
                }
                __int128 target = __int128(base) + off;
                if (target < 0 || target > __int128(cap)) {
                    good = false;
                }
                else {
                    std::size_t p = std::size_t(target);
                    for (std::size_t j = size; j < p; ++j)
                        model[j] = C();
                    size = std::max(size, p);
                    pos = p;
                }
                break;
            }
            case 6: {
                VF_REQUIRE(std::streamoff(out.tellp()) == std::streamoff(pos), "position", log.str());
                break;
            }
            case 7: {
                if (c.rng.chance(1, 4)) {
                    log << "reset";
                    cap = c.rng.size(60);
                    size = c.rng.below(cap + 1);
                    pos = 0;
                    mem.reset(new C[cap]);
                    model = Str(cap, C('$'));
                    std::copy(model.begin(), model.end(), mem.get());
                    if (c.rng.chance(1, 2))
                        out.setstate(std::ios_base::badbit);
                    out.reset(core::Span<C>(mem.get(), cap), size);
                }
                break;
            }
        }
        log << ";";
        VF_EQ(out.good(), good, "overflow_reported", log.str());
        if (!good)
            c.event("overflow_or_bad_seek");
        VF_EQ(out.get_capacity(), cap, "capacity", log.str());
        VF_EQ(out.get_size(), size, "size", log.str());
        VF_REQUIRE(out.get_base() == mem.get(), "base", log.str());
        VF_REQUIRE(Str(out.view()) == model.substr(0, size), "content", log.str());
        VF_REQUIRE(Str(mem.get(), cap) == model, "wrote_outside_contents", log.str());
        c.event("operations");
    }
    c.nontrivial(vf::Hash().add(log.str()).get());
    c.sample([&] { return log.str(); });
}

template<class C> void seeded(vf::Case& c)
{
    using Str = std::basic_string<C>;
    std::ostringstream log;
    std::size_t n = c.rng.size(30);
    std::unique_ptr<C[]> seed(new C[n]);
    std::unique_ptr<core::BasicSeedMemoryOutputStream<C>> op;
    if (c.rng.chance(1, 4))
        op = std::make_unique<core::BasicSeedMemoryOutputStream<C>>();
    else
        op = std::make_unique<core::BasicSeedMemoryOutputStream<C>>(core::Span<C>(seed.get(), n));
    auto& out = *op;
    std::basic_ostringstream<C> ref;
    core::BasicSeedMemoryStreambuf<C> raw(core::Span<C>(seed.get(), c.rng.chance(1, 2) ? 0 : 0));
    Str raw_model;
    std::size_t steps = 1 + c.rng.below(30);
    for (std::size_t i = 0; i < steps; ++i) {
        unsigned k = unsigned(c.rng.below(9));
        log << k << ";";
        switch (k) {
            case 0: {
                C ch = C('a' + c.rng.below(26));
                out.put(ch);
                ref.put(ch);
                break;
            }
            case 1: case 2: {
                Str s = text<C>(c, c.rng.size(200));
                log << s.size() << ";";
                out << s;
                ref << s;
                break;
            }
            case 3: {
                double v = c.rng.real(-1e6, 1e6);
                int w = int(c.rng.below(20));
                out << std::setw(w) << v << std::hex << int(v) << std::dec;
                ref << std::setw(w) << v << std::hex << int(v) << std::dec;
                break;
            }
            case 4: {
                if (c.rng.chance(1, 3)) {
                    out.full_clear();
                    ref.str({});
                    ref.clear();
                }
                break;
            }
            case 5: {
                Str s = text<C>(c, c.rng.size(100));
                raw.append(s.data(), s.size());
                raw_model += s;
                break;
            }
            case 6: {
                std::size_t m = c.rng.size(100);
                raw.append(m, C('z'));
                raw_model.append(m, C('z'));
                break;
            }
            case 7:
                raw.reserve_extra(c.rng.size(50));
                break;
            case 8: {
                if (c.rng.chance(1, 3)) {
                    raw.clear_contents();
                    raw_model.clear();
                }
                else {
                    C ch = C(c.rng.below(256));
                    raw.sputc(ch);
                    raw_model += ch;
                }
                break;
            }
        }
        VF_REQUIRE(Str(out.view()) == ref.str(), "content", log.str());
        VF_REQUIRE(out.good(), "state", log.str());
        VF_REQUIRE(Str(raw.view()) == raw_model && raw.size() == raw_model.size() && Str(raw.data(), raw.size()) == raw_model, "streambuf_content", log.str());
        c.event("operations");
    }
    c.nontrivial(vf::Hash().add(log.str()).add(ref.str()).get());
    c.sample([&] { return log.str(); });
}

struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};

void formatter(vf::Case& c)
{
    std::locale loc = std::locale::classic();
    if (c.rng.chance(1, 3))
        loc = std::locale(loc, new Grouping);
    std::size_t n = c.rng.size(20);
    std::unique_ptr<char[]> seed(new char[n]);
    core::StringFormatter f(core::Span<char>(seed.get(), n), loc);
    wchar_t wseed[5];
    core::WideStringFormatter wf(wseed, loc);
    std::ostringstream log;
    for (int i = 0; i < 8; ++i) {
        int a = int(c.rng.range(-2000000, 2000000));
        std::string s;
        std::size_t m = c.rng.size(40);
        for (std::size_t j = 0; j < m; ++j)
            s += char('a' + c.rng.below(26));
        std::ostringstream o;
        o.imbue(loc);
        o << "<" << a << "|" << s << ">100%" << a;
        std::string got(f.format("<%s|%s>100%%%s", a, s, a));
        VF_EQ(got, o.str(), "format", log.str());
        log << got << ";";
        std::wstring ws(s.begin(), s.end());
        std::wstring wgot(wf.format("%s-%s", ws, ws));
        VF_REQUIRE(wgot == ws + L"-" + ws, "wide_format", log.str());
        VF_REQUIRE(f.format("") == "" && f.format("x") == "x", "format", log.str());
        c.event("operations");
    }
    c.nontrivial(vf::Hash().add(log.str()).get());
    c.sample([&] { return log.str(); });
}

struct Parts { std::vector<std::string> parts; int mode; };

std::ostream& operator<<(std::ostream& out, const Parts& p)
{
    if (p.mode == 0) {
        return core::ostream_sentry(out, [&](core::StreamOutputHelper& helper) {
            for (const auto& s : p.parts) {
                if (s.size() == 1)
                    helper.put(s[0]);
                else
                    helper.write(s);
            }
        });
    }
    if (p.mode == 1) {
        char seed[7];
        return core::ostream_sentry(out, [&](core::StreamOutputHelper& helper) {
            for (const auto& s : p.parts)
                helper.write(s);
            return true;
        }, core::Span<char>(seed));
    }
    if (p.mode == 2) {
        core::StreamOutputAltHelper helper(out);
        for (const auto& s : p.parts)
            helper.out << s;
        helper.flush();
        return out;
    }
    char seed[5];
    core::StreamOutputAltHelper helper(out, seed);
    for (const auto& s : p.parts)
        helper.out << s;
    helper.flush();
    return out;
}

void helpers(vf::Case& c)
{
    std::ostringstream log;
    Parts p;
    p.mode = int(c.rng.below(4));
    std::string all;
    std::size_t n = c.rng.size(8);
    for (std::size_t i = 0; i < n; ++i) {
        p.parts.push_back(text<char>(c, c.rng.size(12)));
        all += p.parts.back();
    }
    int w = c.rng.chance(1, 3) ? 0 : int(c.rng.below(80));
    auto adj = c.rng.pick({ std::ios_base::left, std::ios_base::right, std::ios_base::internal });
    std::ostringstream a, b;
    char fill = c.rng.pick({ ' ', '*' });
    for (std::ostringstream* o : { &a, &b }) {
        o->setf(adj, std::ios_base::adjustfield);
        o->fill(fill);
        *o << "[" << std::setw(w);
        if (o == &a)
            *o << p;
        else
            *o << all;
        VF_EQ(o->width(), std::streamsize(0), "width_reset", p.mode);
        *o << "]";
    }
    VF_EQ(a.str(), b.str(), "field_width", "mode " << p.mode << " width " << w);
    // Failure is reported through the stream state
    std::ostringstream f;
    core::ostream_sentry(f, [&](core::StreamOutputHelper&) { return false; });
    VF_REQUIRE(f.fail(), "failure_reported", "false");
    std::ostringstream g;
    core::ostream_sentry(g, [&](core::StreamOutputHelper&) { throw std::runtime_error("x"); });
    VF_REQUIRE(g.bad(), "failure_reported", "throw");
    std::ostringstream h;
    h.exceptions(std::ios_base::badbit);
    bool thrown = false;
    try { core::ostream_sentry(h, [&](core::StreamOutputHelper&) { throw std::runtime_error("x"); }); }
    catch (const std::ios_base::failure&) { thrown = true; }
    catch (const std::runtime_error&) { thrown = true; }
    VF_REQUIRE(thrown, "failure_reported", "exceptions enabled");
    // Input helper
    std::string s = text<char>(c, c.rng.size(10));
    std::istringstream in(s);
    in.unsetf(std::ios_base::skipws);
    std::string got;
    bool end = false;
    bool fail = c.rng.chance(1, 2);
    std::size_t limit = c.rng.below(12);
    core::istream_sentry(in, [&](core::StreamInputHelper& helper) {
        char ch;
        if (helper.peek(ch)) {
            while (got.size() < limit) {
                got += ch;
                if (!helper.next(ch)) {
                    end = true;
                    break;
                }
            }
        }
        else {
            end = true;
        }
        return !fail;
    });
    if (!s.empty()) {
        VF_EQ(got, s.substr(0, limit), "input", limit);
        VF_EQ(in.eof(), end, "input_eof", limit);
        VF_EQ(in.fail(), fail, "input_fail", limit);
        in.clear();
        std::string rest;
        std::getline(in, rest, '\0');
        if (!end && s.find('\0') == std::string::npos)
            VF_EQ(rest, s.substr(got.size()), "input_rest", limit);
    }
    c.nontrivial(vf::Hash().add(a.str()).add(w).add(p.mode).get());
    c.sample([&] { return vf::show(a.str()); });
    c.event("operations");
}

} // unnamed namespace

VF_MONITOR(memory_input, 12000, 400000)
{
    if (c.index % 3)
        input<char>(c);
    else
        input<wchar_t>(c);
}

VF_MONITOR(memory_output, 12000, 400000)
{
    if (c.index % 3)
        output<char>(c);
    else
        output<wchar_t>(c);
}

VF_MONITOR(seed_memory_output, 5000, 200000)
{
    if (c.index % 3)
        seeded<char>(c);
    else
        seeded<wchar_t>(c);
}

VF_MONITOR(string_formatter, 3000, 100000)
{
    formatter(c);
}

VF_MONITOR(stream_helpers, 8000, 300000)
{
    helpers(c);
}
