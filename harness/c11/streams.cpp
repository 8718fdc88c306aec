// Sources and sinks
#include "common.hpp"
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/file_source.hpp>
#include <archon/core/file_sink.hpp>
#include <archon/core/rewindable_source.hpp>

using namespace c11;

namespace {

// A source that delivers prescribed data in random chunks, and fails or throws now and then
struct Script : core::Source {
    vf::Rng& r;
    std::string data;
    std::size_t pos = 0;
    bool faults;
    int pending = 0; // Outcome of latest call: 0 success, 1 failure, 2 exception
    std::size_t calls = 0;
    Script(vf::Rng& r, std::string data, bool faults) : r(r), data(std::move(data)), faults(faults) {}
    bool do_try_read_some(core::Span<char> buffer, std::size_t& n, std::error_code& ec) override
    {
        ++calls;
        pending = 0;
        if (faults && r.chance(1, 7)) {
            pending = 1 + int(r.chance(1, 3));
            // Buffer contents may be clobbered
            for (std::size_t i = 0; i < buffer.size(); ++i) buffer[i] = '!';
            if (pending == 2) throw 42;
            ec = std::make_error_code(std::errc::io_error);
            return false;
        }
        std::size_t avail = data.size() - pos;
        std::size_t m = std::min(avail, buffer.size());
        if (m > 0) m = (r.chance(1, 3) ? m : 1 + r.size(m - 1));
        std::memcpy(buffer.data(), data.data() + pos, m);
        for (std::size_t i = m; i < buffer.size(); ++i) buffer[i] = '?';
        pos += m;
        n = m;
        return true;
    }
};

enum class Outcome { ok, fail, thrown };

// Performs one read operation in one of the four possible ways and checks the generic part of the contract
struct Read {
    Outcome outcome = Outcome::ok;
    std::string bytes;   // What was read (also on failure of `try_read()`)
    bool known = true;   // Whether bytes is known
    std::size_t size = 0;
    bool some = false;
};
Read do_read(vf::Rng& r, core::Source& src, std::size_t size)
{
    Read res;
    res.size = size;
    int how = int(r.below(4));
    res.some = (how % 2 == 1);
    std::string buf(size, '#');
    std::size_t n = 777777;
    std::error_code ec = sentinel();
    bool ok = false;
    try {
        switch (how) {
            case 0: n = src.read(core::Span<char>(buf)); ok = true; break;
            case 1: n = src.read_some(core::Span<char>(buf)); ok = true; break;
            case 2: ok = src.try_read(core::Span<char>(buf), n, ec); break;
            case 3: ok = src.try_read_some(core::Span<char>(buf), n, ec); break;
        }
        if (!ok) {
            res.outcome = Outcome::fail;
            VF_REQUIRE(ec == std::errc::io_error, "source-error-code", ec);
        }
    }
    catch (std::system_error& e) {
        VF_REQUIRE(e.code() == std::errc::io_error, "source-error-code", e.code());
        res.outcome = Outcome::fail;
        res.known = (how == 1);
        return res;
    }
    catch (int) {
        VF_EQ(n, std::size_t(777777), "source-n-touched-by-throw", "");
        VF_EQ(ec, sentinel(), "source-ec-touched-by-throw", "");
        res.outcome = Outcome::thrown;
        res.known = res.some;
        return res;
    }
    if (ok) {
        if (how >= 2) VF_EQ(ec, sentinel(), "source-ec-touched", "");
        VF_REQUIRE(n <= size, "source-n-range", n);
        res.bytes = buf.substr(0, n);
    }
    else {
        if (how == 3) VF_EQ(n, std::size_t(777777), "source-n-touched", "");
        if (how == 2) { VF_REQUIRE(n <= size, "source-n-range", n); res.bytes = buf.substr(0, n); }
    }
    return res;
}

// Checks the outcome of a read operation given the position of the reader in the ideal stream
void check_read(const Read& res, const std::string& data, std::size_t& pos, std::size_t pos_if_unknown, const std::function<void(std::ostream&)>& ctx)
{
    if (!res.known) {
        pos = pos_if_unknown;
        return;
    }
    VF_REQUIRE(pos + res.bytes.size() <= data.size(), "source-excess", ctx);
    VF_EQ(vf::show(res.bytes), vf::show(data.substr(pos, res.bytes.size())), "source-bytes", ctx);
    pos += res.bytes.size();
    if (res.outcome == Outcome::ok) {
        std::size_t left = data.size() - pos;
        if (res.some) VF_REQUIRE(!res.bytes.empty() || res.size == 0 || left == 0, "source-premature-end", ctx);
        else VF_REQUIRE(res.bytes.size() == res.size || left == 0, "source-premature-end", ctx);
    }
}

} // unnamed namespace

VF_MONITOR(source_contract, 6000, 60000)
{
    auto& r = c.rng;
    Script src(r, random_bytes(r, r.size(200)), r.chance(1, 2));
    std::size_t pos = 0;
    std::string log;
    std::function<void(std::ostream&)> ctx = [&](std::ostream& o) { o << "data " << vf::show(src.data) << " " << log; };
    std::size_t n = 1 + r.size(30);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t size = r.size(40);
        Read res = do_read(r, src, size);
        log += std::to_string(size) + (res.some ? "s" : "") + "->" + std::to_string(res.bytes.size()) + (res.outcome == Outcome::ok ? "; " : res.outcome == Outcome::fail ? " fail; " : " throw; ");
        VF_EQ(int(res.outcome), src.pending, "source-outcome", ctx);
        check_read(res, src.data, pos, src.pos, ctx);
        VF_EQ(pos, src.pos, "source-lost-bytes", ctx);
        c.event(res.outcome == Outcome::ok ? "ok" : "fault");
    }
    c.event("bytes", pos);
    c.nontrivial(vf::Hash().add(pos).add(n).get());
}

VF_MONITOR(rewindable_source, 8000, 100000)
{
    auto& r = c.rng;
    Script src(r, random_bytes(r, r.chance(1, 20) ? r.size(5000) : r.size(200)), r.chance(1, 2));
    core::Buffer<char> buffer(r.chance(1, 2) ? 0 : r.size(100));
    core::RewindableSource rs(src, buffer);
    std::size_t pos = 0;
    bool released = false;
    std::string log;
    std::function<void(std::ostream&)> ctx = [&](std::ostream& o) { o << "data " << vf::show(src.data) << " " << log; };
    std::size_t n = 1 + r.size(40), max_buf = 0;
    vf::Hash sig;
    for (std::size_t i = 0; i < n; ++i) {
        if (r.chance(1, 6) && !released) {
            rs.rewind();
            pos = 0;
            log += "rewind; ";
            c.event("rewind");
            continue;
        }
        if (r.chance(1, 25)) {
            rs.release();
            released = true;
            max_buf = buffer.size();
            log += "release; ";
            c.event("release");
            continue;
        }
        std::size_t size = r.size(60);
        src.pending = 0;
        Read res = do_read(r, rs, size);
        log += std::to_string(size) + (res.some ? "s" : "") + "->" + std::to_string(res.bytes.size()) + (res.outcome == Outcome::ok ? "; " : res.outcome == Outcome::fail ? " fail; " : " throw; ");
        VF_EQ(int(res.outcome), src.pending, "rewindable-outcome", ctx);
        if (!res.known && !released) {
            // How much was read is only known relative to what has been taken from the wrapped source
            rs.rewind();
            log += "rewind; ";
            pos = 0;
            continue;
        }
        check_read(res, src.data, pos, src.pos, ctx);
        VF_REQUIRE(pos <= src.pos, "rewindable-ahead", ctx);
        if (released) VF_EQ(buffer.size(), max_buf, "rewindable-stores-after-release", ctx);
        sig.add(res.bytes.size());
        c.event(res.outcome == Outcome::ok ? "ok" : "fault");
        c.event("bytes", res.bytes.size());
    }
    // Whatever remains must come out whole
    src.faults = false;
    if (!released && r.chance(1, 2)) { rs.rewind(); pos = 0; }
    std::string rest(src.data.size() + 10, '\0');
    std::size_t m = rs.read(core::Span<char>(rest));
    VF_EQ(vf::show(rest.substr(0, m)), vf::show(src.data.substr(pos)), "rewindable-rest", ctx);
    VF_EQ(rs.read(core::Span<char>(rest)), std::size_t(0), "rewindable-end", ctx);
    c.nontrivial(sig.get());
    c.sample([&](std::ostream& o) { o << log.substr(0, 200); });
}

VF_MONITOR(file_sources, 3000, 30000)
{
    auto& r = c.rng;
    fs::path path = fresh(c) / "f";
    std::string data = random_bytes(r, r.size(300));
    spit(path, data);
    File file(path);
    std::size_t start = r.below(data.size() + 1);
    file.seek(long(start));
    std::string mem(1 + r.size(40), '\0');
    core::FileSource fsrc(file);
    core::BufferedFileSource bsrc(file, core::Span<char>(mem));
    core::Buffer<char> rbuf;
    bool buffered = r.chance(2, 3), rewindable = r.chance(1, 3);
    core::Source& sub = (buffered ? static_cast<core::Source&>(bsrc) : fsrc);
    core::RewindableSource rsrc(sub, rbuf);
    core::Source& src = (rewindable ? static_cast<core::Source&>(rsrc) : sub);
    std::size_t pos = start;
    std::string log;
    std::function<void(std::ostream&)> ctx = [&](std::ostream& o) { o << "buffered=" << buffered << " buf " << mem.size() << " rewindable=" << rewindable << " start " << start << " data " << vf::show(data) << " " << log; };
    std::size_t n = 1 + r.size(30);
    for (std::size_t i = 0; i < n; ++i) {
        if (r.chance(1, 8) && rewindable) { rsrc.rewind(); pos = start; log += "rewind; "; continue; }
        if (r.chance(1, 12)) {
            // The file grows
            std::string extra = random_bytes(r, r.size(50));
            std::ofstream(path, std::ios::binary | std::ios::app) << extra;
            data += extra;
            log += "grow" + std::to_string(extra.size()) + "; ";
        }
        Read res = do_read(r, src, r.size(70));
        log += std::to_string(res.size) + "->" + std::to_string(res.bytes.size()) + "; ";
        VF_EQ(int(res.outcome), 0, "file-source-outcome", ctx);
        check_read(res, data, pos, pos, ctx);
        c.event("bytes", res.bytes.size());
    }
    c.nontrivial(vf::Hash().add(pos).add(n).add(buffered).get());
}

VF_MONITOR(file_sinks, 3000, 30000)
{
    auto& r = c.rng;
    fs::path path = fresh(c) / "f";
    std::string orig = random_bytes(r, r.size(30));
    spit(path, orig);
    bool append = r.chance(1, 4);
    File file(path, append ? File::Mode::append : File::Mode::update);
    std::size_t start = (append ? orig.size() : r.below(orig.size() + 1));
    file.seek(long(start));
    std::string mem(1 + r.size(40), '\0');
    core::FileSink fsink(file);
    core::BufferedFileSink bsink(file, core::Span<char>(mem));
    bool buffered = r.chance(2, 3);
    core::Sink& sink = (buffered ? static_cast<core::Sink&>(bsink) : fsink);
    std::string written;
    std::string log;
    auto ctx = [&](std::ostream& o) { o << "buffered=" << buffered << " buf " << mem.size() << " start " << start << " orig " << vf::show(orig) << " written " << vf::show(written) << " " << log; };
    SizeLimit limit;
    bool faults = r.chance(1, 2);
    std::size_t lim = start + r.below(150);
    if (faults) { limit.set(lim); log += "limit " + std::to_string(lim) + "; "; }
    std::size_t n = 1 + r.size(30), fault_count = 0;
    auto check = [&](bool flushed) {
        std::string d = slurp(path);
        std::size_t k = 0; // Number of bytes that have arrived
        std::string expected;
        auto model = [&](std::size_t m) { std::string s = orig; if (s.size() < start + m) s.resize(start + m); s.replace(start, m, written.substr(0, m)); return s; };
        std::size_t lo = (flushed || !buffered ? written.size() : written.size() - std::min(written.size(), mem.size()));
        for (k = lo; k <= written.size(); ++k) if (d == model(k)) return;
        VF_REQUIRE(false, flushed ? "sink-content-flushed" : "sink-content", [&](std::ostream& o) { o << "disk " << vf::show(d) << " "; ctx(o); });
    };
    auto on_fault = [&](std::error_code ec) {
        VF_REQUIRE(faults && ec == std::errc::file_too_large, "sink-unexpected-fault", [&](std::ostream& o) { o << ec << " "; ctx(o); });
        VF_REQUIRE(++fault_count < 1000, "sink-no-progress", ctx);
        c.event("fault");
        check(false);
        lim += r.size(60);
        if (r.chance(1, 10)) { limit.lift(); faults = false; log += "lift; "; }
        else { limit.set(lim); log += "limit " + std::to_string(lim) + "; "; }
    };
    auto flush = [&] {
        for (;;) {
            std::error_code ec = sentinel();
            bool ok = false;
            bool tr = r.chance(1, 2);
            try {
                if (tr) { ok = bsink.try_flush(ec); if (ok) VF_EQ(ec, sentinel(), "flush-ec-touched", ctx); }
                else { bsink.flush(); ok = true; }
            }
            catch (std::system_error& e) { ec = e.code(); }
            log += ok ? "flush; " : "flush fail; ";
            if (ok) break;
            on_fault(ec);
        }
        check(true);
        c.event("flush");
    };
    for (std::size_t i = 0; i < n; ++i) {
        if (buffered && r.chance(1, 5)) { flush(); continue; }
        std::string data = random_bytes(r, r.size(60));
        for (;;) {
            std::size_t m = 777777;
            std::error_code ec = sentinel();
            bool ok = false, tr = faults || r.chance(1, 2);
            if (tr) {
                ok = sink.try_write(data, m, ec);
                if (ok) { VF_EQ(ec, sentinel(), "sink-ec-touched", ctx); VF_EQ(m, data.size(), "sink-n", ctx); }
            }
            else { sink.write(data); ok = true; m = data.size(); }
            log += "write " + std::to_string(data.size()) + (ok ? "; " : " fail at " + std::to_string(m) + "; ");
            VF_REQUIRE(m <= data.size() && (ok || m < data.size()), "sink-n-range", ctx);
            written += data.substr(0, m);
            c.event("bytes", m);
            if (ok) break;
            data = data.substr(m);
            on_fault(ec);
        }
        check(false);
    }
    if (buffered) flush();
    check(true);
    c.nontrivial(vf::Hash().add(written.size()).add(n).add(buffered).add(fault_count).get());
}

VF_MONITOR(write_faults, 1500, 15000)
{
    // Partial writes to a file are reported with the exact number of written bytes
    auto& r = c.rng;
    fs::path path = fresh(c) / "f";
    File file(path, File::Mode::write);
    SizeLimit limit;
    std::size_t lim = r.below(400);
    limit.set(lim);
    std::string expected, log;
    auto ctx = [&](std::ostream& o) { o << "limit " << lim << " " << log; };
    for (int i = 0; i < 12; ++i) {
        std::string data = random_bytes(r, 1 + r.size(100));
        std::size_t room = lim - expected.size();
        std::size_t n = 777777;
        std::error_code ec = sentinel();
        bool some = r.chance(1, 3);
        bool ok = some ? file.try_write_some(data, n, ec) : file.try_write(data, n, ec);
        std::size_t m = std::min(room, data.size());
        log += std::to_string(data.size()) + (some ? "s; " : "; ");
        bool expect = some ? (room > 0) : (room >= data.size());
        VF_EQ(ok, expect, "write-fault-outcome", ctx);
        if (ok) {
            VF_EQ(ec, sentinel(), "write-fault-ec-touched", ctx);
            VF_EQ(n, m, "write-fault-n", ctx);
        }
        else {
            VF_REQUIRE(ec == std::errc::file_too_large, "write-fault-ec", ctx);
            VF_EQ(n, some ? std::size_t(777777) : m, "write-fault-n", ctx);
            c.event("fault");
        }
        expected += data.substr(0, ok || !some ? n : 0);
        VF_EQ(vf::show(slurp(path)), vf::show(expected), "write-fault-content", ctx);
        if (!ok && r.chance(1, 2)) { lim += r.size(100); limit.set(lim); log += "limit " + std::to_string(lim) + "; "; }
    }
    fs::path path_2 = fs::path(c.tmp_dir) / "g";
    std::string data = random_bytes(r, r.size(600));
    std::error_code ec = sentinel();
    bool ok = File::try_save(path_2, data, ec);
    VF_EQ(ok, data.size() <= lim, "save-fault-outcome", ctx);
    if (!ok) VF_REQUIRE(ec == std::errc::file_too_large, "save-fault-ec", ctx);
    c.nontrivial(vf::Hash().add(lim).add(expected.size()).get());
}
