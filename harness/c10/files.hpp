#pragma once
#include <sys/resource.h>
#include <csignal>
#include <archon/core/text_file.hpp>
#include <archon/core/buffered_text_file.hpp>
#include "common.hpp"

namespace c10 {

template<class Conf> void small_buffers(vf::Rng& r, Conf& conf)
{
    if (r.chance(1, 5)) return;
    auto set = [&](auto& c) {
        if constexpr (requires { c.char_codec_buffer_size; })
            c.char_codec_buffer_size = r.size(24);
        if constexpr (requires { c.newline_codec_buffer_size; })
            c.newline_codec_buffer_size = r.size(24);
    };
    if constexpr (requires { conf.buffer_size; }) {
        conf.buffer_size = r.size(24);
        set(conf.subimpl);
    }
    else {
        set(conf);
    }
}

template<class F> F make_file(vf::Rng& r, bool utf8, bool dynamic_eof)
{
    typename F::Config config;
    config.dynamic_eof = dynamic_eof;
    config.disable_autounshift = r.chance(1, 4);
    small_buffers(r, config.impl);
    return F(locale(utf8), config);
}

template<class F> constexpr bool is_buffered = F::impl_type::is_buffered;
template<class F> constexpr bool is_windows = F::impl_type::has_windows_newline_codec;

// Random histories of operations on an open text file
template<class F> void history(vf::Case& c)
{
    using C = typename F::char_type;
    using S = std::basic_string<C>;
    constexpr bool wide = std::is_same_v<C, wchar_t>;
    auto& r = c.rng;
    std::filesystem::path path = c.tmp_dir + "/f";
    Model<C> m;
    m.windows = is_windows<F>;
    m.utf8 = r.chance(3, 4);
    bool dynamic_eof = m.dynamic_eof = r.chance(1, 3);
    F file = make_file<F>(r, m.utf8, dynamic_eof);
    std::string log;
    auto ctx = [&](std::ostream& o) {
        o << "windows=" << m.windows << " utf8=" << m.utf8 << " dynamic_eof=" << dynamic_eof << " pos=" << m.pos << " content " << show(m.content) << " history: " << log;
    };
    auto open = [&] {
        bool fresh = r.chance(1, 4);
        m.content = fresh ? "" : some_content<C>(r, m.utf8, m.windows, r.size(60));
        m.pos = 0;
        spit(path, m.content);
        auto mode = fresh && r.chance(1, 2) ? core::File::Mode::write : core::File::Mode::update;
        log += " open(" + show(m.content) + ")";
        if (r.chance(1, 4)) {
            core::File f(path, mode);
            file.open(std::move(f));
        }
        else if (r.chance(1, 2)) {
            std::error_code ec;
            VF_REQUIRE(file.try_open(path, mode, ec), "open-failed", ec.message());
        }
        else {
            file.open(path, mode);
        }
        VF_REQUIRE(file.is_open() && bool(file), "not-open", ctx);
    };
    open();
    auto check_content = [&](const char* key) {
        std::string got = slurp(path);
        VF_REQUIRE(got == m.content, key, "got " << show(got) << " expected " << ctx);
    };
    std::vector<std::size_t> saved { 0 };
    using pos_type = typename F::pos_type;
    bool stop = false;
    int switches = 0;
    bool last_write = false;
    for (int step = 0, steps = int(3 + r.below(20)); step < steps && !stop; ++step) {
        int op = int(r.below(12));
        View<C> v = m.look();
        switch (op) {
            case 0: case 1: case 2: { // write
                S s = some_text<C>(r, m.utf8, r.size(30));
                log += " write(" + show(s) + ")";
                std::size_t n = 777;
                std::error_code ec;
                if (r.chance(1, 3)) { file.write(s); n = s.size(); }
                else VF_REQUIRE(file.try_write(s, n, ec), "write-failed", ec.message() << ctx);
                VF_EQ(n, s.size(), "write-count", ctx);
                VF_REQUIRE(!ec, "write-ec", ctx);
                m.write(s);
                c.event("writes");
                switches += !last_write; last_write = true;
                break;
            }
            case 3: case 4: { // read
                std::size_t want = r.size(30);
                std::vector<C> buf(want);
                std::size_t n = 777;
                std::error_code ec;
                log += " read(" + std::to_string(want) + ")";
                bool rc = file.try_read(core::Span<C>(buf.data(), want), n, ec);
                std::size_t k = std::min(want, v.text.size());
                auto ctx2 = [&](std::ostream& o) { o << "rc=" << rc << " n=" << n << " ec=" << ec.message() << " "; ctx(o); };
                bool fail = want > v.text.size() && (v.error || v.incomplete);
                if (fail && dynamic_eof && (v.incomplete || v.early)) {
                    if (v.incomplete) VF_REQUIRE(rc, "read-dynamic-eof", ctx2);
                }
                else {
                    VF_EQ(rc, !fail, "read-verdict", ctx2);
                }
                if (!rc) VF_REQUIRE(ec == core::TextFileError::invalid_byte_seq, "read-error-code", ctx2);
                else VF_REQUIRE(!ec, "read-ec", ctx2);
                VF_EQ(n, k, "read-count", ctx2);
                VF_REQUIRE(std::equal(buf.begin(), buf.begin() + std::ptrdiff_t(k), v.text.begin()), "read-text", ctx2);
                m.read(v, k);
                c.event(rc ? "reads" : "read_errors");
                switches += last_write; last_write = false;
                break;
            }
            case 5: { // read_some
                std::size_t want = r.size(20);
                std::vector<C> buf(want);
                std::size_t n = 777;
                std::error_code ec;
                log += " read_some(" + std::to_string(want) + ")";
                bool rc = file.try_read_some(core::Span<C>(buf.data(), want), n, ec);
                auto ctx2 = [&](std::ostream& o) { o << "rc=" << rc << " n=" << n << " ec=" << ec.message() << " "; ctx(o); };
                if (want > 0 && v.text.empty() && (v.error || v.incomplete)) {
                    if (!(dynamic_eof && (v.early || v.incomplete))) VF_REQUIRE(!rc && ec == core::TextFileError::invalid_byte_seq, "read_some-error", ctx2);
                    if (rc) VF_EQ(n, 0u, "read_some-dynamic", ctx2);
                    if (dynamic_eof && v.incomplete) VF_REQUIRE(rc, "read_some-dynamic-eof", ctx2);
                }
                else {
                    VF_REQUIRE(rc, "read_some-failed", ctx2);
                    VF_REQUIRE(n <= want && n <= v.text.size() && (n > 0 || want == 0 || v.text.empty()), "read_some-count", ctx2);
                    VF_REQUIRE(std::equal(buf.begin(), buf.begin() + std::ptrdiff_t(n), v.text.begin()), "read_some-text", ctx2);
                    m.read(v, n);
                }
                c.event("partial_reads");
                switches += last_write; last_write = false;
                break;
            }
            case 6: { // read_all
                if (!r.chance(1, 3)) break;
                core::Buffer<C> buf(r.below(10));
                std::size_t pre = buf.size() ? r.below(buf.size()) : 0, off = pre;
                std::error_code ec;
                log += " read_all";
                bool rc = file.try_read_all(buf, off, ec);
                auto ctx2 = [&](std::ostream& o) { o << "rc=" << rc << " n=" << off - pre << " ec=" << ec.message() << " "; ctx(o); };
                bool fail = v.error || v.incomplete;
                if (!(dynamic_eof && (v.incomplete || v.early))) VF_EQ(rc, !fail, "read_all-verdict", ctx2);
                VF_REQUIRE(S(buf.data() + pre, off - pre) == v.text, "read_all-text", ctx2);
                m.read(v, v.text.size());
                c.event("read_alls");
                switches += last_write; last_write = false;
                break;
            }
            case 7: { // tell
                log += " tell";
                pos_type p = file.tell();
                VF_EQ(std::size_t(typename F::traits_type::off_type(p)), m.pos, "tell", ctx);
                saved.push_back(m.pos);
                c.event("tells");
                break;
            }
            case 8: { // seek
                std::size_t p = r.pick(saved);
                if (r.chance(1, 3)) {
                    View<C> w = view<C>(m.content, 0, m.windows, m.utf8);
                    if (!w.ends.empty()) p = r.pick(w.ends);
                }
                if (p > m.content.size()) p = m.content.size();
                log += " seek(" + std::to_string(p) + ")";
                file.seek(pos_type(typename F::traits_type::off_type(p)));
                m.pos = p;
                check_content("content-after-seek");
                c.event("seeks");
                last_write = false;
                break;
            }
            case 9: { // flush
                log += " flush";
                file.flush();
                check_content("content-after-flush");
                VF_EQ(std::size_t(typename F::traits_type::off_type(file.tell())), m.pos, "tell-after-flush", ctx);
                c.event("flushes");
                break;
            }
            case 10: {
                if constexpr (is_buffered<F>) { // lines
                    if (r.chance(1, 3)) {
                        S s = some_text<C>(r, m.utf8, r.size(20));
                        log += " write_line(" + show(s) + ")";
                        file.write_line(s);
                        m.write(s + C('\n'));
                        c.event("lines_written");
                        switches += !last_write; last_write = true;
                        break;
                    }
                    core::Buffer<C> buf;
                    typename F::string_view_type line;
                    bool found = false;
                    std::error_code ec;
                    log += " read_line";
                    bool rc = file.try_read_line(buf, line, found, ec);
                    auto ctx2 = [&](std::ostream& o) { o << "rc=" << rc << " found=" << found << " line " << show(S(line)) << " ec=" << ec.message() << " "; ctx(o); };
                    auto i = v.text.find(C('\n'));
                    switches += last_write; last_write = false;
                    if (i == v.text.npos && (v.error || v.incomplete)) {
                        if (v.incomplete && dynamic_eof) VF_REQUIRE(rc, "read_line-dynamic-eof", ctx2);
                        else if (!dynamic_eof || !v.early) VF_REQUIRE(!rc && ec == core::TextFileError::invalid_byte_seq, "read_line-error", ctx2);
                        if (!rc) {
                            file.seek(pos_type(typename F::traits_type::off_type(m.pos)));
                            c.event("line_errors");
                            break;
                        }
                    }
                    VF_REQUIRE(rc, "read_line-failed", ctx2);
                    VF_EQ(found, !v.text.empty(), "read_line-found", ctx2);
                    if (found) VF_REQUIRE(S(line) == v.text.substr(0, i), "read_line-text", ctx2);
                    m.read(v, i == v.text.npos ? v.text.size() : i + 1);
                    c.event("lines_read");
                }
                break;
            }
            default:
                if (wide && r.chance(1, 3)) { // unencodable character
                    if constexpr (wide) {
                        S s = some_text<C>(r, m.utf8, 1 + r.size(20));
                        std::size_t k = r.below(s.size());
                        s[k] = random_bad_char(r, m.utf8);
                        log += " write_bad(" + show(s) + ")";
                        std::size_t n = 777;
                        std::error_code ec;
                        bool rc = file.try_write(s, n, ec);
                        auto ctx2 = [&](std::ostream& o) { o << "rc=" << rc << " n=" << n << " ec=" << ec.message() << " "; ctx(o); };
                        if constexpr (is_buffered<F>) {
                            if (rc) VF_EQ(n, s.size(), "bad-write-count", ctx2);
                            else VF_REQUIRE(n >= k && n <= s.size(), "bad-write-n", ctx2);
                            if (rc) rc = file.try_flush(ec);
                            stop = true; // The invalid character remains in the buffer
                        }
                        else {
                            VF_EQ(n, k, "bad-write-count", ctx2);
                        }
                        VF_REQUIRE(!rc && ec == core::TextFileError::invalid_char, "bad-write-verdict", ctx2);
                        m.write(s.substr(0, k));
                        c.event("unencodable_writes");
                        if (stop) {
                            // Everything up to the failure must be flushed
                            std::error_code ec_2;
                            (void)file.try_flush(ec_2);
                            check_content("content-after-bad-flush");
                        }
                        last_write = true;
                    }
                    break;
                }
                if (r.chance(1, 4)) { // reopen
                    if (r.chance(1, 2)) { file.flush(); check_content("content-at-close"); }
                    if (r.chance(1, 2)) { file.close(); VF_REQUIRE(!file.is_open(), "close", ctx); log += " close"; }
                    open();
                    saved.assign(1, 0);
                    c.event("reopens");
                    last_write = false;
                }
                else {
                    log += " unshift";
                    file.unshift();
                    last_write = true;
                }
        }
    }
    if (!stop) {
        file.flush();
        check_content("content-final");
    }
    file.close();
    VF_REQUIRE(!file.is_open(), "close", ctx);
    if (switches > 1) c.nontrivial(vf::Hash().add(log).get());
    c.event("mode_switches", std::uint64_t(switches));
    c.sample([&](std::ostream& o) { o << log.substr(0, 500); });
}

// Loading and saving
template<class F> void load_save(vf::Case& c)
{
    using C = typename F::char_type;
    using S = std::basic_string<C>;
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    std::filesystem::path path = c.tmp_dir + "/f";
    S s = some_text<C>(r, utf8, r.chance(1, 10) ? 4096 - 5 + r.below(20) : r.size(300), !is_windows<F>);
    if (r.chance(1, 2)) F::save(path, s, locale(utf8));
    else { std::error_code ec; VF_REQUIRE(F::try_save(path, s, ec, locale(utf8)), "save-failed", ec.message()); }
    std::string bytes = Model<C>::encode(s, is_windows<F>);
    VF_REQUIRE(slurp(path) == bytes, "save-content", "text " << show(s));
    VF_REQUIRE(F::load(path, locale(utf8)) == s, "load", "text " << show(s));
    S chomped = s;
    if (!chomped.empty() && chomped.back() == C('\n')) chomped.pop_back();
    VF_REQUIRE(F::load_and_chomp(path, locale(utf8)) == chomped, "load_and_chomp", "text " << show(s));
    core::Buffer<C> buf(5);
    std::fill_n(buf.data(), 5, C('\n'));
    std::size_t off = 1 + r.below(4), pre = off;
    std::error_code ec;
    bool chomp = r.chance(1, 2);
    bool rc = chomp ? F::try_load_and_chomp(path, buf, off, ec, locale(utf8)) : F::try_load(path, buf, off, ec, locale(utf8));
    VF_REQUIRE(rc, "try_load-failed", ec.message());
    VF_REQUIRE(S(buf.data() + pre, off - pre) == (chomp ? chomped : s), "try_load", "chomp=" << chomp << " text " << show(s));
    for (std::size_t i = 0; i < pre; ++i) VF_REQUIRE(buf[i] == C('\n'), "try_load-prefix", "");
    // Corrupted
    if (!bytes.empty()) {
        bytes[r.below(bytes.size())] = char(r.below(256));
        spit(path, bytes);
        View<C> v = view<C>(bytes, 0, is_windows<F>, utf8);
        off = 0;
        ec = {};
        rc = F::try_load(path, buf, off, ec, locale(utf8));
        VF_EQ(rc, !(v.error || v.incomplete), "load-corrupt-verdict", "bytes " << show(bytes));
        VF_REQUIRE(S(buf.data(), off) == v.text, "load-corrupt-text", "bytes " << show(bytes));
        if (!rc) c.event("corrupt_loads");
        bool threw = false;
        try { F::load(path, locale(utf8)); } catch (std::filesystem::filesystem_error& e) { threw = true; VF_REQUIRE(e.code() == core::TextFileError::invalid_byte_seq, "load-corrupt-code", e.what()); }
        VF_EQ(threw, !rc, "load-corrupt-throw", "bytes " << show(bytes));
    }
    // Missing
    off = 0;
    ec = {};
    VF_REQUIRE(!F::try_load(std::filesystem::path(c.tmp_dir + "/missing/x"), buf, off, ec, locale(utf8)) && ec == std::errc::no_such_file_or_directory, "load-missing", ec.message());
    // Append
    if (r.chance(1, 3)) {
        spit(path, bytes);
        S t = some_text<C>(r, utf8, r.size(50));
        F file(path, core::File::Mode::append, locale(utf8));
        std::string b = bytes;
        for (std::size_t i = 0; i < t.size(); ) {
            std::size_t n = 1 + r.below(t.size() - i);
            file.write(S(t, i, n));
            i += n;
        }
        file.flush();
        b += Model<C>::encode(t, is_windows<F>);
        VF_REQUIRE(slurp(path) == b, "append", "text " << show(t));
        c.event("appends");
    }
    if (!s.empty()) c.nontrivial(vf::Hash().add(s).get());
    c.event("round_trips");
}

// Writing to a device that runs full: no loss and no duplication when resumed
template<class F> void full_device(vf::Case& c)
{
    using C = typename F::char_type;
    using S = std::basic_string<C>;
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    std::filesystem::path path = c.tmp_dir + "/f";
    spit(path, "");
    F file = make_file<F>(r, utf8, false);
    file.open(path, core::File::Mode::update);
    S all = some_text<C>(r, utf8, 1 + r.size(80));
    std::string bytes = Model<C>::encode(all, is_windows<F>);
    std::signal(SIGXFSZ, SIG_IGN);
    rlimit orig;
    getrlimit(RLIMIT_FSIZE, &orig);
    struct Restore { rlimit o; ~Restore() { setrlimit(RLIMIT_FSIZE, &o); } } restore { orig };
    auto limit = [&](std::size_t n) { rlimit l = orig; if (l.rlim_max == RLIM_INFINITY || n <= l.rlim_max) l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); };
    std::string log;
    std::size_t faults = 0;
    std::size_t lim = r.below(bytes.size() + 1);
    limit(lim);
    log += "limit " + std::to_string(lim);
    auto ctx = [&](std::ostream& o) { o << "windows=" << is_windows<F> << " utf8=" << utf8 << " text " << show(all) << " " << log; };
    auto raise = [&] {
        VF_REQUIRE(++faults <= bytes.size() + 5, "fault-no-progress", ctx);
        // Only what was written may be there, and always as a prefix
        std::string got = slurp(path);
        VF_REQUIRE(got.size() <= lim && bytes.compare(0, got.size(), got) == 0, "fault-prefix", "got " << show(got) << " " << ctx);
        lim = faults > 4 ? bytes.size() + 10 : std::min(bytes.size() + 10, lim + r.below(bytes.size() + 1));
        limit(lim);
        log += " limit " + std::to_string(lim);
    };
    std::size_t i = 0;
    while (i < all.size()) {
        std::size_t want = 1 + r.below(all.size() - i), n = 777777;
        std::error_code ec;
        S s(all, i, want);
        bool rc = file.try_write(s, n, ec);
        log += " write " + std::to_string(want) + "->" + std::to_string(rc) + "/" + std::to_string(n);
        if (rc) VF_EQ(n, want, "fault-write-count", ctx);
        else VF_REQUIRE(n < want, "fault-failed-write-count", ctx);
        i += n;
        if (!rc) {
            VF_REQUIRE(bool(ec), "fault-no-code", ctx);
            c.event("write_faults");
            raise();
        }
    }
    for (;;) {
        std::error_code ec;
        if (file.try_flush(ec)) break;
        log += " flush-failed";
        c.event("flush_faults");
        raise();
    }
    limit(bytes.size() + 100);
    std::string got = slurp(path);
    VF_REQUIRE(got == bytes, "fault-content", "got " << show(got) << " expected " << show(bytes) << " " << ctx);
    if (faults > 0) c.nontrivial(vf::Hash().add(log).get());
    c.sample([&](std::ostream& o) { o << log; });
}

// Reading from a file while it grows
template<class F> void growing(vf::Case& c)
{
    using C = typename F::char_type;
    using S = std::basic_string<C>;
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    std::filesystem::path path = c.tmp_dir + "/f";
    spit(path, "");
    F file = make_file<F>(r, utf8, true);
    file.open(path);
    S all = some_text<C>(r, utf8, 1 + r.size(60), !is_windows<F>);
    all += C('x');
    std::string bytes = Model<C>::encode(all, is_windows<F>);
    std::ofstream out(path, std::ios::binary | std::ios::app);
    S got;
    std::size_t i = 0;
    int rounds = 0;
    std::string log;
    while (i < bytes.size()) {
        std::size_t n = 1 + r.below(std::min<std::size_t>(bytes.size() - i, r.pick({ 1, 3, 20 })));
        out.write(bytes.data() + i, std::streamsize(n));
        out.flush();
        i += n;
        log += " +" + std::to_string(n);
        View<C> v = view<C>(bytes.substr(0, i), 0, is_windows<F>, utf8, true);
        if (r.chance(1, 2)) {
            got += file.read_all();
        }
        else {
            for (;;) {
                std::vector<C> buf(1 + r.below(10));
                std::size_t k = r.chance(1, 2) ? file.read(core::Span<C>(buf.data(), buf.size())) : file.read_some(core::Span<C>(buf.data(), buf.size()));
                if (k == 0) break;
                got.append(buf.data(), k);
            }
        }
        VF_REQUIRE(got == v.text, "growing-text", "windows=" << is_windows<F> << " utf8=" << utf8 << " text " << show(all) << log << " got " << show(got));
        ++rounds;
    }
    VF_REQUIRE(got == all, "growing-final", "text " << show(all) << log << " got " << show(got));
    c.event("growth_steps", std::uint64_t(rounds));
    if (rounds > 2) c.nontrivial(vf::Hash().add(all).add(log).get());
}

} // namespace c10
