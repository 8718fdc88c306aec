// C09: character codecs and newline codec, step by step
#include <archon/core/char_codec.hpp>
#include <archon/core/newline_codec.hpp>
#include "model.hpp"

using namespace archon;
using namespace c09;

namespace {

template<class D> D make(const std::locale& loc, bool lenient, bool fallback)
{
    if constexpr (requires (typename D::Config c) { c.lenient; }) {
        typename D::Config config;
        config.lenient = lenient;
        config.use_fallback_replacement_char = fallback;
        return D(loc, config);
    }
    else {
        return D(loc);
    }
}

// Strict decoding of wide characters in random pieces on exactly sized buffers
template<class D> void strict_decode(vf::Case& c)
{
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    D codec = make<D>(locale(utf8), false, r.chance(1, 2));
    if (r.chance(1, 4)) {
        D other = make<D>(locale(!utf8), false, false);
        other.imbue(locale(utf8));
        codec = std::move(other);
        c.event("imbues");
    }
    std::string all = random_bytes(r, utf8, r.size(60), r.chance(1, 2));
    std::mbstate_t state {};
    std::wstring got;
    std::size_t base = 0; // all consumed so far
    std::size_t avail = 0;
    int steps = 0;
    for (;;) {
        VF_REQUIRE(++steps < 2000, "decode-no-progress", "data " << show(all));
        // Choose how much data to present
        if (avail < all.size() && r.chance(2, 3))
            avail += 1 + r.below(std::min<std::size_t>(all.size() - avail, 1 + r.size(20)));
        bool end = (avail == all.size() && r.chance(1, 2));
        // Present [lo, avail) with data_offset leading to `base`
        std::size_t lo = r.chance(1, 2) ? base : r.below(base + 1);
        std::vector<char> data(all.begin() + std::ptrdiff_t(lo), all.begin() + std::ptrdiff_t(avail));
        std::size_t pre = r.below(3);
        std::size_t space = r.size(12);
        std::vector<wchar_t> buf(pre + space, wchar_t(0x5A5A));
        std::size_t data_offset = base - lo, buffer_offset = pre;
        bool error = false;
        bool rc = codec.decode(state, core::Span<const char>(data.data(), data.size()), data_offset, end,
                               core::Span<wchar_t>(buf.data(), buf.size()), buffer_offset, error);
        Decoded m = decode(utf8, all.substr(base, avail - base));
        std::size_t n = std::min(space, m.text.size());
        auto ctx = [&](std::ostream& o) {
            o << "utf8=" << utf8 << " data " << show(all.substr(base, avail - base)) << " end=" << end << " space=" << space
              << " rc=" << rc << " error=" << error << " consumed=" << (data_offset - (base - lo)) << " produced=" << (buffer_offset - pre);
        };
        VF_EQ(buffer_offset, pre + n, "decode-produced", ctx);
        for (std::size_t i = 0; i < pre; ++i)
            VF_REQUIRE(buf[i] == wchar_t(0x5A5A), "decode-clobbered-prefix", ctx);
        VF_REQUIRE(std::equal(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(pre + n), m.text.begin()), "decode-chars", ctx);
        std::size_t cons = n == 0 ? 0 : m.bounds[n - 1];
        VF_EQ(data_offset, base - lo + cons, "decode-consumed", ctx);
        bool all_decoded = (n == m.text.size());
        if (!all_decoded) {
            VF_REQUIRE(!rc && !error, "decode-verdict-full", ctx);
            c.event("buffer_full_stops");
        }
        else if (m.status == ok) {
            VF_REQUIRE(rc, "decode-verdict-complete", ctx);
        }
        else {
            bool full = (n == space);
            bool expect_incomplete = (m.status == incomplete && !end);
            if (expect_incomplete) {
                // With a full buffer, either verdict is admissible
                VF_REQUIRE(rc || (full && !error), "decode-verdict-incomplete", ctx);
                c.event("incomplete_stops");
            }
            else if (m.early && !end) {
                VF_REQUIRE(rc || error || full, "decode-verdict-early", ctx);
            }
            else {
                VF_REQUIRE(!rc, "decode-verdict-error", ctx);
                VF_REQUIRE(error || full, "decode-error-flag", ctx);
                if (error) {
                    c.event("errors_detected");
                    c.nontrivial(vf::Hash().add(all).get());
                    break;
                }
            }
            if (error) // early detection
                break;
        }
        got.append(m.text, 0, n);
        base += cons;
        if (end && rc) {
            c.event("streams_completed");
            VF_EQ(base, all.size(), "decode-complete-consumed", ctx);
            break;
        }
        if (steps > 300 && !rc && space == 0)
            continue;
    }
    c.event("decode_steps", std::uint64_t(steps));
    if (steps > 2)
        c.nontrivial(vf::Hash().add(all).add(steps).get());
    c.sample([&](std::ostream& o) { o << "strict decode utf8=" << utf8 << " of " << show(all) << " in " << steps << " steps"; });
}

VF_MONITOR(char_codec_strict_decode, 100000, 2000000) { strict_decode<core::WideCharCodec>(c); }
VF_MONITOR(simple_char_codec_decode, 40000, 750000) { strict_decode<core::WideSimpleCharCodec>(c); }

// Lenient decoding
VF_MONITOR(char_codec_lenient_decode, 50000, 1000000)
{
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    bool fallback = r.chance(1, 2);
    auto codec = make<core::WideCharCodec>(locale(utf8), true, fallback);
    wchar_t repl = utf8 && !fallback ? wchar_t(0xFFFD) : L'?';
    std::string all = random_bytes(r, utf8, r.size(60), r.chance(5, 6));
    auto run = [&](bool chunked) {
        std::mbstate_t state {};
        std::wstring got;
        std::size_t base = 0, avail = chunked ? 0 : all.size();
        int steps = 0;
        for (;;) {
            VF_REQUIRE(++steps < 3000, "lenient-no-progress", "data " << show(all) << " chunked=" << chunked);
            if (avail < all.size() && r.chance(2, 3))
                avail += 1 + r.below(std::min<std::size_t>(all.size() - avail, 1 + r.size(20)));
            bool end = (avail == all.size() && (!chunked || r.chance(1, 2)));
            std::vector<char> data(all.begin() + std::ptrdiff_t(base), all.begin() + std::ptrdiff_t(avail));
            std::size_t pre = chunked ? r.below(3) : 0;
            std::size_t space = chunked ? r.size(12) : all.size() + 5;
            std::vector<wchar_t> buf(pre + space);
            std::size_t data_offset = 0, buffer_offset = pre;
            bool error = false;
            bool rc = codec.decode(state, core::Span<const char>(data.data(), data.size()), data_offset, end,
                                   core::Span<wchar_t>(buf.data(), buf.size()), buffer_offset, error);
            auto ctx = [&](std::ostream& o) {
                o << "utf8=" << utf8 << " data " << show(std::string(data.begin(), data.end())) << " end=" << end << " space=" << space
                  << " rc=" << rc << " error=" << error << " consumed=" << data_offset << " produced=" << buffer_offset - pre;
            };
            VF_REQUIRE(!error, "lenient-error", ctx);
            VF_REQUIRE(data_offset <= data.size() && buffer_offset >= pre && buffer_offset <= buf.size(), "lenient-offsets", ctx);
            VF_REQUIRE(rc || buffer_offset == buf.size(), "lenient-false-without-full-buffer", ctx);
            got.append(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(buffer_offset));
            base += data_offset;
            if (rc && end) {
                VF_EQ(base, all.size(), "lenient-consumed-all", ctx);
                break;
            }
        }
        c.event("lenient_steps", std::uint64_t(steps));
        return got;
    };
    std::wstring one = run(false);
    VF_REQUIRE(lenient_ok(utf8, all, one, repl), "lenient-content", "utf8=" << utf8 << " data " << show(all) << " gave " << show(one));
    std::wstring chunked = run(true);
    VF_REQUIRE(lenient_ok(utf8, all, chunked, repl), "lenient-content-chunked", "utf8=" << utf8 << " data " << show(all) << " gave " << show(chunked));
    VF_REQUIRE(one == chunked, "lenient-chunking", "utf8=" << utf8 << " data " << show(all) << " one-shot " << show(one) << " chunked " << show(chunked));
    Decoded m = decode(utf8, all);
    if (m.status == ok)
        VF_REQUIRE(one == m.text, "lenient-valid", "data " << show(all));
    else
        c.nontrivial(vf::Hash().add(all).get());
}

// Encoding, strict and lenient
template<class D> void encode_steps(vf::Case& c)
{
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    constexpr bool can_be_lenient = requires (typename D::Config x) { x.lenient; };
    bool lenient = can_be_lenient && r.chance(1, 2);
    bool fallback = r.chance(1, 2);
    D codec = make<D>(locale(utf8), lenient, fallback);
    std::string repl = utf8 && !fallback ? "\xEF\xBF\xBD" : "?";
    std::wstring all = random_text(r, utf8, r.size(30));
    if (r.chance(1, 2) && !all.empty()) {
        for (std::size_t k = 1 + r.below(3); k > 0; --k)
            all[r.below(all.size())] = random_bad_char(r, utf8);
    }
    std::mbstate_t state {};
    std::size_t base = 0;
    std::string got;
    int steps = 0;
    bool failed = false;
    while (!failed) {
        VF_REQUIRE(++steps < 2000, "encode-no-progress", "data " << show(all));
        std::size_t n = base == all.size() ? 0 : r.below(all.size() - base + 1);
        std::vector<wchar_t> data(all.begin(), all.begin() + std::ptrdiff_t(base + n));
        std::size_t pre = r.below(3), space = r.size(14);
        std::vector<char> buf(pre + space, char(0x5A));
        std::size_t data_offset = base, buffer_offset = pre;
        bool error = false;
        bool rc = codec.encode(state, core::Span<const wchar_t>(data.data(), data.size()), data_offset,
                               core::Span<char>(buf.data(), buf.size()), buffer_offset, error);
        // Expected
        std::string ex;
        std::size_t i = base;
        bool bad_stop = false;
        bool full_stop = false;
        for (; i < data.size(); ++i) {
            bool can = can_encode(utf8, data[i]);
            if (!can && !lenient) { bad_stop = true; break; }
            std::string e = can ? enc(data[i]) : repl;
            if (ex.size() + e.size() > space) { full_stop = true; break; }
            ex += e;
        }
        auto ctx = [&](std::ostream& o) {
            o << "utf8=" << utf8 << " lenient=" << lenient << " fallback=" << fallback << " data " << show(std::wstring(data.begin() + std::ptrdiff_t(base), data.end()))
              << " space=" << space << " rc=" << rc << " error=" << error << " consumed=" << data_offset - base << " produced=" << buffer_offset - pre << " expected " << show(ex);
        };
        VF_EQ(data_offset, i, "encode-consumed", ctx);
        VF_EQ(buffer_offset, pre + ex.size(), "encode-produced", ctx);
        VF_REQUIRE(std::string(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(buffer_offset)) == ex, "encode-bytes", ctx);
        for (std::size_t k = 0; k < pre; ++k)
            VF_REQUIRE(buf[k] == char(0x5A), "encode-clobbered-prefix", ctx);
        if (bad_stop) {
            VF_REQUIRE(!rc, "encode-verdict-error", ctx);
            bool full = ex.size() == space;
            VF_REQUIRE(error || full || space - ex.size() < 7, "encode-error-flag", ctx);
            if (error) failed = true;
            c.event("unencodable_detected");
        }
        else if (full_stop) {
            VF_REQUIRE(!rc && !error, "encode-verdict-full", ctx);
            c.event("encode_full_stops");
        }
        else {
            VF_REQUIRE(rc, "encode-verdict-complete", ctx);
        }
        got += ex;
        base = i;
        if (rc && base == all.size())
            break;
    }
    if (!failed) {
        std::vector<char> buf(r.below(4));
        std::size_t off = 0;
        VF_REQUIRE(codec.unshift(state, core::Span<char>(buf.data(), buf.size()), off), "unshift", "stateless encoding needs no bytes");
        VF_EQ(off, 0u, "unshift-bytes", "stateless encoding");
        // Round trip
        if (!lenient) {
            Decoded m = decode(utf8, got);
            VF_REQUIRE(m.status == ok && m.text == all, "encode-round-trip", "data " << show(all) << " gave " << show(got));
        }
    }
    c.event("encode_steps", std::uint64_t(steps));
    if (all.size() > 0)
        c.nontrivial(vf::Hash().add(all).add(steps).get());
}

VF_MONITOR(char_codec_encode, 100000, 2000000) { encode_steps<core::WideCharCodec>(c); }
VF_MONITOR(simple_char_codec_encode, 40000, 750000) { encode_steps<core::WideSimpleCharCodec>(c); }

// Simulated decoding
VF_MONITOR(char_codec_simul_decode, 50000, 1000000)
{
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    auto codec = make<core::WideCharCodec>(locale(utf8), r.chance(1, 2), false);
    std::wstring text = random_text(r, utf8, r.size(60));
    std::string bytes = encode_all(text);
    std::vector<std::size_t> bounds(1, 0);
    for (wchar_t ch : text) bounds.push_back(bounds.back() + enc(ch).size());
    std::size_t a = r.below(text.size() + 1), b = a + r.below(text.size() - a + 1);
    std::string tail = r.chance(1, 2) ? "" : random_bytes(r, utf8, 3, true); // garbage beyond
    std::string d = bytes + tail;
    std::vector<char> data(d.begin(), d.end());
    std::mbstate_t state {};
    std::size_t off = bounds[a];
    codec.simul_decode(state, core::Span<const char>(data.data(), data.size()), off, b - a);
    VF_EQ(off, bounds[b], "simul-decode", "utf8=" << utf8 << " text " << show(text) << " from " << a << " chars " << b - a);
    if (b > a)
        c.nontrivial(vf::Hash().add(bytes).add(a).add(b).get());
    c.event("simulated_chars", b - a);
}

// Degenerate codec
VF_MONITOR(narrow_char_codec, 15000, 250000)
{
    auto& r = c.rng;
    core::CharCodec::Config config;
    config.lenient = r.chance(1, 2);
    core::CharCodec codec(locale(r.chance(1, 2)), config);
    std::string s;
    for (std::size_t n = r.size(30); n > 0; --n) s += char(r.below(256));
    for (int mode = 0; mode < 2; ++mode) {
        std::vector<char> data(s.begin(), s.end());
        std::size_t off = r.below(s.size() + 1), pre = r.below(3), space = r.size(30);
        std::vector<char> buf(pre + space);
        std::size_t i = off, j = pre;
        std::mbstate_t state {};
        bool error = false;
        bool end = r.chance(1, 2);
        core::Span<const char> ds(data.data(), data.size());
        core::Span<char> bs(buf.data(), buf.size());
        bool rc = mode == 0 ? codec.decode(state, ds, i, end, bs, j, error) : codec.encode(state, ds, i, bs, j, error);
        std::size_t n = std::min(s.size() - off, space);
        VF_REQUIRE(!(error && !rc), "narrow-error", "mode " << mode);
        VF_EQ(i, off + n, "narrow-consumed", "mode " << mode);
        VF_EQ(j, pre + n, "narrow-produced", "mode " << mode);
        VF_EQ(rc, n == s.size() - off, "narrow-verdict", "mode " << mode);
        VF_REQUIRE(std::equal(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(j), s.begin() + std::ptrdiff_t(off)), "narrow-bytes", "mode " << mode);
    }
    std::mbstate_t state {};
    std::size_t off = r.below(s.size() + 1), n = r.below(s.size() - off + 1), o2 = off;
    codec.simul_decode(state, core::Span<const char>(s.data(), s.size()), o2, n);
    VF_EQ(o2, off + n, "narrow-simul", "");
    c.event("narrow_steps", 2);
    if (!s.empty()) c.nontrivial(vf::Hash().add(s).get());
}

std::string random_nl(vf::Rng& r, std::size_t n)
{
    std::string s;
    while (s.size() < n)
        s += r.pick({ "\r\n", "\r", "\n", "a", "b", "\r\r\n", "\n\r", "\0x" });
    return s;
}

VF_MONITOR(newline_codec, 100000, 2000000)
{
    auto& r = c.rng;
    std::string all = random_nl(r, r.size(30));
    std::string want = nl_decode(all);
    // Incremental decoding
    {
        std::string got;
        std::size_t base = 0, avail = 0;
        int steps = 0;
        for (;;) {
            VF_REQUIRE(++steps < 2000, "nl-decode-no-progress", "data " << show(all));
            if (avail < all.size())
                avail += r.below(all.size() - avail + 1);
            bool end = avail == all.size() && r.chance(1, 2);
            std::vector<char> data(all.begin(), all.begin() + std::ptrdiff_t(avail));
            std::size_t pre = r.below(3), space = r.size(8), i = base, j = pre;
            std::vector<char> buf(pre + space, 'Z');
            std::size_t clear_offset = r.below(100), clear = 777777, clear_0 = clear;
            core::newline_codec::decode(core::Span<const char>(data.data(), data.size()), i, end, core::Span<char>(buf.data(), buf.size()), j, clear_offset, clear);
            // Model
            std::size_t mi = base, mj = 0, mclear = clear_0;
            std::string out;
            while (mi < data.size() && mj < space) {
                if (data[mi] == '\r' && mi + 1 == data.size() && !end) break;
                if (data[mi] == '\r' && mi + 1 < data.size() && data[mi + 1] == '\n') {
                    out += '\n'; mi += 2; ++mj; mclear = clear_offset + pre + mj;
                }
                else { out += data[mi]; ++mi; ++mj; }
            }
            auto ctx = [&](std::ostream& o) { o << "data " << show(std::string(data.begin() + std::ptrdiff_t(base), data.end())) << " space " << space << " end " << end; };
            VF_EQ(i, mi, "nl-decode-consumed", ctx);
            VF_EQ(j, pre + mj, "nl-decode-produced", ctx);
            VF_EQ(clear, mclear, "nl-decode-clear", ctx);
            VF_REQUIRE(std::string(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(j)) == out, "nl-decode-bytes", ctx);
            VF_REQUIRE(std::all_of(buf.begin(), buf.begin() + std::ptrdiff_t(pre), [](char x) { return x == 'Z'; }), "nl-decode-clobber", ctx);
            got += out;
            base = mi;
            if (end && base == all.size()) break;
        }
        VF_REQUIRE(got == want, "nl-decode-whole", "data " << show(all));
        c.event("newline_decode_steps", std::uint64_t(steps));
    }
    // Incremental encoding
    {
        std::string enc = nl_encode(all), got;
        std::size_t base = 0;
        int steps = 0;
        while (base < all.size()) {
            VF_REQUIRE(++steps < 2000, "nl-encode-no-progress", "data " << show(all));
            std::size_t avail = base + r.below(all.size() - base + 1);
            std::vector<char> data(all.begin(), all.begin() + std::ptrdiff_t(avail));
            std::size_t pre = r.below(3), space = r.size(8), i = base, j = pre;
            std::vector<char> buf(pre + space);
            core::newline_codec::encode(core::Span<const char>(data.data(), data.size()), i, core::Span<char>(buf.data(), buf.size()), j);
            std::string out;
            std::size_t mi = base;
            for (; mi < avail; ++mi) {
                std::string e = data[mi] == '\n' ? "\r\n" : std::string(1, data[mi]);
                if (out.size() + e.size() > space) break;
                out += e;
            }
            VF_EQ(i, mi, "nl-encode-consumed", "data " << show(all) << " space " << space);
            VF_REQUIRE(std::string(buf.begin() + std::ptrdiff_t(pre), buf.begin() + std::ptrdiff_t(j)) == out, "nl-encode-bytes", "data " << show(all) << " space " << space);
            got += out;
            base = mi;
        }
        VF_REQUIRE(got == enc, "nl-encode-whole", "data " << show(all));
        // Round trip (text without CR)
        std::string t;
        for (char ch : all) if (ch != '\r') t += ch;
        VF_REQUIRE(nl_decode(nl_encode(t)) == t, "nl-model", "");
        c.event("newline_encode_steps", std::uint64_t(steps));
    }
    // Simulated decoding
    {
        std::size_t off = r.below(all.size() + 1), i = off, n = r.below(all.size() + 3);
        std::vector<char> data(all.begin(), all.end());
        bool rc = core::newline_codec::simul_decode(core::Span<const char>(data.data(), data.size()), i, n);
        std::size_t total = nl_decode(all.substr(off)).size();
        VF_EQ(rc, n <= total, "nl-simul-verdict", "data " << show(all.substr(off)) << " n " << n);
        std::size_t mi = off;
        if (rc) {
            for (std::size_t k = 0; k < n; ++k)
                mi += (all[mi] == '\r' && mi + 1 < all.size() && all[mi + 1] == '\n') ? 2 : 1;
        }
        VF_EQ(i, mi, "nl-simul-offset", "data " << show(all.substr(off)) << " n " << n);
    }
    if (want != all)
        c.nontrivial(vf::Hash().add(all).get());
}

} // namespace
