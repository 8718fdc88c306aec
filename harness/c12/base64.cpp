#include <cstring>
#include <functional>
#include <locale>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <archon/core/base64.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include "../../lib/vf.hpp"

using namespace archon;
namespace base64 = core::base64;

namespace {

// Reference implementation (RFC 4648)

std::string alphabet(bool url) { return std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/"); }

std::string ref_encode(const std::string& data, base64::EncodeConfig cfg)
{
    std::string alpha = alphabet(cfg.url_safe_variant), s;
    std::vector<int> bits;
    for (char ch : data)
        for (int i = 7; i >= 0; --i) bits.push_back(((unsigned char)(ch) >> i) & 1);
    while (bits.size() % 6 != 0) bits.push_back(0);
    for (std::size_t i = 0; i < bits.size(); i += 6) {
        int v = 0;
        for (int j = 0; j < 6; ++j) v = v * 2 + bits[i + j];
        s += alpha[v];
    }
    if (cfg.use_padding) while (s.size() % 4 != 0) s += '=';
    if (cfg.line_size > 0) {
        std::string t;
        for (std::size_t i = 0; i < s.size(); i += cfg.line_size) t += s.substr(i, cfg.line_size) + "\n";
        s = t;
    }
    return s;
}

std::optional<std::string> ref_decode(const std::string& str, base64::DecodeConfig cfg)
{
    std::string alpha = alphabet(cfg.url_safe_variant), s;
    for (char ch : str) {
        if (ch == ' ' || ch == '\t' || ch == '\n') { if (!cfg.allow_whitespace) return {}; }
        else s += ch;
    }
    std::size_t n = s.size(), pad = 0;
    while (n > 0 && s[n - 1] == '=') { --n; ++pad; }
    if (pad > 0 && (cfg.padding == base64::DecodeConfig::reject || (n + pad) % 4 != 0 || pad > 2)) return {};
    if (n % 4 == 1) return {};
    if (n % 4 != 0 && pad == 0 && cfg.padding == base64::DecodeConfig::require) return {};
    std::vector<int> bits;
    for (std::size_t i = 0; i < n; ++i) {
        auto v = (s[i] == '\0' ? std::string::npos : alpha.find(s[i]));
        if (v == std::string::npos) return {};
        for (int j = 5; j >= 0; --j) bits.push_back((v >> j) & 1);
    }
    std::string out;
    std::size_t i = 0;
    for (; i + 8 <= bits.size(); i += 8) {
        int v = 0;
        for (int j = 0; j < 8; ++j) v = v * 2 + bits[i + j];
        out += char(v);
    }
    for (; i < bits.size(); ++i) if (bits[i]) return {}; // Excess bits must be zero
    return out;
}

std::string some_data(vf::Rng& r, std::size_t n)
{
    std::string s(n, '\0');
    bool high = r.chance(1, 3);
    for (char& c : s) c = char(high ? 0xF0 + r.below(16) : r.below(256));
    return s;
}

std::wstring widen(const std::string& s) { return std::wstring(s.begin(), s.end()); }
std::string narrow(std::wstring_view s)
{
    std::string t;
    for (wchar_t ch : s) t += (ch >= 0 && ch < 128 ? char(ch) : '?');
    return t;
}

base64::EncodeConfig random_encode_config(vf::Rng& r)
{
    base64::EncodeConfig cfg;
    cfg.url_safe_variant = r.chance(1, 2);
    cfg.use_padding = r.chance(1, 2);
    cfg.line_size = (r.chance(1, 2) ? 0 : 1 + r.size(90));
    return cfg;
}
base64::DecodeConfig random_decode_config(vf::Rng& r)
{
    base64::DecodeConfig cfg;
    cfg.url_safe_variant = r.chance(1, 2);
    cfg.padding = base64::DecodeConfig::Padding(r.below(3));
    cfg.allow_whitespace = r.chance(1, 2);
    return cfg;
}
void show_cfg(std::ostream& o, base64::EncodeConfig c) { o << "url=" << c.url_safe_variant << " pad=" << c.use_padding << " line=" << c.line_size << " "; }
void show_cfg(std::ostream& o, base64::DecodeConfig c) { o << "url=" << c.url_safe_variant << " pad=" << int(c.padding) << " ws=" << c.allow_whitespace << " "; }

// A copy that ends exactly at the end of its allocation, such that any access beyond it is detected
struct Exact {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    operator core::Span<const char>() const { return core::Span<const char>(p.get(), n); }
    std::string_view view() const { return { p.get(), n }; }
};

// Runs an incremental codec with random division of the input and the output. Returns whether it completed, or ran
// into bad input.
template<class X> bool incremental(vf::Rng& r, X&& step, const std::string& in, std::string& out, std::string& log, std::size_t& consumed)
{
    std::size_t i = 0;
    int mode = int(r.below(4)); // Tiny chunks, random chunks, all at once
    std::size_t idle = 0;
    for (;;) {
        std::size_t left = in.size() - i;
        std::size_t m = (mode == 0 ? std::min<std::size_t>(left, r.below(3)) : mode == 1 ? left : std::min(left, r.size(20)));
        bool eoi = (m == left && (mode == 1 || r.chance(1, 2)));
        std::size_t k = (mode == 0 ? r.below(3) : mode == 1 ? r.size(300) : r.size(20));
        Exact chunk(in.substr(i, m));
        std::unique_ptr<char[]> buf(new char[k]);
        const char* db = chunk.p.get();
        char* bb = buf.get();
        bool done = step(db, chunk.p.get() + m, eoi, bb, buf.get() + k);
        std::size_t used = std::size_t(db - chunk.p.get()), made = std::size_t(bb - buf.get());
        log += std::to_string(m) + (eoi ? "e/" : "/") + std::to_string(k) + "->" + std::to_string(used) + "/" + std::to_string(made) + (done ? "! " : " ");
        VF_REQUIRE(used <= m && made <= k, "incremental-range", log);
        i += used;
        out.append(buf.get(), made);
        consumed = i;
        if (done) {
            VF_REQUIRE(eoi && used == m, "incremental-done-early", log);
            return true;
        }
        if (used < m && made < k) return false; // Neither input nor space ran out
        if (eoi && used == m && made < k) return false; // Premature end of input
        if (used == 0 && made == 0) ++idle; else idle = 0;
        VF_REQUIRE(idle < 2000, "incremental-stuck", log);
    }
}

} // unnamed namespace

VF_MONITOR(encode, 20000, 250000)
{
    auto& r = c.rng;
    std::string data = some_data(r, r.chance(1, 30) ? r.size(2000) : r.size(80));
    auto cfg = random_encode_config(r);
    std::string expected = ref_encode(data, cfg);
    auto ctx = [&](std::ostream& o) { show_cfg(o, cfg); o << vf::hex(data); };
    VF_EQ(base64::encode_buffer_size(data.size(), cfg), expected.size(), "encode-buffer-size", ctx);
    Exact in(data);
    switch (r.below(6)) {
        case 0: {
            core::Buffer<char> buf(r.chance(1, 2) ? 0 : r.size(100));
            VF_EQ(std::string(r.chance(1, 2) ? base64::encode(in, buf, cfg) : base64::encode(in, buf, std::locale::classic(), cfg)), expected, "encode", ctx);
            break;
        }
        case 1: {
            core::Buffer<wchar_t> buf(r.chance(1, 2) ? 0 : r.size(100));
            VF_EQ(narrow(r.chance(1, 2) ? base64::encode(in, buf, cfg) : base64::encode(in, buf, std::locale::classic(), cfg)), expected, "encode-wide", ctx);
            break;
        }
        case 2: {
            base64::BasicEncoder<char> enc(cfg);
            core::Buffer<char> buf;
            for (int i = 0; i < 3; ++i) VF_EQ(std::string(enc.encode(in, buf)), expected, "encode-object", ctx);
            base64::BasicEncoder<wchar_t> wenc(std::locale::classic(), cfg);
            core::Buffer<wchar_t> wbuf;
            for (int i = 0; i < 2; ++i) VF_EQ(narrow(wenc.encode(in, wbuf)), expected, "encode-object-wide", ctx);
            break;
        }
        case 3: {
            std::size_t k = (r.chance(1, 2) ? expected.size() : r.below(expected.size() + 3));
            std::unique_ptr<char[]> out(new char[k]);
            std::size_t size = 777777;
            bool insufficient = (r.chance(1, 2)), orig = insufficient;
            bool ok = base64::encode(in, core::Span<char>(out.get(), k), size, insufficient, cfg);
            VF_EQ(ok, k >= expected.size(), "encode-span-outcome", ctx);
            if (ok) {
                VF_EQ(size, expected.size(), "encode-span-size", ctx);
                VF_EQ(std::string(out.get(), size), expected, "encode-span", ctx);
                VF_EQ(insufficient, orig, "encode-span-flag-touched", ctx);
            }
            else {
                VF_REQUIRE(insufficient && size == 777777, "encode-span-failure", ctx);
                c.event("insufficient");
            }
            break;
        }
        default: {
            base64::IncrementalEncoder enc(cfg);
            std::string out, log;
            std::size_t used = 0;
            auto ctx_2 = [&](std::ostream& o) { ctx(o); o << " " << log; };
            bool ok = incremental(r, [&](auto&&... a) { return enc.encode(a...); }, data, out, log, used);
            VF_REQUIRE(ok, "encode-incremental-fail", ctx_2);
            VF_EQ(out, expected, "encode-incremental", ctx_2);
            c.event("incremental");
        }
    }
    c.event("bytes", data.size());
    c.nontrivial(vf::Hash().add(data.size()).add(cfg.line_size).add(cfg.use_padding).add(cfg.url_safe_variant).get());
}

VF_MONITOR(decode, 40000, 500000)
{
    auto& r = c.rng;
    auto cfg = random_decode_config(r);
    std::string str;
    std::string data;
    bool pristine = r.chance(1, 3);
    if (r.chance(1, 4)) {
        static const char chars[] = "AQgw+/-_= \n\tz9!\0\r\x80";
        std::size_t n = r.size(12);
        for (std::size_t i = 0; i < n; ++i) str += chars[r.chance(2, 3) ? r.below(9) : r.below(sizeof chars - 1)];
    }
    else {
        base64::EncodeConfig ec;
        ec.url_safe_variant = (r.chance(1, 8) ? !cfg.url_safe_variant : cfg.url_safe_variant);
        ec.use_padding = (r.chance(1, 6) ? r.chance(1, 2) : cfg.padding == base64::DecodeConfig::require || (cfg.padding == base64::DecodeConfig::allow && r.chance(1, 2)));
        ec.line_size = (cfg.allow_whitespace && r.chance(1, 2) ? 1 + r.size(80) : 0);
        data = some_data(r, r.chance(1, 30) ? r.size(2000) : r.size(80));
        str = ref_encode(data, ec);
        std::size_t edits = (pristine ? 0 : r.below(3));
        for (std::size_t i = 0; i < edits; ++i) {
            static const char chars[] = "A=+/-_ \n\t!\0\r\xFF";
            std::size_t p = r.chance(1, 2) ? str.size() - std::min(str.size(), r.below(5)) : r.below(str.size() + 1);
            switch (r.below(4)) {
                case 0: str.insert(p, 1, chars[r.below(sizeof chars - 1)]); break;
                case 1: if (p < str.size()) str.erase(p, 1); break;
                case 2: if (p < str.size()) str[p] = chars[r.below(sizeof chars - 1)]; break;
                case 3: str.resize(p); break;
            }
        }
    }
    auto expected = ref_decode(str, cfg);
    std::string log;
    auto ctx = [&](std::ostream& o) { show_cfg(o, cfg); o << vf::show(str) << " " << log; };
    auto judge = [&](bool ok, const std::string& got, const char* key) {
        VF_EQ(ok, bool(expected), key, ctx);
        if (ok) VF_EQ(vf::hex(got), vf::hex(*expected), key, ctx);
    };
    Exact in(str);
    std::size_t max_size = base64::decode_buffer_size(str.size());
    VF_REQUIRE(!expected || expected->size() <= max_size, "decode-buffer-size", ctx);
    VF_REQUIRE(max_size <= str.size(), "decode-buffer-size", ctx);
    int how = int(r.below(6));
    bool has_high = false;
    for (char ch : str) has_high = has_high || (unsigned char)(ch) >= 128;
    if (how == 0) {
        core::Buffer<char> buf(r.chance(1, 2) ? 0 : r.size(100));
        bool ok = false;
        std::string got;
        try {
            auto res = (r.chance(1, 2) ? base64::decode(in.view(), buf, cfg) : base64::decode(in.view(), buf, std::locale::classic(), cfg));
            got.assign(res.data(), res.size());
            ok = true;
        }
        catch (std::exception&) {}
        judge(ok, got, "decode");
    }
    else if (how == 1) {
        std::wstring wide = widen(str);
        for (wchar_t& ch : wide) if (ch < 0 || ch > 127) ch = wchar_t(0x100 + 'A'); // Not a valid character either
        core::Buffer<char> buf(r.chance(1, 2) ? 0 : r.size(100));
        bool ok = false;
        std::string got;
        try {
            auto view = std::wstring_view(wide);
            auto res = (r.chance(1, 2) ? base64::decode(view, buf, cfg) : base64::decode(view, buf, std::locale::classic(), cfg));
            got.assign(res.data(), res.size());
            ok = true;
        }
        catch (std::exception&) {}
        judge(ok, got, "decode-wide");
        c.event("wide");
    }
    else if (how == 2) {
        std::size_t k = (r.chance(1, 3) ? max_size : expected && r.chance(1, 2) ? expected->size() : r.below(max_size + 2));
        std::unique_ptr<char[]> out(new char[k]);
        std::size_t size = 777777;
        bool insufficient = r.chance(1, 2), orig = insufficient;
        bool ok = base64::decode(in.view(), core::Span<char>(out.get(), k), size, insufficient, cfg);
        log = "space " + std::to_string(k);
        if (ok) {
            VF_EQ(insufficient, orig, "decode-span-flag-touched", ctx);
            judge(true, std::string(out.get(), size), "decode-span");
        }
        else {
            VF_EQ(size, std::size_t(777777), "decode-span-size-touched", ctx);
            if (insufficient) {
                VF_REQUIRE(k < max_size && (!expected || k < expected->size()), "decode-span-insufficient", ctx);
                c.event("insufficient");
            }
            else judge(false, "", "decode-span");
        }
    }
    else if (how == 3) {
        base64::BasicDecoder<char> dec(cfg);
        core::Buffer<char> buf;
        for (int i = 0; i < 3; ++i) {
            bool ok = false;
            std::string got;
            try { auto res = dec.decode(in.view(), buf); got.assign(res.data(), res.size()); ok = true; }
            catch (std::exception&) {}
            judge(ok, got, "decode-object");
        }
    }
    else {
        base64::IncrementalDecoder dec(cfg);
        std::string out;
        std::size_t used = 0;
        bool ok = incremental(r, [&](auto&&... a) { return dec.decode(a...); }, str, out, log, used);
        judge(ok, out, "decode-incremental");
        c.event("incremental");
    }
    c.event(expected ? "accepted" : "rejected");
    if (pristine && expected) c.event("round_trip");
    bool padded = str.find('=') != std::string::npos;
    if (expected && padded) c.event("accepted_padded");
    c.nontrivial(vf::Hash().add(str.size()).add(int(cfg.padding)).add(cfg.allow_whitespace).add(bool(expected)).add(how).get());
    c.sample([&](std::ostream& o) { ctx(o); o << (expected ? " accepted" : " rejected"); });
}

VF_MONITOR(exhaustive_short, 30, 30)
{
    // All strings of up to 5 characters over a small alphabet, for every configuration
    static const char chars[] = "AQw+-= ";
    std::size_t num = sizeof chars - 1;
    base64::DecodeConfig cfg;
    std::size_t i = c.index % 12;
    cfg.url_safe_variant = i % 2;
    cfg.allow_whitespace = i / 2 % 2;
    cfg.padding = base64::DecodeConfig::Padding(i / 4);
    base64::BasicDecoder<char> dec(cfg);
    core::Buffer<char> buf;
    for (std::size_t len = 0; len <= 5; ++len) {
        std::vector<std::size_t> digits(len, 0);
        for (;;) {
            std::string s;
            for (auto d : digits) s += chars[d];
            auto expected = ref_decode(s, cfg);
            bool ok = false;
            std::string got;
            std::size_t size = 0;
            bool insufficient = false;
            char out[16];
            ok = base64::decode(std::string_view(s), core::Span<char>(out, sizeof out), size, insufficient, cfg);
            if (ok) got.assign(out, size);
            VF_REQUIRE(ok == bool(expected) && (!ok || got == *expected), "decode-short", [&](std::ostream& o) { show_cfg(o, cfg); o << vf::show(s) << " ok=" << ok << " got " << vf::hex(got); });
            c.event("strings");
            std::size_t k = 0;
            while (k < len && ++digits[k] == num) digits[k++] = 0;
            if (k == len) break;
        }
    }
    c.nontrivial(i);
}
