// C09: text codecs and string codecs
#include <archon/core/buffer.hpp>
#include <archon/core/text_codec.hpp>
#include <archon/core/string_codec.hpp>
#include "model.hpp"

using namespace archon;
using namespace c09;

namespace {

std::size_t text_size(vf::Rng& r)
{
    if (r.chance(1, 8))
        return std::size_t(r.pick({ 255, 256, 510, 511, 512, 513, 1023, 1024, 1500 })) - r.below(4);
    return r.size(60);
}

void sprinkle_newlines(vf::Rng& r, std::string& s)
{
    if (s.empty() || r.chance(1, 4)) return;
    for (std::size_t k = 1 + r.below(1 + s.size() / 4); k > 0; --k) {
        std::size_t i = r.below(s.size() + 1);
        while (i < s.size() && (s[i] & 0xC0) == 0x80) ++i; // Keep sequences intact
        s.insert(i, r.pick({ "\r\n", "\n", "\r" }));
    }
}

template<class Codec, class Decoder, class Encoder, bool windows> void exercise(vf::Case& c)
{
    using C = typename Codec::char_type;
    using string_type = std::basic_string<C>;
    constexpr bool wide = std::is_same_v<C, wchar_t>;
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    typename Codec::Config config;
    config.lenient = r.chance(1, 3);
    config.use_fallback_replacement_char = r.chance(1, 3);
    wchar_t repl = utf8 && !config.use_fallback_replacement_char ? wchar_t(0xFFFD) : L'?';
    Codec codec(locale(utf8), config);
    c.event("text_codecs");

    // Decoding
    {
        std::string s = random_bytes(r, utf8, text_size(r), r.chance(1, 3));
        sprinkle_newlines(r, s);
        std::vector<char> data(s.begin(), s.end());
        core::StringSpan<char> span(data.data(), data.size());
        std::string s2 = windows ? nl_decode(s) : s;
        Decoded m;
        bool expect_ok = true;
        if constexpr (wide) {
            m = decode(utf8, s2);
            expect_ok = config.lenient || m.status == ok;
        }
        auto check = [&](std::basic_string_view<C> got, const char* what) {
            if constexpr (wide) {
                if (m.status == ok)
                    VF_REQUIRE(got == m.text, "decode", what << " utf8=" << utf8 << " windows=" << windows << " of " << show(s) << " gave " << show(string_type(got)));
                else
                    VF_REQUIRE(lenient_ok(utf8, s2, string_type(got), repl), "decode-lenient", what << " utf8=" << utf8 << " of " << show(s) << " gave " << show(string_type(got)));
            }
            else {
                VF_REQUIRE(got == s2, "decode-narrow", what << " of " << show(s) << " gave " << show(string_type(got)));
            }
        };
        string_type first;
        for (int mode = 0; mode < 6; ++mode) {
            core::Buffer<C> buffer(r.chance(1, 2) ? 0 : r.below(s.size() + 3));
            typename Codec::ShortCircuitDecodeBuffer sc_buf;
            std::vector<C> seed(r.below(20));
            Decoder decoder(locale(utf8), core::Span<C>(seed.data(), seed.size()), config);
            std::basic_string_view<C> got;
            std::size_t pre = 0;
            bool success = true;
            try {
                switch (mode) {
                    case 0: got = codec.decode(span, buffer); break;
                    case 1: {
                        pre = buffer.size() ? r.below(std::min<std::size_t>(buffer.size(), 3)) : 0;
                        std::size_t off = pre;
                        for (std::size_t i = 0; i < pre; ++i) buffer.data()[i] = C('#');
                        codec.decode_a(span, buffer, off);
                        VF_REQUIRE(off >= pre && off <= buffer.size(), "decode_a-offset", "");
                        for (std::size_t i = 0; i < pre; ++i) VF_REQUIRE(buffer.data()[i] == C('#'), "decode_a-prefix-lost", "of " << show(s));
                        got = { buffer.data() + pre, off - pre };
                        break;
                    }
                    case 2: {
                        std::size_t off = 0;
                        success = codec.try_decode(span, buffer, off);
                        got = { buffer.data(), off };
                        break;
                    }
                    case 3: got = codec.decode_sc(span, sc_buf); break;
                    case 4: success = codec.try_decode_sc(span, sc_buf, got); break;
                    default:
                        // Reuse of the decoder must not affect result
                        if (r.chance(1, 2)) {
                            std::basic_string_view<C> x;
                            std::string t = random_bytes(r, utf8, r.size(20), true);
                            (void)decoder.try_decode_sc(t, x);
                        }
                        got = decoder.decode_sc(span);
                }
            }
            catch (std::runtime_error&) { success = false; }
            VF_EQ(success, expect_ok, "decode-verdict", "mode " << mode << " utf8=" << utf8 << " windows=" << windows << " lenient=" << config.lenient << " of " << show(s));
            if (!success) { c.event("decode_failures"); continue; }
            check(got, r.chance(1, 2) ? "decode" : "decoder");
            if (mode == 0) first = string_type(got);
            else VF_REQUIRE(got == first, "decode-modes-disagree", "mode " << mode << " of " << show(s));
            c.event("texts_decoded");
        }
        if (s.size() > 1) c.nontrivial(vf::Hash().add(s).get());
        if (s.size() > 512) c.event("long_texts");
    }

    // Encoding
    {
        string_type t;
        if constexpr (wide) {
            t = random_text(r, utf8, text_size(r));
            if (!t.empty() && r.chance(1, 3)) t[r.below(t.size())] = random_bad_char(r, utf8);
        }
        else {
            t = random_bytes(r, true, text_size(r), true);
        }
        if (!t.empty() && r.chance(1, 2))
            for (std::size_t k = 1 + r.below(1 + t.size() / 4); k > 0; --k) t[r.below(t.size())] = r.chance(1, 4) ? C('\r') : C('\n');
        std::string want;
        bool expect_ok = true;
        string_type t2 = windows ? nl_encode(t) : t;
        if constexpr (wide) {
            for (wchar_t ch : t2) {
                if (can_encode(utf8, ch)) want += enc(ch);
                else if (config.lenient) want += repl == L'?' ? "?" : "\xEF\xBF\xBD";
                else { expect_ok = false; break; }
            }
        }
        else {
            want = t2;
        }
        std::vector<C> data(t.begin(), t.end());
        core::StringSpan<C> span(data.data(), data.size());
        for (int mode = 0; mode < 6; ++mode) {
            core::Buffer<char> buffer(r.chance(1, 2) ? 0 : r.below(t.size() + 3));
            typename Codec::ShortCircuitEncodeBuffer sc_buf;
            std::vector<char> seed(r.below(20));
            Encoder encoder(locale(utf8), core::Span<char>(seed.data(), seed.size()), config);
            std::string_view got;
            bool success = true;
            try {
                switch (mode) {
                    case 0: got = codec.encode(span, buffer); break;
                    case 1: {
                        std::size_t pre = buffer.size() ? r.below(std::min<std::size_t>(buffer.size(), 3)) : 0, off = pre;
                        for (std::size_t i = 0; i < pre; ++i) buffer.data()[i] = '#';
                        codec.encode_a(span, buffer, off);
                        VF_REQUIRE(off >= pre && off <= buffer.size(), "encode_a-offset", "");
                        for (std::size_t i = 0; i < pre; ++i) VF_REQUIRE(buffer.data()[i] == '#', "encode_a-prefix-lost", "of " << show(t));
                        got = { buffer.data() + pre, off - pre };
                        break;
                    }
                    case 2: {
                        std::size_t off = 0;
                        success = codec.try_encode(span, buffer, off);
                        got = { buffer.data(), off };
                        break;
                    }
                    case 3: got = codec.encode_sc(span, sc_buf); break;
                    case 4: success = codec.try_encode_sc(span, sc_buf, got); break;
                    default: got = encoder.encode_sc(span);
                }
            }
            catch (std::runtime_error&) { success = false; }
            VF_EQ(success, expect_ok, "encode-verdict", "mode " << mode << " utf8=" << utf8 << " windows=" << windows << " of " << show(t));
            if (!success) { c.event("encode_failures"); continue; }
            VF_REQUIRE(got == want, "encode", "mode " << mode << " utf8=" << utf8 << " windows=" << windows << " of " << show(t) << " gave " << show(std::string(got)));
            c.event("texts_encoded");
            // Round trip
            if (mode == 0 && !config.lenient && t.find(C('\r')) == t.npos) {
                core::Buffer<C> b2;
                VF_REQUIRE(codec.decode(got, b2) == t, "round-trip", "of " << show(t));
                c.event("round_trips");
            }
        }
        c.sample([&](std::ostream& o) { o << "encode windows=" << windows << " utf8=" << utf8 << " " << show(t).substr(0, 200); });
    }
}

VF_MONITOR(wide_posix_text_codec, 15000, 300000) { exercise<core::WidePosixTextCodec, core::WidePosixTextDecoder, core::WidePosixTextEncoder, false>(c); }
VF_MONITOR(wide_windows_text_codec, 15000, 300000) { exercise<core::WideWindowsTextCodec, core::WideWindowsTextDecoder, core::WideWindowsTextEncoder, true>(c); }
VF_MONITOR(windows_text_codec, 7500, 150000) { exercise<core::WindowsTextCodec, core::WindowsTextDecoder, core::WindowsTextEncoder, true>(c); }
VF_MONITOR(posix_text_codec, 2500, 50000) { exercise<core::PosixTextCodec, core::PosixTextDecoder, core::PosixTextEncoder, false>(c); }
VF_MONITOR(text_codec, 2500, 50000) { exercise<core::WideTextCodec, core::WideTextDecoder, core::WideTextEncoder, false>(c); }

VF_MONITOR(string_codec, 15000, 300000)
{
    auto& r = c.rng;
    bool utf8 = r.chance(3, 4);
    core::WideStringCodec::Config config;
    config.lenient = r.chance(1, 3);
    std::string s = random_bytes(r, utf8, text_size(r), r.chance(1, 3));
    Decoded m = decode(utf8, s);
    bool success = true;
    std::wstring w;
    try { w = core::decode_string<wchar_t>(s, locale(utf8), config); }
    catch (std::runtime_error&) { success = false; }
    VF_EQ(success, config.lenient || m.status == ok, "decode_string-verdict", "of " << show(s));
    if (m.status == ok) {
        VF_REQUIRE(w == m.text, "decode_string", "of " << show(s));
        std::string back = core::encode_string(std::wstring_view(w), locale(utf8), config);
        VF_REQUIRE(back == s, "encode_string", "of " << show(s));
        c.nontrivial(vf::Hash().add(s).get());
    }
    else if (success) {
        VF_REQUIRE(lenient_ok(utf8, s, w, utf8 ? wchar_t(0xFFFD) : L'?'), "decode_string-lenient", "of " << show(s));
    }
    VF_REQUIRE(core::decode_string<char>(s, locale(utf8)) == s && core::encode_string(std::string_view(s), locale(utf8)) == s, "narrow-string-codec", "of " << show(s));
    c.event("strings_converted");
}

} // namespace
