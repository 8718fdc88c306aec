// C08: bridge between UTF-8 and native multi-byte encoding
#include <locale>
#include <archon/core/buffer.hpp>
#include <archon/core/unicode_bridge.hpp>
#include "ref.hpp"

using namespace archon;
using namespace c08;

// In a UTF-8 locale the bridges are identity. In the C locale, ASCII passes unchanged, and everything else becomes replacement
// characters: At least one, and no more than one per byte, for each maximal run of unrepresentable input.
VF_MONITOR(bridge, 6000, 400000)
{
    bool utf8 = c.rng.chance(0.4);
    std::locale loc = utf8 ? std::locale("C.UTF-8") : std::locale::classic();
    std::string in;
    Seq s = random_seq(c.rng, U8, 0xFF, c.rng.chance(0.2) ? 200 : 20);
    for (auto v : s) in += char(v);
    if (c.rng.chance(0.3)) { // Mostly ASCII
        std::size_t n = c.rng.below(150);
        in.clear();
        for (std::size_t i = 0; i < n; ++i) in += char(c.rng.below(c.rng.chance(0.05) ? 256 : 128));
    }
    // glibc silently drops tag characters (U+E0000 -> U+E007F) when they are not encodable, so leave them out
    for (std::size_t i; (i = in.find("\xF3\xA0\x80")) != std::string::npos || (i = in.find("\xF3\xA0\x81")) != std::string::npos;)
        in.erase(i, 3);
    std::string pre(c.rng.below(5), 'p');
    std::string heap = in;
    heap.shrink_to_fit();
    auto run = [&](auto transcoder) {
        core::Buffer<char> b;
        std::size_t off = 0;
        b.append(std::string_view(pre), off);
        transcoder.transcode_l(core::StringSpan<char>(heap.data(), heap.size()), b, off);
        std::string r(b.data(), off);
        VF_REQUIRE(r.substr(0, pre.size()) == pre, "prefix", vf::show(in) << " after " << vf::show(pre) << ": " << vf::show(r));
        return r.substr(pre.size());
    };
    auto lenient_match = [&](const std::string& out, std::string_view repl, const char* key) {
        // Align output with input
        std::size_t i = 0, j = 0;
        bool good = true;
        while (good && i < in.size()) {
            if (static_cast<unsigned char>(in[i]) < 0x80 && in[i] != '?') {
                good = (j < out.size() && out[j] == in[i]);
                ++i, ++j;
                continue;
            }
            // Run of bytes that can produce replacement characters (or be question marks)
            std::size_t k = i, marks = 0, others = 0;
            while (k < in.size() && (static_cast<unsigned char>(in[k]) >= 0x80 || in[k] == '?')) { (in[k] == '?' ? marks : others) += 1; ++k; }
            std::size_t n = 0, m = 0;
            while (j < out.size()) {
                if (out.compare(j, repl.size(), repl) == 0) { j += repl.size(); ++n; if (repl == "?") ++m; }
                else if (out[j] == '?') { ++j; ++m; ++n; }
                else break;
            }
            good = (m >= marks && n >= marks + (others != 0 ? 1 : 0) && n <= marks + others);
            i = k;
        }
        good = good && j == out.size();
        VF_REQUIRE(good, key, vf::show(in) << " -> " << vf::show(out) << " pre " << pre.size());
    };
    std::string a = run(core::native_mb_to_utf8_transcoder(loc));
    std::string b = run(core::utf8_to_native_mb_transcoder(loc));
    if (utf8) {
        VF_EQ(a, in, "to_utf8_identity", vf::show(in));
        VF_EQ(b, in, "from_utf8_identity", vf::show(in));
    }
    else {
        lenient_match(a, "\xEF\xBF\xBD", "to_utf8_c");
        lenient_match(b, "?", "from_utf8_c");
        // Number of '?' for each valid UTF-8 sequence is one
        Item it {};
        std::string want;
        Seq ucs = lenient(U8, UCS, Seq([&] { Seq q; for (char ch : in) q.push_back(static_cast<unsigned char>(ch)); return q; }()), 0x10FFFF);
        for (auto v : ucs) want += v < 0x80 ? char(v) : '?';
        static_cast<void>(it);
        VF_EQ(b, want, "from_utf8_c_exact", vf::show(in) << " pre " << pre.size());
        c.event("c_locale");
    }
    if (!in.empty()) c.nontrivial(vf::Hash().add(in).add(utf8).get());
}
