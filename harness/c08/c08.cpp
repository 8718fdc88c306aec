// C08: Unicode transcoding
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/unicode.hpp>
#include "ref.hpp"

using namespace archon;
using namespace c08;

namespace {

#define WRAP(NAME, FROM, TO)                                                                     \
    struct K_##NAME {                                                                            \
        static constexpr Form from = FROM, to = TO;                                              \
        static constexpr const char* name = #NAME;                                               \
        template<class C, class D>                                                               \
        static void incr(core::Span<const C> i, core::Span<D> o, std::size_t& io, std::size_t& oo, bool& x, bool& e) \
        { core::NAME##_incr<C, D>(i, o, io, oo, x, e); }                                         \
        template<class C, class D>                                                               \
        static void all(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { core::NAME<C, D>(s, b, o); } \
        template<class C, class D>                                                               \
        static void len(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { core::NAME##_l<C, D>(s, b, o); } \
        template<class C, class D>                                                               \
        static void adv(core::StringSpan<C> s, std::size_t& so, core::Buffer<D>& b, std::size_t& o) { core::NAME##_a<C, D>(s, so, b, o); } \
        template<class C, class D>                                                               \
        static bool try_(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { return core::try_##NAME<C, D>(s, b, o); } \
    };
WRAP(encode_utf8, UCS, U8)
WRAP(decode_utf8, U8, UCS)
WRAP(encode_utf16, UCS, U16)
WRAP(decode_utf16, U16, UCS)
WRAP(utf8_to_utf16, U8, U16)
WRAP(utf16_to_utf8, U16, U8)

template<class C> constexpr std::uint32_t max_unit = (sizeof(C) == 1 ? 0xFF : sizeof(C) == 2 ? 0xFFFF : 0xFFFFFFFF);

template<class K, class C, class D> struct P { using kind = K; using in = C; using out = D; };

template<class F> void with_pair(std::size_t i, F f)
{
    switch (i % 26) {
    case 0: f(P<K_encode_utf8, char32_t, char>()); break;
    case 1: f(P<K_encode_utf8, wchar_t, char8_t>()); break;
    case 2: f(P<K_encode_utf8, char16_t, char>()); break;
    case 3: f(P<K_encode_utf8, char, char>()); break;
    case 4: f(P<K_decode_utf8, char, char32_t>()); break;
    case 5: f(P<K_decode_utf8, char8_t, wchar_t>()); break;
    case 6: f(P<K_decode_utf8, char, char16_t>()); break;
    case 7: f(P<K_decode_utf8, char32_t, char32_t>()); break;
    case 8: f(P<K_encode_utf16, char32_t, char16_t>()); break;
    case 9: f(P<K_encode_utf16, wchar_t, char32_t>()); break;
    case 10: f(P<K_encode_utf16, char16_t, char16_t>()); break;
    case 11: f(P<K_encode_utf16, char, wchar_t>()); break;
    case 12: f(P<K_decode_utf16, char16_t, char32_t>()); break;
    case 13: f(P<K_decode_utf16, char16_t, wchar_t>()); break;
    case 14: f(P<K_decode_utf16, char32_t, char32_t>()); break;
    case 15: f(P<K_decode_utf16, wchar_t, wchar_t>()); break;
    case 16: f(P<K_utf8_to_utf16, char, char16_t>()); break;
    case 17: f(P<K_utf8_to_utf16, char8_t, wchar_t>()); break;
    case 18: f(P<K_utf8_to_utf16, wchar_t, char16_t>()); break;
    case 19: f(P<K_utf16_to_utf8, char16_t, char>()); break;
    case 20: f(P<K_utf16_to_utf8, wchar_t, char8_t>()); break;
    case 21: f(P<K_utf16_to_utf8, char32_t, char>()); break;
    case 22: f(P<K_encode_utf8, char32_t, wchar_t>()); break;
    case 23: f(P<K_decode_utf8, char8_t, char32_t>()); break;
    case 24: f(P<K_utf8_to_utf16, char, char16_t>()); break;
    case 25: f(P<K_decode_utf16, char16_t, wchar_t>()); break;
    }
}

template<class K, class D> constexpr std::uint32_t limit = (K::to == UCS && sizeof(D) < 4 ? 0xFFFF : 0x10FFFF);

template<class D> Seq seq(const D* p, std::size_t n)
{
    Seq r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(unit(p[i]));
    return r;
}

// Values as seen through character traits (`char_traits<char16_t>` unpacks 0xFFFF, which is its EOF value, as 0xFFFD)
template<class C> Seq norm(Seq s)
{
    for (auto& v : s)
        v = std::uint32_t(std::char_traits<C>::to_int_type(C(v)));
    return s;
}

template<class C> void resync(Form f, const std::vector<C>& v, std::size_t& off)
{
    core::Span<const C> s(v.data(), v.size());
    if constexpr (sizeof(C) == 1) core::resync_utf8<C>(s, off);
    else if (f == U8) core::resync_utf8<C>(s, off);
    else core::resync_utf16<C>(s, off);
}

// One incremental call on exactly sized buffers, compared with reference
template<class P_> void step(vf::Case& c, const Seq& in, std::size_t avail, std::size_t& pos, std::size_t pre_out, std::size_t space,
                             Seq& out, bool& exhausted, bool& error)
{
    using K = typename P_::kind;
    using C = typename P_::in;
    using D = typename P_::out;
    Seq part(in.begin(), in.begin() + std::ptrdiff_t(avail));
    std::vector<C> iv = units<C>(part);
    part = norm<C>(part);
    std::unique_ptr<D[]> ov(new D[pre_out + space]);
    for (std::size_t i = 0; i < pre_out + space; ++i) ov[i] = D('#');
    std::size_t io = pos, oo = pre_out;
    bool x = false, e = false;
    K::incr(core::Span<const C>(iv.data(), iv.size()), core::Span<D>(ov.get(), pre_out + space), io, oo, x, e);
    Seq want;
    Result r = transcode(K::from, K::to, part, pos, want, space, limit<K, D>);
    auto ctx = [&](std::ostream& o) {
        o << K::name << " input " << show(part) << "at " << pos << " space " << space << ": in_offset=" << io << " (want " << r.in
          << ") out_offset=" << (oo - pre_out) << " (want " << r.out << ") exhausted=" << x << " error=" << e;
    };
    VF_REQUIRE(io == r.in, "consumed", ctx);
    VF_REQUIRE(oo == pre_out + r.out, "produced", ctx);
    if (r.early) {
        VF_REQUIRE(x || e, "early", ctx); // Either verdict is fine as long as nothing more is consumed
        c.event("early_bad");
    }
    else {
        VF_REQUIRE(x == r.exhausted, "exhausted_flag", ctx);
        if (!x)
            VF_REQUIRE(e == r.error, "error_flag", ctx);
    }
    Seq got = seq(ov.get() + pre_out, oo - pre_out);
    VF_REQUIRE(got == want, "output", [&](std::ostream& o) { ctx(o); o << " output " << show(got) << " want " << show(want); });
    for (std::size_t i = 0; i < pre_out; ++i)
        VF_REQUIRE(ov[i] == D('#'), "before_output", ctx);
    for (std::size_t i = oo; i < pre_out + space; ++i)
        VF_REQUIRE(ov[i] == D('#'), "beyond_output", ctx);
    out.insert(out.end(), got.begin(), got.end());
    pos = io;
    exhausted = x;
    error = !x && e;
}

template<class P_> void incremental(vf::Case& c)
{
    using K = typename P_::kind;
    using C = typename P_::in;
    using D = typename P_::out;
    Seq in = random_seq(c.rng, K::from, max_unit<C>, c.rng.chance(0.2) ? 60 : 12);
    in = norm<C>(in);
    std::size_t pos = 0, avail = 0;
    Seq out;
    int calls = 0, errors = 0;
    for (;;) {
        // Make more input available in chunks of random size
        std::size_t more = std::min<std::size_t>(in.size() - avail, c.rng.below(c.rng.chance(0.5) ? 3 : 10));
        avail += more;
        bool x = false, e = false;
        step<P_>(c, in, avail, pos, c.rng.below(3), c.rng.below(c.rng.chance(0.7) ? 6 : 40), out, x, e);
        ++calls;
        if (x && avail == in.size())
            break;
        if (e) {
            ++errors;
            c.event("invalid_input");
            // Skip over invalid input
            std::size_t p2 = pos + 1;
            if (K::from != UCS) {
                std::size_t want = p2;
                while (want < in.size() && !is_start(K::from, in[want])) ++want;
                std::vector<C> iv = units<C>(in);
                resync(K::from, iv, p2);
                VF_EQ(p2, want, "resync", [&](std::ostream& o) { o << K::name << " resync on " << show(in) << "at " << pos + 1; });
                c.event("resync");
                if (p2 > avail) avail = p2;
            }
            pos = p2;
        }
    }
    // All together equals one-shot reference
    Seq want;
    std::size_t i = 0;
    for (;;) {
        Result r = transcode(K::from, K::to, in, i, want, std::size_t(-1), limit<K, D>);
        i = r.in;
        if (!r.error) break;
        ++i;
        if (K::from != UCS) while (i < in.size() && !is_start(K::from, in[i])) ++i;
    }
    if (i <= in.size()) {
        // (an incomplete trailing sequence may have been reported as error early)
        VF_REQUIRE(out == want, "chunking", [&](std::ostream& o) { o << K::name << " " << show(in) << ": " << show(out) << " want " << show(want); });
    }
    c.event("incr_calls", calls);
    if (errors > 0 || calls > 2)
        c.nontrivial(vf::Hash().add(K::name).add(sizeof(C)).add(sizeof(D)).add(calls).add(vf::hash_bytes(in.data(), in.size() * 4)).get());
    c.sample([&](std::ostream& o) { o << K::name << " " << show(in) << "-> " << show(out) << " in " << calls << " calls, " << errors << " errors"; });
}

template<class P_> void whole(vf::Case& c)
{
    using K = typename P_::kind;
    using C = typename P_::in;
    using D = typename P_::out;
    Seq in = random_seq(c.rng, K::from, max_unit<C>, c.rng.chance(0.2) ? 100 : 10);
    Seq raw = in;
    in = norm<C>(in);
    std::vector<C> iv = units<C>(raw);
    core::StringSpan<C> s(iv.data(), iv.size());
    Seq want;
    Result r = transcode(K::from, K::to, in, 0, want, std::size_t(-1), limit<K, D>);
    bool valid = (r.in == in.size());
    std::size_t pre = c.rng.below(4);
    std::size_t seed = pre + c.rng.below(6);
    Seq prefix;
    auto make = [&](core::Buffer<D>& b) {
        prefix.clear();
        b.reserve(seed, 0);
        for (std::size_t i = 0; i < pre; ++i) { b.data()[i] = D('a' + i); prefix.push_back(std::uint32_t('a' + i)); }
    };
    auto check = [&](core::Buffer<D>& b, std::size_t off, const Seq& w, const char* what) {
        auto ctx = [&](std::ostream& o) {
            o << K::name << what << " at buffer offset " << pre << " on " << show(in) << ": " << show(seq(b.data(), off)) << " want " << show(w);
        };
        VF_REQUIRE(off == pre + w.size(), "buffer_offset", ctx);
        VF_REQUIRE(off <= b.size(), "buffer_size", ctx);
        VF_REQUIRE(seq(b.data(), pre) == prefix, "prefix", ctx);
        VF_REQUIRE(seq(b.data() + pre, off - pre) == w, "content", ctx);
    };
    { // Throwing
        core::Buffer<D> b;
        make(b);
        std::size_t off = pre;
        bool thrown = false;
        try { K::template all<C, D>(s, b, off); } catch (const std::runtime_error&) { thrown = true; }
        VF_REQUIRE(thrown == !valid, "throws", [&](std::ostream& o) { o << K::name << " " << show(in); });
        check(b, off, valid ? want : Seq(), "");
    }
    { // try
        core::Buffer<D> b;
        make(b);
        std::size_t off = pre;
        bool good = K::template try_<C, D>(s, b, off);
        VF_REQUIRE(good == valid, "try_result", [&](std::ostream& o) { o << K::name << " " << show(in); });
        check(b, off, good ? want : Seq(), "(try)");
    }
    { // advance, resumed after error
        core::Buffer<D> b;
        make(b);
        std::size_t off = pre, so = 0;
        K::template adv<C, D>(s, so, b, off);
        VF_REQUIRE(so == r.in, "a_offset", [&](std::ostream& o) { o << K::name << " " << show(in) << " stopped at " << so << " want " << r.in; });
        check(b, off, want, "_a");
        if (so < in.size()) {
            std::size_t so2 = so + 1;
            Seq w2 = want;
            Result r2 = transcode(K::from, K::to, in, so2, w2, std::size_t(-1), limit<K, D>);
            K::template adv<C, D>(s, so2, b, off);
            VF_REQUIRE(so2 == r2.in, "a_offset_resumed", [&](std::ostream& o) { o << K::name << " " << show(in); });
            check(b, off, w2, "_a resumed");
        }
    }
    { // lenient
        core::Buffer<D> b;
        make(b);
        std::size_t off = pre;
        K::template len<C, D>(s, b, off);
        check(b, off, lenient(K::from, K::to, in, limit<K, D>), "_l");
    }
    c.event(valid ? "valid" : "invalid");
    if (!in.empty())
        c.nontrivial(vf::Hash().add(K::name).add(sizeof(C)).add(sizeof(D)).add(vf::hash_bytes(in.data(), in.size() * 4)).get());
}

} // namespace

VF_MONITOR(incremental, 60000, 2000000)
{
    with_pair(c.index, [&](auto p) { incremental<decltype(p)>(c); });
}

VF_MONITOR(whole, 40000, 2000000)
{
    with_pair(c.index, [&](auto p) { whole<decltype(p)>(c); });
}

// Every code point, valid or not, alone
VF_MONITOR(code_points, 273, 273)
{
    std::uint32_t base = std::uint32_t(c.index) * 0x1000; // Beyond U+110FFF on last index
    std::size_t n_valid = 0;
    for (std::uint32_t k = 0; k < 0x1000; ++k) {
        std::uint32_t cp = base + k;
        char32_t u = cp;
        bool valid = valid_cp(cp);
        n_valid += valid;
        auto ctx = [&](std::ostream& o) { o << "code point " << std::hex << cp; };
        {
            std::array<char, 4> b;
            std::size_t io = 0, oo = 0;
            bool x = false, e = false;
            core::encode_utf8_incr(core::Span<const char32_t>(&u, 1), core::Span<char>(b), io, oo, x, e);
            VF_REQUIRE(x == valid, "encode8", ctx);
            if (!valid) { VF_REQUIRE(e && io == 0 && oo == 0, "encode8_err", ctx); }
            Seq w;
            if (valid) gen(U8, cp, w);
            VF_REQUIRE(seq(b.data(), oo) == w, "encode8_out", ctx);
            // Decoding of the generalized encoding must be symmetric
            if (!valid && cp < 0x110000) gen(U8, cp, w);
            if (!w.empty()) {
                auto v = units<char>(w);
                char32_t d = 0;
                io = oo = 0;
                x = e = false;
                core::decode_utf8_incr(core::Span<const char>(v.data(), v.size()), core::Span<char32_t>(&d, 1), io, oo, x, e);
                VF_REQUIRE(valid ? (x && oo == 1 && io == v.size() && d == cp) : (!x && e && io == 0 && oo == 0), "decode8", ctx);
                std::array<char16_t, 2> h;
                io = oo = 0;
                x = e = false;
                core::utf8_to_utf16_incr(core::Span<const char>(v.data(), v.size()), core::Span<char16_t>(h), io, oo, x, e);
                Seq w16;
                if (valid) gen(U16, cp, w16);
                VF_REQUIRE(x == valid && seq(h.data(), oo) == w16, "to16", ctx);
            }
        }
        {
            std::array<char16_t, 2> b;
            std::size_t io = 0, oo = 0;
            bool x = false, e = false;
            core::encode_utf16_incr(core::Span<const char32_t>(&u, 1), core::Span<char16_t>(b), io, oo, x, e);
            Seq w;
            if (valid) gen(U16, cp, w);
            VF_REQUIRE(x == valid && seq(b.data(), oo) == w, "encode16", ctx);
            if (valid) {
                char32_t d = 0;
                std::size_t io2 = 0, oo2 = 0;
                x = e = false;
                core::decode_utf16_incr(core::Span<const char16_t>(b.data(), oo), core::Span<char32_t>(&d, 1), io2, oo2, x, e);
                VF_REQUIRE(x && oo2 == 1 && d == cp, "decode16", ctx);
                std::array<char, 4> b8;
                io2 = oo2 = 0;
                x = e = false;
                core::utf16_to_utf8_incr(core::Span<const char16_t>(b.data(), oo), core::Span<char>(b8), io2, oo2, x, e);
                Seq w8;
                gen(U8, cp, w8);
                VF_REQUIRE(x && seq(b8.data(), oo2) == w8, "to8", ctx);
            }
        }
    }
    c.event("valid_code_points", std::int64_t(n_valid));
    c.nontrivial(base);
}

// All UTF-8 sequences of 1 and 2 bytes, and all with given lead and boundary continuation bytes; all UTF-16 pairs on boundaries
VF_MONITOR(byte_sequences, 256, 256)
{
    std::uint32_t a = std::uint32_t(c.index);
    static const std::uint32_t bs[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xF8, 0xFF };
    bool x, e;
    Seq out;
    auto run = [&](const Seq& s) {
        std::size_t pos = 0;
        step<P<K_decode_utf8, char, char32_t>>(c, s, s.size(), pos, 0, 4, out, x, e);
        pos = 0;
        step<P<K_utf8_to_utf16, char, char16_t>>(c, s, s.size(), pos, 0, 8, out, x, e);
        out.clear();
        c.event("sequences");
    };
    run({ a });
    for (std::uint32_t b = 0; b < 256; ++b)
        run({ a, b });
    for (auto b : bs)
        for (auto d : bs) {
            run({ a, b, d });
            for (auto f : bs)
                if (a >= 0xE0) run({ a, b, d, f });
        }
    static const std::uint32_t us[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF };
    for (auto u : us)
        for (auto v : us) {
            Seq s { u, v, std::uint32_t(0xD800 + a * 8) };
            std::size_t pos = 0;
            step<P<K_decode_utf16, char16_t, char32_t>>(c, s, s.size(), pos, 0, 4, out, x, e);
            pos = 0;
            step<P<K_utf16_to_utf8, char16_t, char>>(c, s, s.size(), pos, 0, 12, out, x, e);
        }
    c.nontrivial(a);
}
