// Reference model of Unicode transcoding, on sequences of 32-bit units
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "vf.hpp"

namespace c08 {

using Seq = std::vector<std::uint32_t>;

enum Form { UCS, U8, U16 };
enum Status { ok, incomplete, early, bad };
struct Item { Status status; std::size_t len; std::uint32_t cp; };

inline bool valid_cp(std::uint32_t v)
{
    return v < 0xD800 || (v >= 0xE000 && v < 0xFFFE) || (v >= 0x10000 && v < 0x110000);
}

// Parse one item. `early` means: already known to be invalid, but shorter than what the lead announces
inline Item parse(Form f, const Seq& s, std::size_t i)
{
    std::uint32_t a = s[i];
    auto left = s.size() - i;
    if (f == UCS)
        return valid_cp(a) ? Item { ok, 1, a } : Item { bad, 0, 0 };
    if (f == U16) {
        if (a >= 0x10000 || (a >= 0xDC00 && a < 0xE000) || a >= 0xFFFE)
            return { bad, 0, 0 };
        if (a < 0xD800 || a >= 0xE000)
            return { ok, 1, a };
        if (left < 2)
            return { incomplete, 0, 0 };
        std::uint32_t b = s[i + 1];
        if (b < 0xDC00 || b >= 0xE000)
            return { bad, 0, 0 };
        return { ok, 2, 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00) };
    }
    if (a < 0x80)
        return { ok, 1, a };
    if (a < 0xC0 || a >= 0xF8)
        return { bad, 0, 0 };
    std::size_t n = (a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4);
    // Table 3-7 of the Unicode standard, plus exclusion of U+FFFE and U+FFFF
    bool impossible = (a == 0xC0 || a == 0xC1 || a > 0xF4);
    std::uint32_t cp = (n == 2 ? a & 0x1F : n == 3 ? a & 0xF : a & 7);
    for (std::size_t k = 1; k < n; ++k) {
        if (k >= left)
            return { impossible ? early : incomplete, 0, 0 };
        std::uint32_t b = s[i + k];
        std::uint32_t lo = 0x80, hi = 0xBF;
        if (k == 1) {
            if (a == 0xE0) lo = 0xA0;
            if (a == 0xED) hi = 0x9F;
            if (a == 0xF0) lo = 0x90;
            if (a == 0xF4) hi = 0x8F;
        }
        if (b < lo || b > hi)
            impossible = true;
        cp = cp << 6 | (b & 0x3F);
        if (!impossible && n == 3 && k == 2 && (cp == 0xFFFE || cp == 0xFFFF))
            impossible = true;
    }
    return impossible ? Item { bad, 0, 0 } : Item { ok, n, cp };
}

inline void gen(Form f, std::uint32_t cp, Seq& out)
{
    if (f == UCS || cp < 0x80) { out.push_back(cp); return; }
    if (f == U16) {
        if (cp < 0x10000) { out.push_back(cp); return; }
        out.push_back(0xD7C0 + (cp >> 10));
        out.push_back(0xDC00 | (cp & 0x3FF));
        return;
    }
    if (cp < 0x800) { out.push_back(0xC0 | cp >> 6); }
    else {
        if (cp < 0x10000) { out.push_back(0xE0 | cp >> 12); }
        else {
            out.push_back(0xF0 | cp >> 18);
            out.push_back(0x80 | (cp >> 12 & 0x3F));
        }
        out.push_back(0x80 | (cp >> 6 & 0x3F));
    }
    out.push_back(0x80 | (cp & 0x3F));
}

inline bool is_start(Form f, std::uint32_t v)
{
    if (f == U8) return v < 0x80 || (v >= 0xC0 && v < 0xF8);
    if (f == U16) return !(v >= 0xDC00 && v < 0xE000);
    return true;
}

struct Result { bool exhausted = false, error = false, early = false; std::size_t in, out; };

// Reference incremental transcoding; `limit` is largest code point that fits in output units
inline Result transcode(Form from, Form to, const Seq& in, std::size_t i, Seq& out, std::size_t space, std::uint32_t limit)
{
    Result r {};
    std::size_t o = 0;
    for (;;) {
        if (i == in.size()) { r.exhausted = true; break; }
        Item it = parse(from, in, i);
        if (it.status == incomplete) { r.exhausted = true; break; }
        if (it.status == early) { r.early = true; break; }
        if (it.status == bad || it.cp > limit) { r.error = true; break; }
        Seq u;
        gen(to, it.cp, u);
        if (o + u.size() > space)
            break;
        out.insert(out.end(), u.begin(), u.end());
        o += u.size();
        i += it.len;
    }
    r.in = i;
    r.out = o;
    return r;
}

inline Seq lenient(Form from, Form to, const Seq& in, std::uint32_t limit)
{
    Seq out;
    std::size_t i = 0;
    for (;;) {
        Result r = transcode(from, to, in, i, out, std::size_t(-1), limit);
        i = r.in;
        if (i == in.size())
            return out;
        ++i;
        while (i < in.size() && !is_start(from, in[i]))
            ++i;
        gen(to, 0xFFFD, out);
    }
}

inline std::string show(const Seq& s)
{
    std::string r;
    for (auto v : s) { char b[16]; std::snprintf(b, sizeof b, "%X ", unsigned(v)); r += b; }
    return r;
}

template<class C> std::vector<C> units(const Seq& s)
{
    std::vector<C> r;
    for (auto v : s) r.push_back(C(v));
    r.shrink_to_fit();
    return r;
}
template<class C> std::uint32_t unit(C c)
{
    return std::uint32_t(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char8_t>, char,
                         std::conditional_t<std::is_same_v<C, char16_t>, short,
                         std::conditional_t<std::is_same_v<C, char32_t>, int, C>>>>(c));
}

inline std::uint32_t random_cp(vf::Rng& r)
{
    static const std::uint32_t edges[] = { 0, 1, 0x7F, 0x80, 0x81, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000,
        0xFEFF, 0xFFFD, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1FFFE, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0xBF, 0xC0, 0xFF, 0x100 };
    for (;;) {
        std::uint32_t v;
        switch (r.below(6)) {
        case 0: v = edges[r.below(std::size(edges))]; break;
        case 1: v = std::uint32_t(r.below(0x80)); break;
        case 2: v = std::uint32_t(r.below(0x800)); break;
        case 3: v = std::uint32_t(r.below(0x10000)); break;
        case 4: v = std::uint32_t(0x10000 + r.below(0x100000)); break;
        default: v = edges[r.below(std::size(edges))] + std::uint32_t(r.below(5)) - 2; break;
        }
        if (valid_cp(v)) return v;
    }
}

// Random, mostly valid sequence in form f, of units not exceeding `max_unit`
inline Seq random_seq(vf::Rng& r, Form f, std::uint32_t max_unit, std::size_t max_len)
{
    Seq s;
    std::size_t n = r.below(max_len + 1);
    int badness = int(r.below(4)); // 0 -> all valid
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t mark = s.size();
        if (badness != 0 && r.chance(0.06 * badness)) {
            std::uint32_t v;
            switch (f) {
            case U8: {
                static const std::uint32_t b[] = { 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x9F, 0xA0, 0x8F, 0x90, 0xBE };
                v = b[r.below(std::size(b))];
                int k = int(r.below(4));
                s.push_back(v);
                for (int j = 0; j < k; ++j) s.push_back(b[r.chance(0.7) ? (r.chance(0.5) ? 0 : 1) : r.below(std::size(b))]);
                break;
            }
            case U16: {
                static const std::uint32_t b[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFE, 0xFFFF, 0xD7FF, 0xE000, 0xDBFF };
                s.push_back(b[r.below(std::size(b))]);
                if (r.chance(0.4)) s.push_back(b[r.below(std::size(b))]);
                break;
            }
            case UCS: {
                static const std::uint32_t b[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFE, 0xFFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE };
                s.push_back(b[r.below(std::size(b))]);
                break;
            }
            }
            if (max_unit > 0xFF && r.chance(0.2)) s.push_back(std::uint32_t(r.next()) & max_unit);
            if (max_unit > 0xFF && f == U8 && r.chance(0.3)) s.push_back(0x180 | (std::uint32_t(r.next()) & 0x3F));
        }
        else {
            gen(f, random_cp(r), s);
            if (badness == 3 && r.chance(0.1)) s.pop_back();
        }
        for (std::size_t j = mark; j < s.size(); ++j)
            if (s[j] > max_unit) s[j] = 0x41 + s[j] % 26;
    }
    if (badness != 0 && !s.empty() && r.chance(0.3)) s.pop_back();
    return s;
}

} // namespace c08
