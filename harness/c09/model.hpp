// Reference model of the multi-byte encodings of the C and C.UTF-8 locales
#pragma once
#include <locale>
#include <string>
#include <vector>
#include <algorithm>
#include "vf.hpp"

namespace c09 {

enum Status { ok, incomplete, bad };
struct Item { Status status; std::size_t len; wchar_t ch; bool early; };

inline Item parse(bool utf8, const std::string& s, std::size_t i)
{
    auto byte = [&](std::size_t k) { return std::uint32_t((unsigned char)s[k]); };
    std::uint32_t a = byte(i);
    if (a < 0x80)
        return { ok, 1, wchar_t(a), false };
    // The C.UTF-8 locale of glibc uses the original definition of UTF-8 (RFC 2279), i.e.,
    // with sequences of up to 6 bytes, but it does reject surrogates.
    if (!utf8 || a < 0xC2 || a > 0xFD)
        return { bad, 0, 0, false };
    std::size_t n = a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF8 ? 4 : a < 0xFC ? 5 : 6;
    std::uint32_t cp = a & ((1u << (7 - n)) - 1);
    for (std::size_t k = 1; k < n; ++k) {
        if (i + k >= s.size())
            return { incomplete, 0, 0, false };
        std::uint32_t b = byte(i + k), lo = 0x80, hi = 0xBF;
        if (k == 1) {
            if (a == 0xE0) lo = 0xA0;
            if (a == 0xED) hi = 0x9F;
            if (a == 0xF0) lo = 0x90;
            if (a == 0xF8) lo = 0x88;
            if (a == 0xFC) lo = 0x84;
        }
        if (b < lo || b > hi) {
            // If the data ends before the announced end of the sequence, implementations
            // may legitimately be waiting for the rest
            return { bad, 0, 0, b >= 0x80 && b <= 0xBF && i + n > s.size() };
        }
        cp = cp << 6 | (b & 0x3F);
    }
    return { ok, n, wchar_t(cp), false };
}

inline bool can_encode(bool utf8, wchar_t ch)
{
    auto c = std::uint32_t(ch);
    return utf8 ? c < 0xD800 || (c >= 0xE000 && c < 0x80000000u) : c < 0x80;
}

inline std::string enc(wchar_t ch)
{
    auto c = std::uint32_t(ch);
    std::string s;
    if (c < 0x80) { s += char(c); }
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 0x3F)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 0x3F)); s += char(0x80 | (c & 0x3F)); }
    else {
        int n = c < 0x200000 ? 3 : c < 0x4000000 ? 4 : 5;
        s += char((0xFF00 >> (n + 1) & 0xFF) | c >> (6 * n));
        while (n > 0) s += char(0x80 | (c >> (6 * --n) & 0x3F));
    }
    return s;
}

struct Decoded {
    std::wstring text;               // Up to the problem
    std::vector<std::size_t> bounds; // bounds[k] is the end of the k'th character
    std::size_t pos = 0;             // Position of problem, or end of data
    Status status = ok;
    bool early = false;
};

inline Decoded decode(bool utf8, const std::string& s)
{
    Decoded d;
    while (d.pos < s.size()) {
        Item it = parse(utf8, s, d.pos);
        d.status = it.status;
        d.early = it.early;
        if (it.status != ok)
            break;
        d.text += it.ch;
        d.pos += it.len;
        d.bounds.push_back(d.pos);
    }
    return d;
}

inline wchar_t random_char(vf::Rng& r, bool utf8)
{
    switch (r.below(utf8 ? 8 : 2)) {
        case 0: return wchar_t(r.below(0x80));
        case 1: return r.pick({ L'\0', L'a', L'\n', L'\r', L' ', L'\x7F' });
        case 2: return wchar_t(0x80 + r.below(0x780));
        case 3: return r.pick({ L'\x80', L'\x7FF', L'\x800', L'\xD7FF', L'\xE000', L'\xFFFD', L'\xFFFF', wchar_t(0x10000), wchar_t(0x10FFFF) });
        case 4: case 5: return wchar_t(0x800 + r.below(0xD800 - 0x800));
        case 6: if (r.chance(1, 4)) return wchar_t(r.pick({ 0x110000u, 0x1FFFFFu, 0x200000u, 0x3FFFFFFu, 0x4000000u, 0x7FFFFFFFu })); [[fallthrough]];
        default: return wchar_t(0x10000 + r.below(0xD0000));
    }
}

inline wchar_t random_bad_char(vf::Rng& r, bool utf8)
{
    if (utf8)
        return r.chance(1, 2) ? wchar_t(0xD800 + r.below(0x800)) : r.pick({ wchar_t(-1), wchar_t(-2), wchar_t(-0x7FFFFFFF) });
    return r.pick({ wchar_t(0x80), wchar_t(0xFF), wchar_t(0x100), wchar_t(0x20AC), wchar_t(0x1F600), wchar_t(-1), wchar_t(0xFFFD) });
}

inline std::wstring random_text(vf::Rng& r, bool utf8, std::size_t n)
{
    std::wstring s;
    while (s.size() < n)
        s += random_char(r, utf8);
    return s;
}

inline std::string encode_all(const std::wstring& s)
{
    std::string r;
    for (wchar_t ch : s) r += enc(ch);
    return r;
}

// Valid text with occasional corruption
inline std::string random_bytes(vf::Rng& r, bool utf8, std::size_t n, bool corrupt)
{
    std::string s;
    while (s.size() < n) {
        if (corrupt && r.chance(1, 6)) {
            switch (r.below(4)) {
                case 0: s += char(r.below(256)); break;
                case 1: s += char(0x80 + r.below(128)); break;
                case 2: { auto e = enc(random_char(r, true)); s += e.substr(0, 1 + r.below(e.size())); break; }
                default: s += r.pick({ "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80", "\xE0\x9F\xBF", "\xF0\x8F\xBF\xBF", "\xFF", "\xFE", "\xF8\x87\xBF\xBF\xBF", "\xFC\x83\xBF\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80" });
            }
        }
        else {
            s += enc(random_char(r, utf8));
        }
    }
    return s;
}

// Check that `text` is a valid lenient decoding of `s`. Every valid sequence must show up in
// its place, and every run of L bytes that does not belong to a valid sequence must have
// produced between 1 and L replacement characters.
inline bool lenient_ok(bool utf8, const std::string& s, const std::wstring& text, wchar_t repl)
{
    // set of reachable positions in text
    std::vector<bool> cur(text.size() + 1), next;
    cur[0] = true;
    std::size_t i = 0;
    while (i < s.size()) {
        Item it = parse(utf8, s, i);
        next.assign(text.size() + 1, false);
        if (it.status == ok) {
            for (std::size_t k = 0; k < text.size(); ++k)
                if (cur[k] && text[k] == it.ch)
                    next[k + 1] = true;
            i += it.len;
        }
        else {
            std::size_t e = i;
            while (e < s.size() && parse(utf8, s, e).status != ok)
                ++e;
            std::size_t run = e - i;
            for (std::size_t k = 0; k < text.size(); ++k) {
                if (!cur[k])
                    continue;
                for (std::size_t m = 1; m <= run && k + m <= text.size() && text[k + m - 1] == repl; ++m)
                    next[k + m] = true;
            }
            i = e;
        }
        cur.swap(next);
    }
    return cur[text.size()];
}

template<class C> std::string show(const std::basic_string<C>& s)
{
    std::ostringstream o;
    o << std::hex;
    for (C ch : s) o << (std::uint32_t(ch) & (sizeof(C) == 1 ? 0xFF : ~0u)) << ' ';
    return o.str();
}

inline const std::locale& locale(bool utf8)
{
    static std::locale c = std::locale::classic(), u("C.UTF-8");
    return utf8 ? u : c;
}

// Newline model
inline std::string nl_decode(const std::string& s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')
            continue;
        r += s[i];
    }
    return r;
}
template<class C> std::basic_string<C> nl_encode(const std::basic_string<C>& s)
{
    std::basic_string<C> r;
    for (C ch : s) {
        if (ch == '\n') r += C('\r');
        r += ch;
    }
    return r;
}

} // namespace c09
