#pragma once
#include <fstream>
#include <filesystem>
#include <memory>
#include <iterator>
#include <vector>
#include <optional>
#include <archon/core/buffer.hpp>
#include <archon/core/file.hpp>
#include <archon/core/text_file_error.hpp>
#include "../c09/model.hpp"

namespace c10 {

using namespace archon;
using namespace c09;

inline std::string slurp(const std::filesystem::path& path)
{
    std::ifstream in(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), {});
}
inline void spit(const std::filesystem::path& path, const std::string& data)
{
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    out << data;
}

// What can be read from a position
template<class C> struct View {
    std::basic_string<C> text;
    std::vector<std::size_t> ends; // File offsets of ends of characters
    bool error = false;            // Invalid sequence follows
    bool incomplete = false;       // Incomplete sequence at the end of the file follows
    bool early = false;
};

// In dynamic end-of-file mode, a final CR may turn out to be the first half of CR LF
template<class C> View<C> view(std::string content, std::size_t pos, bool windows, bool utf8, bool dynamic_eof = false)
{
    View<C> v;
    std::string raw;
    if (windows && dynamic_eof && content.size() > pos && content.back() == '\r')
        content.pop_back();
    std::vector<std::size_t> map; // Ends of raw bytes in file
    for (std::size_t i = pos; i < content.size(); ) {
        bool crlf = windows && content[i] == '\r' && i + 1 < content.size() && content[i + 1] == '\n';
        raw += crlf ? '\n' : content[i];
        i += crlf ? 2 : 1;
        map.push_back(i);
    }
    if constexpr (std::is_same_v<C, char>) {
        v.text = raw;
        v.ends = map;
    }
    else {
        Decoded d = decode(utf8, raw);
        v.text = d.text;
        for (auto b : d.bounds) v.ends.push_back(map[b - 1]);
        v.error = (d.status == bad);
        v.incomplete = (d.status == incomplete);
        v.early = d.early;
    }
    return v;
}

// The model of a text file
template<class C> struct Model {
    bool windows = false, utf8 = true, dynamic_eof = false;
    std::string content;
    std::size_t pos = 0;
    View<C> look() const { return view<C>(content, pos, windows, utf8, dynamic_eof); }
    static std::string encode(const std::basic_string<C>& s, bool windows)
    {
        std::basic_string<C> t = windows ? nl_encode(s) : s;
        if constexpr (std::is_same_v<C, char>) return t;
        else return encode_all(t);
    }
    void write(const std::basic_string<C>& s)
    {
        std::string b = encode(s, windows);
        if (content.size() < pos + b.size()) content.resize(pos + b.size());
        std::copy(b.begin(), b.end(), content.begin() + std::ptrdiff_t(pos));
        pos += b.size();
    }
    void read(const View<C>& v, std::size_t n) { if (n > 0) pos = v.ends[n - 1]; }
};

template<class C> std::basic_string<C> some_text(vf::Rng& r, bool utf8, std::size_t n, bool cr = true)
{
    std::basic_string<C> s;
    while (s.size() < n) {
        if (r.chance(1, 4)) s += C(cr && r.chance(1, 4) ? '\r' : '\n');
        else if constexpr (std::is_same_v<C, char>) s += char(r.below(256));
        else s += random_char(r, utf8);
    }
    if (!cr) std::erase(s, C('\r'));
    return s;
}

// Content of a preexisting file
template<class C> std::string some_content(vf::Rng& r, bool utf8, bool windows, std::size_t n)
{
    std::string s = Model<C>::encode(some_text<C>(r, utf8, n), windows && r.chance(3, 4));
    if (!s.empty() && r.chance(1, 5)) {
        if (r.chance(1, 2)) s[r.below(s.size())] = char(r.below(256));
        else s.resize(r.below(s.size()));
    }
    return s;
}

} // namespace c10
