#include "fonts.hpp"
#include <algorithm>
#include <fstream>
#include <iterator>

namespace f01 {
namespace {
void put(string& s, std::uint64_t v, int bytes)
{
    while (bytes-- > 0)
        s.push_back(char(v >> (8 * bytes)));
}
std::uint64_t get(const string& s, std::size_t at, int bytes)
{
    std::uint64_t v = 0;
    for (int i = 0; i < bytes; ++i)
        v = v << 8 | static_cast<unsigned char>(s.at(at + std::size_t(i)));
    return v;
}
Ttf parse(const string& s)
{
    Ttf f;
    std::size_t n = get(s, 4, 2);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t at = 12 + 16 * i;
        f.tables[s.substr(at, 4)] = s.substr(get(s, at + 8, 4), get(s, at + 12, 4));
    }
    return f;
}
} // unnamed namespace

string Ttf::build() const
{
    string head, body;
    put(head, 0x00010000, 4);
    put(head, tables.size(), 2);
    put(head, 0, 6);
    std::size_t base = 12 + 16 * tables.size();
    for (auto& [name, data] : tables) {
        head += name;
        put(head, 0, 4);
        put(head, base + body.size(), 4);
        put(head, data.size(), 4);
        body += data;
        while (body.size() % 4 != 0)
            body.push_back('\0');
    }
    return head + body;
}

int Ttf::num_glyphs() const
{
    return int(get(tables.at("maxp"), 4, 2));
}

void Ttf::put16(const char* table, std::size_t at, int value)
{
    string& t = tables.at(table);
    t.at(at) = char(value >> 8);
    t.at(at + 1) = char(value);
}

string read_file(const std::filesystem::path& path)
{
    std::ifstream in(path, std::ios::binary);
    return { std::istreambuf_iterator<char>(in), {} };
}

void write_file(const std::filesystem::path& path, const string& s)
{
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    out.write(s.data(), std::streamsize(s.size()));
}

FontFile any_font(vf::Rng& rng)
{
    static const Ttf fonts[2] = { parse(read_file(FONT_DIR "/LiberationMono-Regular.ttf")), parse(read_file(FONT_DIR "/LiberationSans-Regular.ttf")) };
    FontFile f;
    std::size_t i = rng.below(2);
    f.ttf = fonts[i];
    f.what = i == 0 ? "mono" : "sans";
    f.family = i == 0 ? "Liberation Mono" : "Liberation Sans";
    f.mono = i == 0;
    f.kern = i == 1;
    if (rng.chance(1, 3))
        return f;
    if (rng.chance(1, 2)) {
        f.bold = rng.chance(1, 2);
        f.italic = rng.chance(1, 2);
        f.what += f.bold ? " bold" : "";
        f.what += f.italic ? " italic" : "";
        int v = int(get(f.ttf.tables["OS/2"], 62, 2)) & ~0x261;
        f.ttf.put16("OS/2", 62, v | (f.bold ? 0x20 : 0) | (f.italic ? 1 : 0) | (!f.bold && !f.italic ? 0x40 : 0));
        f.ttf.put16("head", 44, int(f.bold) + 2 * int(f.italic));
    }
    if (rng.chance(1, 3)) {
        f.what += " line-metrics";
        int a = int(rng.range(-3000, 3000)), d = int(rng.range(-3000, 500));
        if (a <= d)
            std::swap(a, d);
        if (a == 0 && d == 0)
            a = 1;
        f.ttf.put16("hhea", 4, a);
        f.ttf.put16("hhea", 6, d);
        f.ttf.put16("hhea", 8, rng.chance(1, 2) ? 0 : int(rng.below(800)));
    }
    int n = f.ttf.num_glyphs();
    if (rng.chance(1, 3)) {
        f.what += " vertical";
        f.vertical = true;
        string head, mtx;
        put(head, 0x00010000, 4);
        for (int v : { 1000, -1000, 0, 2400 })
            put(head, std::uint64_t(v), 2);
        for (int k = 0; k < 11; ++k)
            put(head, 0, 2);
        put(head, std::uint64_t(n), 2);
        for (int k = 0; k < n; ++k) {
            put(mtx, 1800 + rng.below(600), 2);
            put(mtx, std::uint64_t(rng.range(-300, 500)), 2);
        }
        f.ttf.tables["vhea"] = head;
        f.ttf.tables["vmtx"] = mtx;
    }
    if (rng.chance(1, 2)) {
        f.what += " sizes";
        f.scalable = rng.chance(1, 2);
        f.what += f.scalable ? "" : " not-scalable";
        int m = 1 + int(rng.below(4));
        for (int k = 0; k < m; ++k) {
            std::pair<int, int> size { 5 + int(rng.below(40)), 0 };
            size.second = f.scalable && rng.chance(1, 2) ? 5 + int(rng.below(40)) : size.first;
            if (std::find(f.strikes.begin(), f.strikes.end(), size) == f.strikes.end())
                f.strikes.push_back(size);
        }
        for (auto s : f.strikes)
            f.what += " " + std::to_string(s.first) + "x" + std::to_string(s.second);
        string table, strikes;
        if (f.scalable) {
            // Without any bitmaps
            put(table, 0x00020000, 4);
            put(table, f.strikes.size(), 4);
            for (auto s : f.strikes) {
                for (int j = 0; j < 44; ++j)
                    put(table, 0, 1);
                put(table, std::uint64_t(s.first), 1);
                put(table, std::uint64_t(s.second), 1);
                put(table, 8, 1);
                put(table, 1, 1);
            }
            f.ttf.tables["EBLC"] = table;
            put(f.ttf.tables["EBDT"], 0x00020000, 4);
        }
        else {
            put(table, 1, 2);
            put(table, 1, 2);
            put(table, f.strikes.size(), 4);
            for (auto s : f.strikes) {
                put(table, 8 + 4 * f.strikes.size() + strikes.size(), 4);
                put(strikes, std::uint64_t(s.first), 2);
                put(strikes, 72, 2);
                for (int j = 0; j <= n; ++j)
                    put(strikes, 4 + 4 * std::uint64_t(n + 1), 4);
            }
            f.ttf.tables["sbix"] = table + strikes;
            for (auto t : { "glyf", "loca", "cvt ", "fpgm", "prep" })
                f.ttf.tables.erase(t);
        }
    }
    return f;
}
} // namespace f01
