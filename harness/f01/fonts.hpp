// Construction of fonts with various properties from the ones in the source tree
#pragma once
#include <vf.hpp>
#include <filesystem>
#include <map>
#include <string>
#include <vector>

namespace f01 {
using std::string;
using std::vector;

struct Ttf {
    std::map<string, string> tables;
    string build() const;
    int num_glyphs() const;
    void put16(const char* table, std::size_t at, int value);
};

string read_file(const std::filesystem::path&);
void write_file(const std::filesystem::path&, const string&);

struct FontFile {
    string what;
    Ttf ttf;
    bool scalable = true, bold = false, italic = false, mono = false, vertical = false, kern = false;
    string family;
    vector<std::pair<int, int>> strikes; // Fixed sizes in pixels
};

// A well-formed font
FontFile any_font(vf::Rng&);
} // namespace f01
