#include "oracle.hpp"
#include <png.h>
#include <cstring>

namespace g04 {

std::ostream& operator<<(std::ostream& out, const Png& p)
{
    return out << p.width << "x" << p.height << " type " << p.type << " depth " << p.depth << (p.interlaced ? " interlaced" : "")
               << " palette " << p.palette.size() << "/" << p.palette_alpha.size() << (p.has_key ? " key" : "");
}

Png any_png(vf::Rng& rng, int max_size)
{
    Png p;
    p.type = rng.pick({ int(gray), int(rgb), int(indexed), int(gray_alpha), int(rgb_alpha) });
    p.depth = p.type == gray ? 1 << rng.below(5) : p.type == indexed ? 1 << rng.below(4) : 8 << rng.below(2);
    p.width = 1 + int(rng.chance(1, 4) ? rng.below(std::size_t(4)) : rng.below(std::size_t(max_size)));
    p.height = 1 + int(rng.chance(1, 4) ? rng.below(std::size_t(4)) : rng.below(std::size_t(max_size)));
    p.interlaced = rng.chance(1, 2);
    std::size_t range = std::size_t(p.max()) + 1;
    if (p.type == indexed) {
        std::size_t n = 1 + (rng.chance(1, 3) ? range - 1 : rng.below(range));
        for (std::size_t i = 0; i < n; ++i)
            p.palette.push_back({ int(rng.below(256)), int(rng.below(256)), int(rng.below(256)) });
        if (rng.chance(1, 2)) {
            std::size_t k = 1 + rng.below(n);
            for (std::size_t i = 0; i < k; ++i)
                p.palette_alpha.push_back(rng.chance(1, 4) ? 255 : int(rng.below(256)));
        }
        range = n;
    }
    bool dull = rng.chance(1, 3); // Few distinct values
    std::uint16_t a = std::uint16_t(rng.below(range)), b = std::uint16_t(rng.below(range));
    std::size_t n = std::size_t(p.width) * std::size_t(p.height) * std::size_t(p.spp());
    for (std::size_t i = 0; i < n; ++i)
        p.samples.push_back(dull ? (rng.chance(1, 2) ? a : b) : std::uint16_t(rng.below(range)));
    if ((p.type == gray || p.type == rgb) && rng.chance(1, 3)) {
        p.has_key = true;
        std::size_t k = rng.below(n / std::size_t(p.spp()));
        for (int i = 0; i < p.spp(); ++i)
            p.key[std::size_t(i)] = p.samples[k * std::size_t(p.spp()) + std::size_t(i)];
    }
    return p;
}

namespace {
[[noreturn]] void on_error(png_structp, png_const_charp message)
{
    throw std::runtime_error(message);
}
void on_warning(png_structp, png_const_charp) {}
void on_write(png_structp p, png_bytep data, std::size_t n)
{
    static_cast<std::string*>(png_get_io_ptr(p))->append(reinterpret_cast<char*>(data), n);
}
void on_flush(png_structp) {}
struct In {
    const std::string& data;
    std::size_t pos = 0;
};
void on_read(png_structp p, png_bytep data, std::size_t n)
{
    In& in = *static_cast<In*>(png_get_io_ptr(p));
    if (in.data.size() - in.pos < n)
        throw std::runtime_error("premature end");
    std::memcpy(data, in.data.data() + in.pos, n);
    in.pos += n;
}
} // unnamed namespace

std::string encode(const Png& p, vf::Rng& rng)
{
    std::string out;
    png_structp png = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, on_error, on_warning);
    png_infop info = png_create_info_struct(png);
    png_set_write_fn(png, &out, on_write, on_flush);
    png_set_IHDR(png, info, png_uint_32(p.width), png_uint_32(p.height), p.depth, p.type,
                 p.interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT,
                 PNG_FILTER_TYPE_DEFAULT);
    png_set_compression_level(png, int(rng.below(4)));
    if (rng.chance(1, 3))
        png_set_filter(png, 0, rng.pick({ PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS }));
    if (rng.chance(1, 3))
        png_set_compression_buffer_size(png, 6 + rng.below(60));
    vector<png_color> pal;
    for (auto& c : p.palette)
        pal.push_back({ png_byte(c[0]), png_byte(c[1]), png_byte(c[2]) });
    if (!pal.empty())
        png_set_PLTE(png, info, pal.data(), int(pal.size()));
    vector<png_byte> alpha(p.palette_alpha.begin(), p.palette_alpha.end());
    if (!alpha.empty())
        png_set_tRNS(png, info, alpha.data(), int(alpha.size()), nullptr);
    if (p.has_key) {
        png_color_16 key = {};
        key.gray = key.red = png_uint_16(p.key[0]);
        key.green = png_uint_16(p.key[1]);
        key.blue = png_uint_16(p.key[2]);
        png_set_tRNS(png, info, nullptr, 0, &key);
    }
    // Decoration that has no influence on the stored pixel values
    char keyword[] = "Comment", text[] = "some text";
    png_text t = {};
    if (rng.chance(1, 4)) {
        t.compression = rng.chance(1, 2) ? PNG_TEXT_COMPRESSION_NONE : PNG_TEXT_COMPRESSION_zTXt;
        t.key = keyword;
        t.text = text;
        t.text_length = sizeof text - 1;
        png_set_text(png, info, &t, 1);
    }
    if (rng.chance(1, 4))
        png_set_gAMA(png, info, rng.pick({ 1.0, 0.45455, 2.2 }));
    if (rng.chance(1, 5))
        png_set_pHYs(png, info, 3000, 3000, PNG_RESOLUTION_METER);
    if (rng.chance(1, 5) && p.type != indexed) {
        png_color_16 bg = {};
        bg.gray = bg.red = png_uint_16(rng.below(std::size_t(p.max()) + 1));
        png_set_bKGD(png, info, &bg);
    }
    if (rng.chance(1, 5)) {
        png_color_8 sig = {};
        sig.red = sig.green = sig.blue = sig.gray = sig.alpha = png_byte(1 + rng.below(std::size_t(p.type == indexed ? 8 : p.depth)));
        png_set_sBIT(png, info, &sig);
    }
    png_write_info(png, info);
    // Unknown (ancillary, or private) chunk
    if (rng.chance(1, 4))
        png_write_chunk(png, reinterpret_cast<png_const_bytep>("vfXx"), reinterpret_cast<png_const_bytep>("payload"), 7);
    std::size_t row_samples = std::size_t(p.width) * std::size_t(p.spp());
    vector<vector<png_byte>> rows;
    for (int y = 0; y < p.height; ++y) {
        vector<png_byte> row((row_samples * std::size_t(p.depth) + 7) / 8);
        for (std::size_t i = 0; i < row_samples; ++i) {
            unsigned v = p.samples[std::size_t(y) * row_samples + i];
            if (p.depth == 16) {
                row[2 * i] = png_byte(v >> 8);
                row[2 * i + 1] = png_byte(v & 255);
            }
            else {
                std::size_t bit = i * std::size_t(p.depth);
                row[bit / 8] = png_byte(row[bit / 8] | (v << (8 - p.depth - int(bit % 8))));
            }
        }
        rows.push_back(std::move(row));
    }
    vector<png_bytep> ptrs;
    for (auto& r : rows)
        ptrs.push_back(r.data());
    png_write_image(png, ptrs.data());
    png_write_end(png, info);
    png_destroy_write_struct(&png, &info);
    return out;
}

std::string decode(const std::string& data, Png& p)
{
    In in { data };
    png_structp png = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, on_error, on_warning);
    png_infop info = png_create_info_struct(png);
    std::string problem;
    try {
        png_set_read_fn(png, &in, on_read);
        png_read_info(png, info);
        p = {};
        p.width = int(png_get_image_width(png, info));
        p.height = int(png_get_image_height(png, info));
        p.depth = png_get_bit_depth(png, info);
        p.type = png_get_color_type(png, info);
        p.interlaced = png_get_interlace_type(png, info) != PNG_INTERLACE_NONE;
        p.has_key = png_get_valid(png, info, PNG_INFO_tRNS) != 0;
        std::size_t bytes = png_get_rowbytes(png, info);
        vector<vector<png_byte>> rows(std::size_t(p.height), vector<png_byte>(bytes));
        vector<png_bytep> ptrs;
        for (auto& r : rows)
            ptrs.push_back(r.data());
        png_read_image(png, ptrs.data());
        png_read_end(png, info);
        std::size_t row_samples = std::size_t(p.width) * std::size_t(p.spp());
        for (auto& row : rows) {
            for (std::size_t i = 0; i < row_samples; ++i) {
                if (p.depth == 16) {
                    p.samples.push_back(std::uint16_t(row[2 * i] << 8 | row[2 * i + 1]));
                }
                else {
                    std::size_t bit = i * std::size_t(p.depth);
                    p.samples.push_back(std::uint16_t((row[bit / 8] >> (8 - p.depth - int(bit % 8))) & p.max()));
                }
            }
        }
        if (in.pos != data.size())
            problem = "garbage after end of file";
    }
    catch (std::runtime_error& e) {
        problem = e.what();
    }
    png_destroy_read_struct(&png, &info, nullptr);
    return problem;
}

void fix_crcs(std::string& data)
{
    std::size_t pos = 8;
    auto u32 = [&](std::size_t at) {
        unsigned long v = 0;
        for (std::size_t i = 0; i < 4; ++i)
            v = v << 8 | static_cast<unsigned char>(data[at + i]);
        return v;
    };
    while (pos + 12 <= data.size()) {
        std::size_t n = u32(pos);
        if (n > data.size() - pos - 12)
            break;
        unsigned long crc = 0xFFFFFFFF;
        for (std::size_t i = pos + 4; i < pos + 8 + n; ++i) {
            crc ^= static_cast<unsigned char>(data[i]);
            for (int k = 0; k < 8; ++k)
                crc = (crc >> 1) ^ (crc & 1 ? 0xEDB88320ul : 0);
        }
        crc ^= 0xFFFFFFFF;
        for (std::size_t i = 0; i < 4; ++i)
            data[pos + 8 + n + i] = char((crc >> (24 - 8 * i)) & 255);
        pos += 12 + n;
    }
}

Truth truth(const Png& p)
{
    Truth t;
    t.lum = (p.type == gray || p.type == gray_alpha);
    t.alpha = (p.type == gray_alpha || p.type == rgb_alpha || p.has_key || !p.palette_alpha.empty());
    t.wide = (p.depth == 16);
    int top = t.wide ? 65535 : 255;
    for (int y = 0; y < p.height; ++y) {
        for (int x = 0; x < p.width; ++x) {
            if (p.type == indexed) {
                std::size_t i = std::size_t(p.at(x, y, 0));
                for (int v : p.palette[i])
                    t.comps.push_back(v);
                if (t.alpha)
                    t.comps.push_back(i < p.palette_alpha.size() ? p.palette_alpha[i] : 255);
                continue;
            }
            bool match = p.has_key;
            for (int k = 0; k < p.spp(); ++k) {
                int v = p.at(x, y, k);
                match = match && v == p.key[std::size_t(k)];
                t.comps.push_back(v * (top / p.max()));
            }
            if (p.has_key)
                t.comps.push_back(match ? 0 : top);
        }
    }
    return t;
}

} // namespace g04
