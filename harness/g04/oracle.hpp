// Independent PNG encoder and decoder (plain libpng, no transformations), and streams that
// misbehave on demand
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

#include "vf.hpp"
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/misc_error.hpp>
#include <archon/log.hpp>
#include <archon/image.hpp>
#include <archon/image/file_format_png.hpp>
#include <archon/image/file_format_registry.hpp>
#include <archon/image/computed_image.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/channel_packing.hpp>

namespace g04 {
using namespace archon;
using std::vector;

enum Type { gray = 0, rgb = 2, indexed = 3, gray_alpha = 4, rgb_alpha = 6 };

inline int samples_per_pixel(int type)
{
    return type == rgb ? 3 : type == gray_alpha ? 2 : type == rgb_alpha ? 4 : 1;
}

struct Png {
    int width = 0, height = 0, depth = 8, type = rgb;
    bool interlaced = false;
    vector<std::uint16_t> samples;
    vector<std::array<int, 3>> palette;
    vector<int> palette_alpha;
    bool has_key = false;
    std::array<int, 3> key = {};

    int spp() const { return samples_per_pixel(type); }
    int max() const { return (1 << depth) - 1; }
    int at(int x, int y, int i) const { return samples[(std::size_t(y) * std::size_t(width) + std::size_t(x)) * std::size_t(spp()) + std::size_t(i)]; }
};

std::ostream& operator<<(std::ostream&, const Png&);

Png any_png(vf::Rng&, int max_size);
std::string encode(const Png&, vf::Rng&);
// Returns an explanation on failure
std::string decode(const std::string& data, Png&);
void fix_crcs(std::string& data);

// Shape of the image that is expected when the specified file is loaded
struct Truth {
    bool lum = false, alpha = false, wide = false;
    vector<int> comps;
};
Truth truth(const Png&);

struct Boom {};

struct Chunky : core::Source {
    const std::string& data;
    vf::Rng rng;
    std::size_t max_chunk = 0; // 0 for unlimited
    std::size_t pos = 0;
    long calls = 0;
    long fail_at = -1;
    bool do_throw = false;
    std::error_code error;
    bool failed = false;
    bool misuse = false;
    Chunky(const std::string& d, std::uint64_t seed) : data(d), rng(seed) {}
    bool do_try_read_some(core::Span<char> buffer, std::size_t& n, std::error_code& ec) override
    {
        if (buffer.empty())
            misuse = true;
        if (calls++ == fail_at) {
            failed = true;
            if (do_throw)
                throw Boom();
            ec = error;
            return false;
        }
        std::size_t k = std::min(buffer.size(), data.size() - pos);
        if (max_chunk > 0 && k > 1)
            k = std::min<std::size_t>(k, 1 + rng.below(max_chunk));
        std::copy_n(data.data() + pos, k, buffer.data());
        pos += k;
        n = k;
        return true;
    }
};

struct Drain : core::Sink {
    std::string data;
    long calls = 0;
    long fail_at = -1;
    bool do_throw = false;
    bool failed = false;
    std::error_code error;
    bool do_try_write(core::Span<const char> d, std::size_t& n, std::error_code& ec) override
    {
        if (calls++ == fail_at) {
            failed = true;
            if (do_throw)
                throw Boom();
            n = 0;
            ec = error;
            return false;
        }
        data.append(d.data(), d.size());
        n = d.size();
        return true;
    }
};

struct Tracker : image::ProgressTracker {
    vector<std::pair<int, int>> calls;
    long fail_at = -1;
    bool failed = false;
    bool bad_image = false;
    image::Size size;
    void progress(const image::Image& img, int done, int total) override
    {
        if (img.get_size() != size)
            bad_image = true;
        if (long(calls.size()) == fail_at) {
            failed = true;
            throw Boom();
        }
        calls.emplace_back(done, total);
    }
    // Explanation if protocol was violated
    std::string verdict() const
    {
        if (bad_image)
            return "image has wrong size";
        if (calls.empty())
            return "no notifications";
        double last = 0;
        for (auto [done, total] : calls) {
            if (total < 1 || done < 0 || done > total)
                return "bad notification " + std::to_string(done) + "/" + std::to_string(total);
            double frac = double(done) / total;
            if (frac < last)
                return "progress decreased";
            last = frac;
        }
        if (calls.back().first != calls.back().second)
            return "no final notification";
        return {};
    }
};

} // namespace g04
