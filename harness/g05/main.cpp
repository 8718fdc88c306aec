// Descriptions of buffer formats. The layout of a format is the position in memory of every bit of
// every channel of every pixel. It is computed here from the documentation of each kind of format.
// Two formats are equivalent when they have the same layout.
#include "../g04/images.cpp"
#include <archon/image/buffer_format.hpp>
#include <optional>

namespace {
using namespace g04;
using BF = image::BufferFormat;
using IT = BF::IntegerType;
using core::Endianness;
using std::string;

int bytes_of(IT t)
{
    switch (t) {
        case IT::byte:
        case IT::char_: return 1;
        case IT::short_: return int(sizeof(short));
        case IT::int_: return int(sizeof(int));
        case IT::long_: return int(sizeof(long));
        case IT::llong: return int(sizeof(long long));
    }
    return 0;
}

using Bits = vector<int>;           // Bit positions, most significant first
using Layout = vector<vector<Bits>>; // By pixel and channel

// Channel in each slot of pixel, in the order that they are stored
vector<int> slots(const BF::ChannelConf& conf)
{
    int n = conf.color_space->get_num_channels();
    vector<int> v;
    if (conf.has_alpha && conf.alpha_channel_first)
        v.push_back(n);
    for (int i = 0; i < n; ++i)
        v.push_back(i);
    if (conf.has_alpha && !conf.alpha_channel_first)
        v.push_back(n);
    if (conf.reverse_order)
        std::reverse(v.begin(), v.end());
    return v;
}

// Bits of compound made from consecutive words, most significant first
Bits compound(int first_word, int words, int bits_per_word, int bytes_per_word, Endianness order)
{
    Bits b;
    for (int i = 0; i < words; ++i) {
        int w = first_word + (order == Endianness::big ? i : words - 1 - i);
        for (int k = bits_per_word - 1; k >= 0; --k) {
            // The host is little endian
            b.push_back((w * bytes_per_word + k / 8) * 8 + k % 8);
        }
    }
    return b;
}

Layout layout(const BF::IntegerFormat& f, int w, int h)
{
    Layout l;
    int word = 0, s = bytes_of(f.word_type);
    vector<int> order = slots(f.channel_conf);
    for (int i = 0; i < w * h; ++i) {
        vector<Bits> px(order.size());
        for (int ch : order) {
            px[std::size_t(ch)] = compound(word, f.words_per_channel, f.bits_per_word, s, f.word_order);
            word += f.words_per_channel;
        }
        l.push_back(px);
    }
    return l;
}

Layout layout(const BF::PackedFormat& f, int w, int h)
{
    Layout l;
    int word = 0, s = bytes_of(f.word_type);
    vector<int> order = slots(f.channel_conf);
    for (int i = 0; i < w * h; ++i) {
        vector<Bits> px(order.size());
        Bits all = compound(word, f.words_per_pixel, f.bits_per_word, s, f.word_order);
        word += f.words_per_pixel;
        std::size_t end = all.size();
        for (std::size_t k = order.size(); k > 0; --k) {
            auto& field = f.bit_fields[k - 1];
            end -= std::size_t(field.gap);
            px[std::size_t(order[k - 1])] = Bits(all.begin() + std::ptrdiff_t(end) - field.width, all.begin() + std::ptrdiff_t(end));
            end -= std::size_t(field.width);
        }
        l.push_back(px);
    }
    return l;
}

Layout layout(const BF::SubwordFormat& f, int w, int h)
{
    Layout l;
    int s = bytes_of(f.word_type), word = 0, at = 0;
    vector<int> order = slots(f.channel_conf);
    int n = int(order.size()), b = f.bits_per_channel;
    for (int y = 0; y < h; ++y) {
        for (int x = 0; x < w; ++x) {
            if (at == f.pixels_per_word) {
                at = 0;
                ++word;
            }
            vector<Bits> px(order.size());
            int slot = f.bit_order == Endianness::big ? f.pixels_per_word - 1 - at : at;
            Bits bits = compound(word, 1, (slot + 1) * n * b, s, Endianness::big);
            for (int k = 0; k < n; ++k)
                px[std::size_t(order[std::size_t(k)])] = Bits(bits.begin() + k * b, bits.begin() + (k + 1) * b);
            l.push_back(px);
            ++at;
        }
        if (f.word_aligned_rows)
            at = f.pixels_per_word;
    }
    return l;
}

// Index as the one channel
Layout layout(const BF::IndexedFormat& f, int w, int h)
{
    Layout l;
    int s = bytes_of(f.word_type), comp = 0, at = 0;
    for (int y = 0; y < h; ++y) {
        for (int x = 0; x < w; ++x) {
            if (at == f.pixels_per_compound) {
                at = 0;
                ++comp;
            }
            int slot = f.bit_order == Endianness::big ? f.pixels_per_compound - 1 - at : at;
            Bits bits = compound(comp * f.words_per_compound, f.words_per_compound, f.bits_per_word, s, f.word_order);
            std::ptrdiff_t e = std::ptrdiff_t(bits.size()) - slot * f.bits_per_pixel;
            l.push_back({ Bits(bits.begin() + e - f.bits_per_pixel, bits.begin() + e) });
            ++at;
        }
        if (f.compound_aligned_rows)
            at = f.pixels_per_compound;
    }
    return l;
}

bool valid(const BF::IntegerFormat& f)
{
    return f.bits_per_word >= 1 && f.words_per_channel >= 1 && f.bits_per_word <= 8 * bytes_of(f.word_type) &&
        std::int64_t(f.bits_per_word) * f.words_per_channel <= INT32_MAX;
}

bool valid(const BF::PackedFormat& f)
{
    if (f.bits_per_word < 1 || f.words_per_pixel < 1 || f.bits_per_word > 8 * bytes_of(f.word_type) ||
        std::int64_t(f.bits_per_word) * f.words_per_pixel > INT32_MAX)
        return false;
    int n = f.channel_conf.color_space->get_num_channels() + int(f.channel_conf.has_alpha);
    std::int64_t sum = 0;
    for (int i = 0; i < n; ++i) {
        if (f.bit_fields[i].width < 1 || f.bit_fields[i].gap < 0)
            return false;
        sum += std::int64_t(f.bit_fields[i].width) + f.bit_fields[i].gap;
    }
    return sum <= std::int64_t(f.bits_per_word) * f.words_per_pixel;
}

bool valid(const BF::SubwordFormat& f)
{
    int n = f.channel_conf.color_space->get_num_channels() + int(f.channel_conf.has_alpha);
    return f.bits_per_channel >= 1 && f.pixels_per_word >= 1 &&
        __int128(f.bits_per_channel) * n * f.pixels_per_word <= 8 * bytes_of(f.word_type);
}

bool valid(const BF::IndexedFormat& f)
{
    std::int64_t bits = std::int64_t(f.bits_per_word) * f.words_per_compound;
    return f.bits_per_pixel >= 1 && f.pixels_per_compound >= 1 && f.bits_per_word >= 1 && f.words_per_compound >= 1 &&
        f.bits_per_word <= 8 * bytes_of(f.word_type) && bits <= INT32_MAX &&
        std::int64_t(f.bits_per_pixel) * f.pixels_per_compound <= bits;
}

const char* str(Endianness e) { return e == Endianness::big ? "big" : "little"; }
const char* str(IT t)
{
    static const char* const names[] = { "byte", "char", "short", "int", "long", "llong" };
    return names[int(t)];
}
void print(std::ostream& out, const BF::ChannelConf& c)
{
    out << c.color_space->get_num_channels() << (c.has_alpha ? (c.alpha_channel_first ? " a+" : " +a") : "") << (c.reverse_order ? " reversed" : "");
}
string text(const BF::ChannelConf& c)
{
    std::ostringstream out;
    print(out, c);
    return out.str();
}
string text(const BF& f)
{
    std::ostringstream out;
    switch (f.type) {
        case BF::Type::integer: {
            auto& g = f.integer;
            out << "integer " << str(g.word_type) << " bits=" << g.bits_per_word << " words=" << g.words_per_channel << " " << str(g.word_order) << " " << text(g.channel_conf);
            break;
        }
        case BF::Type::packed: {
            auto& g = f.packed;
            out << "packed " << str(g.word_type) << " bits=" << g.bits_per_word << " words=" << g.words_per_pixel << " " << str(g.word_order) << " " << text(g.channel_conf) << " fields";
            for (int i = 0; i < std::min(8, g.channel_conf.get_num_channels()); ++i)
                out << " " << g.bit_fields[i].width << "/" << g.bit_fields[i].gap;
            break;
        }
        case BF::Type::subword: {
            auto& g = f.subword;
            out << "subword " << str(g.word_type) << " bits=" << g.bits_per_channel << " pixels=" << g.pixels_per_word << " " << str(g.bit_order) << " " << text(g.channel_conf) << (g.word_aligned_rows ? " aligned" : "");
            break;
        }
        case BF::Type::float_:
            out << "float";
            break;
        case BF::Type::indexed: {
            auto& g = f.indexed;
            out << "indexed " << str(g.word_type) << " bits=" << g.bits_per_pixel << " pixels=" << g.pixels_per_compound << " word bits=" << g.bits_per_word << " words=" << g.words_per_compound << " " << str(g.bit_order) << " " << str(g.word_order) << (g.compound_aligned_rows ? " aligned" : "");
            break;
        }
    }
    return out.str();
}
BF wrap(const BF::IntegerFormat& f) { BF g = {}; g.type = BF::Type::integer; g.integer = f; return g; }
BF wrap(const BF::SubwordFormat& f) { BF g = {}; g.type = BF::Type::subword; g.subword = f; return g; }

Layout layout(const BF& f, int w, int h)
{
    switch (f.type) {
        case BF::Type::integer: return layout(f.integer, w, h);
        case BF::Type::packed: return layout(f.packed, w, h);
        case BF::Type::subword: return layout(f.subword, w, h);
        case BF::Type::indexed: return layout(f.indexed, w, h);
        case BF::Type::float_: break;
    }
    return {};
}

const int g_sizes[][2] = { { 1, 1 }, { 3, 2 }, { 9, 1 }, { 5, 3 }, { 1, 9 }, { 17, 2 }, { 33, 1 }, { 70, 2 } };

template<class F> bool equivalent(const BF& a, const F& b)
{
    for (auto& s : g_sizes) {
        if (layout(a, s[0], s[1]) != layout(b, s[0], s[1]))
            return false;
    }
    return true;
}

IT any_type(vf::Rng& rng)
{
    return IT(rng.below(6));
}
Endianness any_order(vf::Rng& rng)
{
    return rng.chance(1, 2) ? Endianness::big : Endianness::little;
}
BF::ChannelConf any_conf(vf::Rng& rng)
{
    return { &g02::space(int(rng.below(4))), rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2) };
}

// Valid format, of a kind that tends to be castable
BF any_valid(vf::Rng& rng, bool indexed)
{
    BF f = {};
    BF::ChannelConf conf = any_conf(rng);
    int n = conf.color_space->get_num_channels() + int(conf.has_alpha);
    IT type = any_type(rng);
    int avail = 8 * bytes_of(type);
    bool full = rng.chance(2, 3);
    int bits = full ? avail : 1 + int(rng.below(std::uint64_t(avail)));
    switch (rng.below(indexed ? 5 : 4)) {
        case 0:
            f.set_integer_format(type, bits, 1 + int(rng.chance(1, 2) ? 0 : rng.below(4)), any_order(rng), *conf.color_space, conf.has_alpha, conf.alpha_channel_first, conf.reverse_order);
            break;
        case 1:
        case 2: {
            int words = rng.chance(1, 3) ? 1 + int(rng.below(10)) : n * (1 + int(rng.below(2)));
            if (rng.chance(1, 5))
                words = 1;
            int total = words * bits;
            if (total < n) {
                words = n;
                total = words * bits;
            }
            vector<image::BitField> fields;
            if (rng.chance(2, 3)) {
                // Equally spaced, equally wide
                int part = total / n;
                int width = rng.chance(2, 3) ? part : 1 + int(rng.below(std::uint64_t(part)));
                for (int i = 0; i < n; ++i)
                    fields.push_back({ width, i == n - 1 ? 0 : part - width });
                if (rng.chance(1, 8))
                    fields.back().gap = part - width;
                if (rng.chance(1, 8)) {
                    // Slightly off
                    auto& x = fields[rng.below(fields.size())];
                    if (x.width > 1) {
                        --x.width;
                        if (rng.chance(1, 2))
                            ++x.gap;
                    }
                }
            }
            else {
                int left = total - n;
                for (int i = 0; i < n; ++i) {
                    int width = int(rng.below(std::uint64_t(left / (n - i) + 1)));
                    left -= width;
                    int gap = rng.chance(1, 2) ? int(rng.below(std::uint64_t(left / (n - i) + 1))) : 0;
                    left -= gap;
                    fields.push_back({ 1 + width, gap });
                }
            }
            f.set_packed_format(type, bits, words, any_order(rng), core::Span<const image::BitField>(fields.data(), fields.size()), *conf.color_space, conf.has_alpha, conf.alpha_channel_first, conf.reverse_order);
            break;
        }
        case 3: {
            while (n > avail || (n > 1 && rng.chance(1, 2))) {
                conf = any_conf(rng);
                n = conf.color_space->get_num_channels() + int(conf.has_alpha);
            }
            int max = avail / n;
            int b = rng.chance(1, 3) && max >= 8 ? 8 : 1 + int(rng.below(std::uint64_t(max)));
            if (rng.chance(1, 2)) {
                while ((b & (b - 1)) != 0)
                    --b;
            }
            int pixels = rng.chance(1, 2) ? max / b : 1 + int(rng.below(std::uint64_t(max / b)));
            f.set_subword_format(type, b, pixels, any_order(rng), rng.chance(1, 3), *conf.color_space, conf.has_alpha, conf.alpha_channel_first, conf.reverse_order);
            break;
        }
        default: {
            int words = 1 + int(rng.below(4)), total = words * bits;
            int b = 1 + int(rng.below(std::uint64_t(std::min(total, 8))));
            f.set_indexed_format(type, b, 1 + int(rng.below(std::uint64_t(total / b))), bits, words, any_order(rng), any_order(rng), rng.chance(1, 2));
        }
    }
    return f;
}

int num_channels(const BF& f)
{
    switch (f.type) {
        case BF::Type::integer: return f.integer.channel_conf.get_num_channels();
        case BF::Type::packed: return f.packed.channel_conf.get_num_channels();
        case BF::Type::subword: return f.subword.channel_conf.get_num_channels();
        default: break;
    }
    return 1;
}

const BF::ChannelConf& conf_of(const BF& f)
{
    return f.type == BF::Type::integer ? f.integer.channel_conf : f.type == BF::Type::packed ? f.packed.channel_conf : f.subword.channel_conf;
}

IT word_type_of(const BF& f)
{
    switch (f.type) {
        case BF::Type::integer: return f.integer.word_type;
        case BF::Type::packed: return f.packed.word_type;
        case BF::Type::subword: return f.subword.word_type;
        default: break;
    }
    return f.indexed.word_type;
}

template<class Func> void for_confs(const BF& f, Func func)
{
    for (int k = 0; k < 4; ++k) {
        BF::ChannelConf conf = conf_of(f);
        conf.alpha_channel_first = (k & 1) != 0;
        conf.reverse_order = (k & 2) != 0;
        func(conf);
    }
}

// Is there any equivalent format
std::optional<BF::IntegerFormat> search_integer(const BF& f, IT type)
{
    std::optional<BF::IntegerFormat> r;
    Layout l = layout(f, 1, 1);
    int depth = int(l[0][0].size());
    for (int bits = 1; bits <= std::min(depth, 8 * bytes_of(type)); ++bits) {
        if (depth % bits != 0)
            continue;
        for_confs(f, [&](const BF::ChannelConf& conf) {
            for (Endianness order : { Endianness::big, Endianness::little }) {
                BF::IntegerFormat g { type, bits, depth / bits, order, conf };
                if (!r && layout(g, 1, 1) == l && equivalent(f, g))
                    r = g;
            }
        });
    }
    return r;
}

std::optional<BF::SubwordFormat> search_subword(const BF& f, IT type)
{
    std::optional<BF::SubwordFormat> r;
    Layout l = layout(f, 1, 1);
    int depth = int(l[0][0].size());
    int max = 8 * bytes_of(type) / (depth * num_channels(f));
    for (int pixels = 1; pixels <= max; ++pixels) {
        for_confs(f, [&](const BF::ChannelConf& conf) {
            for (Endianness order : { Endianness::big, Endianness::little }) {
                for (bool aligned : { false, true }) {
                    BF::SubwordFormat g { type, depth, pixels, order, aligned, conf };
                    if (!r && layout(g, 1, 1) == l && equivalent(f, g))
                        r = g;
                }
            }
        });
    }
    return r;
}

template<class G, class Search> void check_cast(vf::Case& c, const BF& f, IT type, const char* how, Search search)
{
    G g = {};
    std::memset(static_cast<void*>(&g), 0x11, sizeof g);
    G h = g;
    bool ok = f.try_cast_to(g, type);
    string why = string(how) + " of " + text(f) + " to words of type " + str(type);
    bool eligible = f.type != BF::Type::indexed && f.type != BF::Type::float_ && (type == IT::byte || type == word_type_of(f));
    VF_REQUIRE(!ok || eligible, "ineligible-cast", why);
    if (ok) {
        VF_REQUIRE(g.word_type == type, "cast-word-type", text(wrap(g)) << ": " << why);
        VF_REQUIRE(valid(g) && g.is_valid(), "cast-invalid", text(wrap(g)) << ": " << why);
        VF_REQUIRE(g.channel_conf.color_space == conf_of(f).color_space && g.channel_conf.has_alpha == conf_of(f).has_alpha, "cast-channels", text(wrap(g)) << ": " << why);
        VF_REQUIRE(equivalent(f, g), "cast-not-equivalent", "result is " << text(wrap(g)) << ": " << why);
        c.event(how, 1);
    }
    else {
        VF_REQUIRE(std::memcmp(&g, &h, sizeof g) == 0, "cast-changed-format", why);
        if (eligible) {
            auto r = search(f, type);
            // Access by bytes to a packed format may be refused unless each channel takes up all
            // bits of a whole number of words
            if (r && f.type == BF::Type::packed && type != f.packed.word_type &&
                f.packed.words_per_pixel * f.packed.bits_per_word != f.packed.bit_fields[0].width * num_channels(f))
                r = {};
            if (r && f.type == BF::Type::packed && type != f.packed.word_type && f.packed.words_per_pixel % num_channels(f) != 0)
                r = {};
            VF_REQUIRE(!r, "cast-missed", why << ": equivalent to " << text(wrap(*r)));
        }
    }
}

VF_MONITOR(g05_cast, 60000, 1000000)
{
    BF f = any_valid(c.rng, true);
    VF_REQUIRE(f.is_valid(), "valid-format-rejected", text(f));
    IT type = c.rng.chance(1, 2) ? IT::byte : c.rng.chance(9, 10) ? word_type_of(f) : any_type(c.rng);
    check_cast<BF::IntegerFormat>(c, f, type, "cast_to_integer", search_integer);
    check_cast<BF::SubwordFormat>(c, f, type, "cast_to_subword", search_subword);
    std::ostringstream o;
    o << text(f) << str(type);
    c.nontrivial(vf::Hash().add(o.str()).get());
}

int any_int(vf::Rng& rng)
{
    switch (rng.below(6)) {
        case 0: return int(rng.range(-2, 2));
        case 1: return INT32_MAX - int(rng.below(3));
        case 2: return INT32_MIN + int(rng.below(3));
        case 3: return int(std::uint32_t(1) << rng.below(32));
        case 4: return int(rng.next());
        default: return 1 + int(rng.below(70));
    }
}

VF_MONITOR(g05_valid, 100000, 2000000)
{
    BF f = any_valid(c.rng, true);
    // Distort
    for (std::uint64_t k = c.rng.below(3); k > 0; --k) {
        int v = any_int(c.rng);
        switch (f.type) {
            case BF::Type::integer:
                (c.rng.chance(1, 2) ? f.integer.bits_per_word : f.integer.words_per_channel) = v;
                break;
            case BF::Type::packed:
                switch (c.rng.below(4)) {
                    case 0: f.packed.bits_per_word = v; break;
                    case 1: f.packed.words_per_pixel = v; break;
                    case 2: f.packed.bit_fields[c.rng.below(5)].width = v; break;
                    default: f.packed.bit_fields[c.rng.below(5)].gap = v;
                }
                break;
            case BF::Type::subword:
                (c.rng.chance(1, 2) ? f.subword.bits_per_channel : f.subword.pixels_per_word) = v;
                break;
            case BF::Type::indexed:
                (c.rng.chance(1, 2) ? c.rng.chance(1, 2) ? f.indexed.bits_per_pixel : f.indexed.pixels_per_compound : c.rng.chance(1, 2) ? f.indexed.bits_per_word : f.indexed.words_per_compound) = v;
                break;
            case BF::Type::float_:
                break;
        }
    }
    bool e = f.type == BF::Type::integer ? valid(f.integer) : f.type == BF::Type::packed ? valid(f.packed) : f.type == BF::Type::subword ? valid(f.subword) : valid(f.indexed);
    VF_EQ(f.is_valid(), e, "is-valid", text(f));
    if (!e) {
        c.event("invalid", 1);
        // Casting of an invalid format is an error, not a crash
        if (f.type != BF::Type::indexed) {
            BF::IntegerFormat g = {};
            BF::SubwordFormat h = {};
            for (int i = 0; i < 2; ++i) {
                bool threw = false;
                try {
                    static_cast<void>(i == 0 ? f.try_cast_to(g, IT::byte) : f.try_cast_to(h, IT::byte));
                }
                catch (std::runtime_error&) {
                    threw = true;
                }
                VF_REQUIRE(threw, "invalid-cast", text(f));
            }
        }
    }
    else {
        c.event("valid", 1);
        if (f.type == BF::Type::integer) {
            int w = any_int(c.rng) & 0x7FFFFFFF;
            __int128 n = __int128(w) * f.integer.words_per_channel * num_channels(f);
            bool threw = false;
            std::size_t m = 0;
            try {
                m = f.integer.get_words_per_row(w);
            }
            catch (std::exception&) {
                threw = true;
            }
            VF_REQUIRE(threw == (n > std::numeric_limits<std::size_t>::max()) && (threw || __int128(m) == n), "words-per-row", text(f) << " width " << w << ": " << m);
        }
    }
    // Number of bit fields
    vector<image::BitField> fields(c.rng.below(12), image::BitField { 1, 0 });
    BF::ChannelConf conf = any_conf(c.rng);
    bool threw = false;
    BF g = {};
    try {
        g.set_packed_format(IT::int_, 32, 1, Endianness::big, core::Span<const image::BitField>(fields.data(), fields.size()), *conf.color_space, conf.has_alpha, false, false);
    }
    catch (std::exception&) {
        threw = true;
    }
    VF_EQ(threw, int(fields.size()) != conf.get_num_channels(), "number-of-fields", fields.size() << " fields, " << text(conf));
    std::ostringstream o;
    o << text(f);
    c.nontrivial(vf::Hash().add(o.str()).get());
}

struct Big {};
template<class T> void map_type(std::optional<IT> it, std::optional<BF::FloatType> ft, const char* name)
{
    IT a = {};
    BF::FloatType b = {};
    bool r = BF::try_map_integer_type<T>(a), s = BF::try_map_float_type<T>(b);
    VF_REQUIRE(r == bool(it) && (!it || a == *it), "map-integer-type", name);
    VF_REQUIRE(s == bool(ft) && (!ft || b == *ft), "map-float-type", name);
}

// The description of an image tells where its pixels are
VF_MONITOR(g05_describe, 12000, 200000)
{
    image::Size size { 1 + int(c.rng.below(20)), 1 + int(c.rng.below(6)) };
    Subject s = any_image(c.rng, size, false);
    BF f = {};
    const void* buffer = nullptr;
    if (!s.image->try_get_buffer(f, buffer)) {
        VF_REQUIRE(s.name == "plain" || s.name == "computed", "no-description", s.name);
        return;
    }
    std::ostringstream why_out;
    why_out << s.name << " " << size.width << "x" << size.height << " described as " << text(f);
    string why = why_out.str();
    VF_REQUIRE(f.is_valid(), "invalid-description", why);
    auto p = static_cast<const unsigned char*>(buffer);
    auto compare = [&](const Layout& l, const BF& g, const char* what) {
        bool indexed = g.type == BF::Type::indexed;
        vector<Comps> px = indexed ? raw(*s.image, CompRepr::int8, 1) : raw(*s.image, s.format.repr, s.format.channels());
        for (std::size_t i = 0; i < l.size(); ++i) {
            vector<double> frac;
            for (std::size_t k = 0; k < l[i].size(); ++k) {
                std::uint64_t v = 0;
                for (int bit : l[i][k])
                    v = v << 1 | ((p[bit / 8] >> (bit % 8)) & 1);
                int depth = int(l[i][k].size());
                double got = px[i][k];
                if (indexed) {
                    VF_REQUIRE(double(v) == got, "described-index", what << " pixel " << i << ": " << v << " read as " << got << ": " << why);
                    continue;
                }
                frac.push_back(double(v) / (std::pow(2.0, depth) - 1));
                if (s.format.repr == CompRepr::float_)
                    continue;
                double max = g02::max_of(s.format.repr);
                double e = frac.back() * max;
                // Widening may be by repetition of bits
                double tol = std::pow(2.0, depth) - 1 == max ? 0 : 1;
                VF_REQUIRE(std::fabs(e - got) <= tol, "described-pixel", what << " pixel " << i << " channel " << k << ": " << v << " read as " << got << " expected " << e << ": " << why);
            }
            if (s.format.repr == CompRepr::float_ && !indexed) {
                double alpha = s.format.alpha ? frac.back() : 1;
                for (std::size_t k = 0; k < frac.size(); ++k) {
                    double e = s.format.alpha && k + 1 == frac.size() ? alpha : alpha * g02::expand(frac[k]);
                    VF_REQUIRE(std::fabs(e - px[i][k]) <= 1e-5, "described-pixel", what << " pixel " << i << " channel " << k << ": " << frac[k] << " read as " << px[i][k] << " expected " << e << ": " << why);
                }
            }
        }
    };
    compare(layout(f, size.width, size.height), f, "described");
    c.event("described", 1);
    for (IT type : { IT::byte, word_type_of(f) }) {
        BF::IntegerFormat g = {};
        if (f.try_cast_to(g, type)) {
            compare(layout(g, size.width, size.height), wrap(g), "cast to integer");
            c.event("integer_access", 1);
        }
        BF::SubwordFormat h = {};
        if (f.try_cast_to(h, type)) {
            compare(layout(h, size.width, size.height), wrap(h), "cast to subword");
            c.event("subword_access", 1);
        }
    }
    c.nontrivial(vf::Hash().add(s.name).add(size.width).add(size.height).get());
}

VF_MONITOR(g05_types, 10, 10)
{
    using FT = BF::FloatType;
    map_type<std::byte>(IT::byte, {}, "byte");
    map_type<char>(IT::char_, {}, "char");
    map_type<signed char>(IT::char_, {}, "signed char");
    map_type<unsigned char>(IT::char_, {}, "unsigned char");
    map_type<short>(IT::short_, {}, "short");
    map_type<unsigned short>(IT::short_, {}, "unsigned short");
    map_type<int>(IT::int_, {}, "int");
    map_type<unsigned>(IT::int_, {}, "unsigned");
    map_type<long>(IT::long_, {}, "long");
    map_type<unsigned long>(IT::long_, {}, "unsigned long");
    map_type<long long>(IT::llong, {}, "long long");
    map_type<unsigned long long>(IT::llong, {}, "unsigned long long");
    map_type<float>({}, FT::float_, "float");
    map_type<double>({}, FT::double_, "double");
    map_type<long double>({}, FT::ldouble, "long double");
    map_type<wchar_t>({}, {}, "wchar_t");
    map_type<char16_t>({}, {}, "char16_t");
    map_type<bool>({}, {}, "bool");
    for (int i = 0; i < 6; ++i) {
        VF_EQ(BF::get_bytes_per_word(IT(i)), bytes_of(IT(i)), "bytes-per-word", i);
        VF_EQ(BF::get_bits_per_word(IT(i)), 8 * bytes_of(IT(i)), "bits-per-word", i);
        Endianness e = {};
        bool r = BF::try_get_byte_order(IT(i), e);
        VF_REQUIRE(r && (bytes_of(IT(i)) == 1 || e == Endianness::little), "byte-order", i);
    }
    c.nontrivial(1);
}
} // unnamed namespace
