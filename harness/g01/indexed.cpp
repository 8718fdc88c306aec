#include "g.hpp"
using namespace g01;

namespace {
using i8 = image::int8_type;
using i16 = image::int16_type;
using i32 = image::int32_type;
using i64 = image::int64_type;
using u8 = unsigned char;
using u32 = std::uint32_t;
template<class S, int M, int N = 1, E A = big, class W = S, int B = image::bit_width<W>, int D = 1, E O = big,
         bool H = true>
using Idx = image::IndexedPixelFormat<S, M, N, A, W, B, D, O, H>;

const Entry indexed[] = {
    FMT(Idx<i8, 8>),
    FMT(Idx<i8, 1, 8>),
    FMT(Idx<i8, 1, 8, little>),
    FMT(Idx<i8, 2, 4>),
    FMT(Idx<i8, 4, 2>),
    FMT(Idx<i8, 4, 2, little, i8, 8, 1, big, false>),
    FMT(Idx<i8, 1, 8, big, i8, 8, 1, big, false>),
    FMT(Idx<i8, 3, 2>),
    FMT(Idx<i8, 1, 7, little, u8, 7>),
    FMT(Idx<u8, 5, 1>),
    FMT(Idx<i16, 8, 2, big, i8, 8, 2, big>),
    FMT(Idx<i16, 8, 2, little, i8, 8, 2, little>),
    FMT(Idx<i16, 5, 3, little, i8, 8, 2, little, false>),
    FMT(Idx<i32, 4, 8, big, i8, 8, 4, little>),
    FMT(Idx<i32, 8, 4, little, i16, 16, 2, big, false>),
    FMT(Idx<i32, 7, 4>),
    FMT(Idx<u32, 8, 4>),
    FMT(Idx<i64, 1, 64>),
    FMT(Idx<i64, 8, 8, little, i8, 8, 8, big, false>),
    FMT(Idx<i64, 6, 10, big, i32, 31, 2, little>),
    FMT(Idx<i64, 3, 11, big, i8, 6, 6, big, false>),
    FMT(Idx<int, 1, 3, big, bool, 1, 3, little>),
    FMT(Idx<std::uint64_t, 2, 25, little, i16, 13, 4, little, false>),
    FMT(Idx<i32, 8, 1, big, i32>),
};

int ref_comp_to_int(double v, int max)
{
    return int(std::floor(std::min(1.0, std::max(0.0, v)) * max + 0.5));
}
} // namespace

VF_MONITOR(indexed_formats, 2400, 100000)
{
    dispatch(c, indexed);
}

namespace {
using image::CompRepr;

template<CompRepr R> u64 up(image::comp_type<R> v)
{
    return u64(image::comp_repr_unpack<R>(v));
}

// Conversion of pixels between the component representations
void conversions(vf::Case& c)
{
    int n = 1 + int(c.rng.below(5));
    bool alpha = n >= 2 && c.rng.chance(1, 2);
    std::vector<image::int8_type> p8(n), q8(n);
    std::vector<image::int16_type> p16(n), q16(n);
    std::vector<float> f(n), g(n);
    std::vector<unsigned> v8(n), v16(n);
    for (int i = 0; i < n; ++i) {
        v8[i] = unsigned(c.rng.below(256));
        v16[i] = unsigned(c.rng.below(65536));
        if (c.rng.chance(1, 6))
            v8[i] = c.rng.chance(1, 2) ? 0 : 255;
        if (c.rng.chance(1, 6))
            v16[i] = c.rng.chance(1, 2) ? 0 : 65535;
        p8[i] = image::comp_repr_pack<CompRepr::int8>(v8[i]);
        p16[i] = image::comp_repr_pack<CompRepr::int16>(v16[i]);
        VF_REQUIRE(up<CompRepr::int8>(p8[i]) == v8[i] && up<CompRepr::int16>(p16[i]) == v16[i], "pack-unpack",
                   "v8=" << v8[i] << " v16=" << v16[i]);
    }
    auto info = [&](std::ostream& out) {
        out << "n=" << n << " alpha=" << alpha << " v8=";
        for (auto v : v8)
            out << v << " ";
        out << "v16=";
        for (auto v : v16)
            out << v << " ";
    };
    image::comp_repr_convert<CompRepr::int8, CompRepr::int16>(p8.data(), q16.data(), n, alpha);
    image::comp_repr_convert<CompRepr::int16, CompRepr::int8>(p16.data(), q8.data(), n, alpha);
    for (int i = 0; i < n; ++i) {
        VF_EQ(up<CompRepr::int16>(q16[i]), u64(v8[i] * 257), "int8-to-int16", info);
        VF_EQ(up<CompRepr::int8>(q8[i]), u64(v16[i] >> 8), "int16-to-int8", info);
    }
    // Round trip through 16 bits
    image::comp_repr_convert<CompRepr::int16, CompRepr::int8>(q16.data(), q8.data(), n, alpha);
    VF_REQUIRE(q8 == p8, "int8-int16-int8", info);
    auto to_float = [&](const std::vector<unsigned>& v, int max, int i) {
        double a = alpha ? double(v[n - 1]) / max : 1.0;
        if (alpha && i == n - 1)
            return a;
        return a * expand(double(v[i]) / max);
    };
    image::comp_repr_convert<CompRepr::int8, CompRepr::float_>(p8.data(), f.data(), n, alpha);
    for (int i = 0; i < n; ++i) {
        double e = to_float(v8, 255, i);
        VF_REQUIRE(std::abs(f[i] - e) <= 1e-6 * e, "int8-to-float", info << " channel=" << i << " got=" << f[i]
                   << " expected=" << e);
    }
    image::comp_repr_convert<CompRepr::float_, CompRepr::int8>(f.data(), q8.data(), n, alpha);
    bool visible = !alpha || v8[n - 1] != 0;
    if (visible)
        VF_REQUIRE(q8 == p8, "int8-float-int8", info);
    else
        VF_REQUIRE(up<CompRepr::int8>(q8[n - 1]) == 0, "int8-float-int8-alpha", info);
    image::comp_repr_convert<CompRepr::int16, CompRepr::float_>(p16.data(), f.data(), n, alpha);
    for (int i = 0; i < n; ++i) {
        double e = to_float(v16, 65535, i);
        VF_REQUIRE(std::abs(f[i] - e) <= 1e-6 * e, "int16-to-float", info << " channel=" << i << " got=" << f[i]
                   << " expected=" << e);
    }
    image::comp_repr_convert<CompRepr::float_, CompRepr::int16>(f.data(), q16.data(), n, alpha);
    if (!alpha || v16[n - 1] != 0) {
        for (int i = 0; i < n; ++i) {
            int d = int(up<CompRepr::int16>(q16[i])) - int(v16[i]);
            VF_REQUIRE(std::abs(d) <= 1, "int16-float-int16", info << " channel=" << i << " deviation=" << d);
        }
    }
    // From arbitrary floating-point components
    double a = alpha ? c.rng.unit() : 1.0;
    if (alpha && c.rng.chance(1, 6))
        a = double(c.rng.below(2));
    for (int i = 0; i < n; ++i)
        f[i] = float(a * (c.rng.chance(1, 6) ? double(c.rng.below(2)) : c.rng.unit()));
    if (alpha)
        f[n - 1] = float(a);
    image::comp_repr_convert<CompRepr::float_, CompRepr::float_>(f.data(), g.data(), n, alpha);
    VF_REQUIRE(f == g, "float-to-float", info);
    image::comp_repr_convert<CompRepr::float_, CompRepr::int8>(f.data(), q8.data(), n, alpha);
    image::comp_repr_convert<CompRepr::float_, CompRepr::int16>(f.data(), q16.data(), n, alpha);
    for (int i = 0; i < n; ++i) {
        bool is_alpha = (alpha && i == n - 1);
        double e = is_alpha ? double(f[i]) : (alpha && f[n - 1] == 0) ? 0.0 :
            compress(std::min(1.0, double(f[i]) / (alpha ? f[n - 1] : 1.0f)));
        int d8 = int(up<CompRepr::int8>(q8[i])) - ref_comp_to_int(e, 255);
        int d16 = int(up<CompRepr::int16>(q16[i])) - ref_comp_to_int(e, 65535);
        VF_REQUIRE(std::abs(d8) <= 1 && std::abs(d16) <= 1, "float-to-int", info << " value=" << f[i] << " expected="
                   << e << " deviations " << d8 << " " << d16);
        if (e == 0)
            VF_REQUIRE(q8[i] == 0 && q16[i] == 0, "float-zero-to-int", info);
        if (e == 1)
            VF_REQUIRE(q8[i] == image::comp_repr_max<CompRepr::int8>() && q16[i] == image::comp_repr_max<CompRepr::int16>(),
                       "float-one-to-int", info << " value=" << f[i]);
    }
    c.event("conversions", n);
    // Ordering follows intensity in spite of packing into signed types
    for (int i = 1; i < n; ++i) {
        VF_REQUIRE(image::comp_repr_less<CompRepr::int8>(p8[i], p8[i - 1]) == (v8[i] < v8[i - 1]), "less-int8", info);
        VF_REQUIRE(image::comp_repr_less<CompRepr::int16>(p16[i], p16[i - 1]) == (v16[i] < v16[i - 1]), "less-int16",
                   info);
    }
    VF_REQUIRE(up<CompRepr::int8>(image::comp_repr_max<CompRepr::int8>()) == 255 &&
               up<CompRepr::int16>(image::comp_repr_max<CompRepr::int16>()) == 65535 &&
               image::comp_repr_max<CompRepr::float_>() == 1.0f, "max", info);
    c.nontrivial(vf::Hash().add(n).add(alpha).add(v8[0]).add(v16[0]).get());
}

// Bit fields and bit media of all widths
template<class T> void media(vf::Case& c)
{
    constexpr int bw = image::bit_width<T>;
    int n = 1 + int(c.rng.below(5));
    std::vector<image::BitField> fields(n);
    int total = 0;
    bool sane = true;
    for (auto& f : fields) {
        f.width = c.rng.chance(1, 30) ? int(c.rng.range(-2, 0)) : 1 + int(c.rng.below(bw / n + 1));
        f.gap = c.rng.chance(1, 30) ? -1 : c.rng.chance(1, 2) ? 0 : int(c.rng.below(4));
        if (c.rng.chance(1, 60))
            f.width = std::numeric_limits<int>::max() - int(c.rng.below(2));
        sane = sane && f.width >= 1 && f.width <= bw && f.gap >= 0;
        if (sane)
            total += f.width + f.gap;
    }
    auto info = [&](std::ostream& out) {
        out << "width=" << bw << " fields=";
        for (auto& f : fields)
            out << f.width << "+" << f.gap << " ";
    };
    int avail = c.rng.chance(1, 2) ? bw : std::max(0, total + int(c.rng.range(-1, 1)));
    if (sane)
        VF_EQ(image::valid_bit_fields(fields.data(), n, avail), total <= avail, "valid-bit-fields", info << " avail=" << avail);
    else if (avail <= bw)
        VF_REQUIRE(!image::valid_bit_fields(fields.data(), n, avail), "valid-bit-fields", info << " avail=" << avail);
    if (!sane || total > bw) {
        c.event("invalid-fields");
        return;
    }
    int shift = 0, widest = 0;
    for (int i = n - 1; i >= 0; --i) {
        shift += fields[i].gap;
        VF_EQ(image::get_bit_field_width(fields.data(), n, i), fields[i].width, "bit-field-width", info);
        VF_EQ(image::get_bit_field_shift(fields.data(), n, i), shift, "bit-field-shift", info);
        T m = image::get_bit_field_mask<T>(fields.data(), n, i);
        u64 got = u64(std::make_unsigned_t<T>(m));
        VF_EQ(got, mask(fields[i].width) << shift, "bit-field-mask", info << " field " << i);
        shift += fields[i].width;
        widest = std::max(widest, fields[i].width);
    }
    VF_EQ(image::widest_bit_field(fields.data(), n), widest, "widest-bit-field", info);
    c.event("fields", n);
    c.nontrivial(vf::Hash().add(bw).add(n).add(total).get());
}

template<class T, int N> void medium_value(vf::Case& c)
{
    u64 v = c.rng.next() & mask(N);
    if (c.rng.chance(1, 4))
        v = mask(N) - c.rng.below(std::min<u64>(mask(N), 3) + 1);
    T p = image::pack_int<T, N>(v);
    VF_REQUIRE((u64(std::make_unsigned_t<T>(p)) == v), "pack", "N=" << N << " v=" << v);
    VF_REQUIRE((u64(image::unpack_int<N>(p)) == v), "unpack", "N=" << N << " v=" << v);
    VF_REQUIRE((image::unpack_int_a<N, u64>(p) == v), "unpack-a", "N=" << N << " v=" << v);
    c.event("media-values");
}

template<class T> void media_values(vf::Case& c)
{
    medium_value<T, 1>(c);
    medium_value<T, 3>(c);
    medium_value<T, image::bit_width<T> - 1>(c);
    medium_value<T, image::bit_width<T>>(c);
    medium_value<T, image::bit_width<T> / 2>(c);
}
} // namespace

VF_MONITOR(comp_repr_conversions, 6000, 400000)
{
    conversions(c);
}

VF_MONITOR(bit_fields, 4000, 200000)
{
    switch (c.rng.below(5)) {
        case 0: return media<image::int8_type>(c);
        case 1: return media<image::int16_type>(c);
        case 2: return media<image::int32_type>(c);
        case 3: return media<image::int64_type>(c);
        case 4: return media<std::uint32_t>(c);
    }
}

VF_MONITOR(bit_media, 2000, 100000)
{
    media_values<image::int8_type>(c);
    media_values<image::int16_type>(c);
    media_values<image::int32_type>(c);
    media_values<image::int64_type>(c);
    media_values<std::uint16_t>(c);
    media_values<std::uint64_t>(c);
    media_values<signed char>(c);
    c.nontrivial(c.rng.next());
}
