// Headers promising huge images. This runs without sanitizers, because those terminate the program
// when memory allocation fails.
#include "../g04/oracle.cpp"
#include "../g04/images.cpp"
#include <sys/resource.h>

namespace {
using namespace g04;

VF_MONITOR(g04_huge, 1500, 10000)
{
    Png png = any_png(c.rng, 20);
    if (c.rng.chance(1, 4))
        png.width = png.height = 1, png.samples.resize(std::size_t(png.spp()));
    std::string data = encode(png, c.rng);
    auto dim = [&](int orig) -> std::uint32_t {
        switch (c.rng.below(6)) {
            case 0: return std::uint32_t(orig);
            case 1: return std::uint32_t(1) << c.rng.below(32);
            case 2: return (std::uint32_t(1) << c.rng.below(32)) - 1;
            case 3: return 1000000;
            case 4: return std::uint32_t(c.rng.next());
            default: return std::uint32_t(c.rng.below(1000000));
        }
    };
    std::uint32_t w = dim(png.width), h = dim(png.height);
    for (std::size_t i = 0; i < 4; ++i) {
        data[16 + i] = char(w >> (24 - 8 * i));
        data[20 + i] = char(h >> (24 - 8 * i));
    }
    fix_crcs(data);
    rlimit old = {}, lim = {};
    getrlimit(RLIMIT_AS, &old);
    lim = old;
    lim.rlim_cur = rlim_t(600) << 20;
    if (setrlimit(RLIMIT_AS, &lim) != 0)
        return;
    std::locale loc = std::locale::classic();
    std::unique_ptr<image::WritableImage> img;
    std::error_code ec;
    Chunky source(data, 1);
    bool ok = false;
    const char* what = nullptr;
    try {
        ok = image::get_file_format_png()->try_load(source, img, loc, log::Logger::get_null(), ec);
        what = ok ? "loaded" : ec == make_error_code(image::Error::bad_file) ? "rejected" : "out_of_data";
    }
    catch (std::bad_alloc&) {
        what = "out_of_memory";
    }
    catch (std::length_error&) {
        what = "size_overflow";
    }
    setrlimit(RLIMIT_AS, &old);
    VF_REQUIRE(ok == bool(img), "huge-image", "w=" << w << " h=" << h << " " << what << " " << png);
    if (ok) {
        image::Size size = img->get_size();
        VF_REQUIRE(std::uint32_t(size.width) == w && std::uint32_t(size.height) == h, "huge-size", size.width << "x" << size.height << " expected " << w << "x" << h);
        if (w == std::uint32_t(png.width) && h == std::uint32_t(png.height)) {
            Truth t = truth(png);
            VF_EQ(t.comps.size(), std::size_t(w) * h * std::size_t(native_format(*img).channels()), "huge-same", png);
        }
    }
    else {
        VF_REQUIRE(w != std::uint32_t(png.width) || h != std::uint32_t(png.height), "huge-rejected", "w=" << w << " h=" << h << " " << what << " " << png);
    }
    c.event(what, 1);
    c.nontrivial(vf::Hash().add(w).add(h).add(png.type).add(png.depth).get());
}
} // unnamed namespace
