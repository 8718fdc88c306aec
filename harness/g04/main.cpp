// Loading and saving of PNG images
#include "images.hpp"
#include <fstream>
#include <filesystem>

namespace {
using namespace g04;
namespace fs = std::filesystem;

// Logger that can be made to throw
struct Log : log::RootLogger {
    long calls = 0, errors = 0, warnings = 0;
    bool failed = false;
    long fail_at = -1;
    Log()
        : log::RootLogger(std::locale::classic())
    {
    }
protected:
    void root_log(std::string_view message) override
    {
        if (message.substr(0, 5) == "ERROR")
            ++errors;
        if (message.substr(0, 4) == "WARN")
            ++warnings;
        if (calls++ == fail_at) {
            failed = true;
            throw Boom();
        }
    }
};

struct Nothing : image::WritableImage {
    auto get_size() const noexcept -> image::Size override { return { 7, 3 }; }
    bool try_get_buffer(image::BufferFormat&, const void*&) const override { return false; }
    bool try_get_writable_buffer(image::BufferFormat&, void*&) override { return false; }
    auto get_transfer_info() const -> TransferInfo override { return { CompRepr::int8, &image::ColorSpace::get_lum(), false, 8 }; }
    auto get_palette() const noexcept -> const Image* override { return nullptr; }
    void read(image::Pos, const image::Tray<void>&) const override {}
    void write(image::Pos, const image::Tray<const void>&) override {}
    void fill(const image::Box&, const void*) override {}
};

const std::error_code g_odd_error(77, std::generic_category());

void check_loaded(const Png& png, const image::Image& img, const std::string& how)
{
    Truth t = truth(png);
    image::Size size = img.get_size();
    VF_REQUIRE(size.width == png.width && size.height == png.height, "size", size.width << "x" << size.height << " from " << png << " " << how);
    auto info = img.get_transfer_info();
    Format f = native_format(img);
    VF_EQ(f.space, t.lum ? 0 : 1, "color-space", png << " " << how);
    VF_EQ(f.alpha, t.alpha, "alpha", png << " " << how);
    VF_EQ(f.repr == CompRepr::int16, t.wide, "component-type", png << " " << how);
    VF_EQ(info.bit_depth, png.type == indexed ? 8 : png.has_key ? std::max(8, png.depth) : png.depth, "bit-depth", png << " " << how);
    auto px = native(img);
    std::size_t ch = std::size_t(f.channels());
    for (std::size_t i = 0; i < px.size(); ++i) {
        for (std::size_t k = 0; k < ch; ++k) {
            VF_REQUIRE(int((*px[i].native)[k]) == t.comps[i * ch + k], "pixel",
                       "pixel " << i << " channel " << k << ": " << (*px[i].native)[k] << " expected " << t.comps[i * ch + k] << " in " << png << " " << how);
        }
    }
}

std::string slurp(const fs::path& path)
{
    std::ifstream in(path, std::ios::binary);
    return { std::istreambuf_iterator<char>(in), {} };
}

// Load through any of the ways of doing it
void load_any(vf::Case& c, const Png& png, const std::string& data)
{
    const image::FileFormat& format = *image::get_file_format_png();
    std::locale loc = std::locale::classic();
    Log logger;
    Tracker tracker;
    tracker.size = { png.width, png.height };
    bool track = c.rng.chance(1, 2);
    std::unique_ptr<image::WritableImage> img;
    if (c.rng.chance(1, 3))
        img = std::make_unique<Nothing>();
    std::error_code ec = g_odd_error;
    Chunky source(data, c.rng.next());
    source.max_chunk = c.rng.pick({ 0, 1, 3, 20, 1000 });
    std::string how;
    bool ok = false;
    image::LoadConfig config;
    config.logger = c.rng.chance(1, 2) ? &logger : nullptr;
    if (track)
        config.tracker = &tracker;
    image::PNGLoadConfig special;
    image::FileFormat::SpecialLoadConfigRegistry specials;
    if (c.rng.chance(1, 3)) {
        if (c.rng.chance(1, 2))
            specials.register_(std::as_const(special));
        config.special = &specials;
    }
    switch (c.rng.below(5)) {
        case 0: {
            how = "FileFormat::try_load";
            image::FileFormat::LoadConfig config_2 = config;
            ok = format.try_load(source, img, loc, logger, config_2, ec);
            break;
        }
        case 1:
            how = "FileFormat::try_load (no config)";
            track = false;
            ok = format.try_load(source, img, loc, logger, ec);
            break;
        case 2: {
            how = "try_load_a";
            image::Input input(source);
            if (c.rng.chance(1, 3))
                input.mime_type = c.rng.pick({ "image/png", "image/jpeg" });
            if (c.rng.chance(1, 3))
                input.filename_extension = c.rng.pick({ ".png", ".jpg" });
            if (c.rng.chance(1, 4))
                config.file_format = "png";
            ok = image::try_load_a(input, img, loc, config, ec);
            break;
        }
        default: {
            fs::path path = fs::path(c.tmp_dir) / c.rng.pick({ "a.png", "b", "c.txt" });
            std::ofstream(path, std::ios::binary).write(data.data(), std::streamsize(data.size()));
            config.read_buffer_size = c.rng.pick({ 8192, 0, 1, 7, 100 });
            vector<char> own(std::size_t(c.rng.pick({ 0, 0, 1, 9, 4000 })));
            config.read_buffer = core::Span<char>(own.data(), own.size());
            switch (c.rng.below(3)) {
                case 0:
                    how = "load(path)";
                    img = image::load(path, loc, config);
                    ok = true;
                    break;
                case 1:
                    how = "load(string)";
                    img = image::load(std::string_view(path.native()), loc, config);
                    ok = true;
                    break;
                default:
                    how = "try_load(path)";
                    ok = image::try_load(path, img, loc, config, ec);
            }
            source.pos = data.size();
        }
    }
    VF_REQUIRE(ok, "load-failed", how << ": " << ec.message() << " for " << png);
    VF_REQUIRE(ec == g_odd_error, "ec-changed", how << " set error code to " << ec.message() << " on success");
    VF_REQUIRE(!source.misuse, "source-misuse", how << ": empty read");
    VF_REQUIRE(source.pos == data.size(), "not-consumed", how << ": " << source.pos << " of " << data.size() << " bytes consumed");
    VF_REQUIRE(logger.errors == 0, "errors-logged", how << ": errors logged for valid file " << png);
    check_loaded(png, *img, how);
    if (track) {
        std::string v = tracker.verdict();
        VF_REQUIRE(v.empty(), "progress", how << ": " << v << " for " << png);
        c.event("progress_notifications", tracker.calls.size());
        if (tracker.calls.size() > 1)
            c.event("several_notifications", 1);
    }
    c.event(how.c_str(), 1);
}

VF_MONITOR(g04_load, 6000, 150000)
{
    Png png = any_png(c.rng, c.rng.chance(1, 40) ? 300 : 40);
    if (c.rng.chance(1, 100)) {
        // Tall, so that progress is reported many times
        vf::Rng rng(c.rng.next());
        png = any_png(rng, 3);
        png.width = 1;
        png.height = 5000;
        png.samples.assign(std::size_t(png.height * png.spp()), 0);
        for (auto& s : png.samples)
            s = std::uint16_t(rng.below(png.type == indexed ? png.palette.size() : std::size_t(png.max()) + 1));
    }
    std::string data = encode(png, c.rng);
    load_any(c, png, data);
    c.event(png.interlaced ? "interlaced" : "not_interlaced", 1);
    if (png.has_key || !png.palette_alpha.empty())
        c.event("transparency", 1);
    c.nontrivial(vf::Hash().add(png.type).add(png.depth).add(png.interlaced).add(png.has_key).add(png.width).add(png.height).get());
    c.sample([&](std::ostream& o) { o << png; });
}

// Save image, check the file, and load it again
void check_saved(vf::Case& c, const Subject& s, const std::string& data, const std::string& how, bool interlaced)
{
    image::Size size = s.image->get_size();
    auto ctx = [&](std::ostream& o) { o << s.name << " " << s.format << " depth " << s.depth << " " << size.width << "x" << size.height << " " << how << (interlaced ? " interlaced" : ""); };
    Png png;
    std::string problem = decode(data, png);
    VF_REQUIRE(problem.empty(), "bad-file", problem << ": " << ctx);
    VF_REQUIRE(png.width == size.width && png.height == size.height, "saved-size", png << ": " << ctx);
    VF_EQ(png.interlaced, interlaced, "saved-interlacing", ctx);
    VF_REQUIRE(!png.has_key && png.type != indexed, "saved-type", png << ": " << ctx);
    bool lum = (png.type == gray || png.type == gray_alpha), alpha = (png.type == gray_alpha || png.type == rgb_alpha);
    VF_EQ(lum, s.format.space == 0, "saved-color-space", ctx);
    VF_EQ(alpha, s.format.alpha, "saved-alpha", ctx);
    VF_REQUIRE(png.depth >= std::min(16, s.depth), "saved-bit-depth", "bit depth " << png.depth << ": " << ctx);
    Format f { png.depth == 16 ? CompRepr::int16 : CompRepr::int8, lum ? 0 : 1, alpha };
    auto px = native(*s.image);
    int scale = (png.depth == 16 ? 65535 : 255) / png.max();
    std::size_t i = 0;
    for (int y = 0; y < size.height; ++y) {
        for (int x = 0; x < size.width; ++x, ++i) {
            Comps got;
            for (int k = 0; k < png.spp(); ++k)
                got.push_back(double(png.at(x, y, k) * scale));
            g02::Expect e = g02::view(px[i], f, false);
            if (e.exact && png.depth < 8) {
                // Best possible approximation
                for (double& v : e.c)
                    v = std::floor(v / scale + 0.5) * scale;
            }
            VF_REQUIRE(e.matches(got), "saved-pixel", "pixel (" << x << ", " << y << ") is " << g02::str(got) << ", expected " << g02::str(e.c) << (e.exact ? " exactly" : "") << " in " << png << ": " << ctx);
        }
    }
    load_any(c, png, data);
}

Subject any_subject(vf::Rng& rng, bool plain)
{
    image::Size size { 1 + int(rng.below(33)), 1 + int(rng.below(20)) };
    if (rng.chance(1, 30))
        size = { 1 + int(rng.below(3)), 1 + int(rng.below(6000)) };
    if (rng.chance(1, 30))
        size = { 1 + int(rng.below(6000)), 1 + int(rng.below(3)) };
    return any_image(rng, size, plain);
}

VF_MONITOR(g04_save, 6000, 150000)
{
    Subject s = any_subject(c.rng, false);
    const image::FileFormat& format = *image::get_file_format_png();
    std::locale loc = std::locale::classic();
    Log logger;
    Tracker tracker;
    tracker.size = s.image->get_size();
    bool track = c.rng.chance(1, 2);
    image::SaveConfig config;
    config.logger = c.rng.chance(1, 2) ? &logger : nullptr;
    if (track)
        config.tracker = &tracker;
    image::PNGSaveConfig special;
    special.use_adam7_interlacing = c.rng.chance(1, 2);
    image::FileFormat::SpecialSaveConfigRegistry specials;
    bool interlaced = false;
    if (c.rng.chance(2, 3)) {
        if (c.rng.chance(2, 3)) {
            specials.register_(std::as_const(special));
            interlaced = special.use_adam7_interlacing;
        }
        config.special = &specials;
    }
    std::error_code ec = g_odd_error;
    Drain sink;
    std::string how, data;
    bool ok = false;
    switch (c.rng.below(5)) {
        case 0:
            how = "FileFormat::try_save";
            ok = format.try_save(*s.image, sink, loc, logger, static_cast<image::FileFormat::SaveConfig&>(config), ec);
            data = sink.data;
            break;
        case 1:
            how = "FileFormat::try_save (no config)";
            track = interlaced = false;
            ok = format.try_save(*s.image, sink, loc, logger, ec);
            data = sink.data;
            break;
        case 2: {
            how = "try_save_a";
            image::Output output(sink);
            switch (c.rng.below(3)) {
                case 0: output.mime_type = "image/png"; break;
                case 1: output.filename_extension = ".png"; break;
                default: config.file_format = "png";
            }
            ok = image::try_save_a(*s.image, output, loc, config, ec);
            data = sink.data;
            break;
        }
        default: {
            fs::path path = fs::path(c.tmp_dir) / "saved.png";
            std::ofstream(path) << std::string(c.rng.below(3) * 10000, 'x'); // Must be truncated
            config.write_buffer_size = c.rng.pick({ 8192, 0, 1, 7, 100 });
            vector<char> own(std::size_t(c.rng.pick({ 0, 0, 1, 9, 4000 })));
            config.write_buffer = core::Span<char>(own.data(), own.size());
            switch (c.rng.below(3)) {
                case 0:
                    how = "save(path)";
                    image::save(*s.image, path, loc, config);
                    ok = true;
                    break;
                case 1:
                    how = "save(string)";
                    image::save(*s.image, std::string_view(path.native()), loc, config);
                    ok = true;
                    break;
                default:
                    how = "try_save(path)";
                    ok = image::try_save(*s.image, path, loc, config, ec);
            }
            data = slurp(path);
        }
    }
    VF_REQUIRE(ok, "save-failed", how << ": " << ec.message() << " for " << s.name);
    VF_REQUIRE(ec == g_odd_error, "ec-changed", how << " set error code to " << ec.message() << " on success");
    VF_REQUIRE(logger.errors == 0, "errors-logged", how << ": errors logged while saving " << s.name);
    if (track) {
        std::string v = tracker.verdict();
        VF_REQUIRE(v.empty(), "progress", how << ": " << v << " for " << s.name);
    }
    check_saved(c, s, data, how, interlaced);
    c.event(how.c_str(), 1);
    c.event(interlaced ? "save_interlaced" : "save_not_interlaced", 1);
    c.nontrivial(vf::Hash().add(s.name).add(s.image->get_size().width).add(interlaced).add(how).get());
}

// Every kind of failure, at any point
VF_MONITOR(g04_load_failure, 6000, 150000)
{
    Png png = any_png(c.rng, 24);
    std::string data = encode(png, c.rng);
    const image::FileFormat& format = *image::get_file_format_png();
    std::locale loc = std::locale::classic();
    std::uint64_t seed = c.rng.next();
    auto chunk = std::size_t(c.rng.pick({ 0, 5, 50 }));
    bool track = c.rng.chance(1, 2);
    struct Result {
        bool threw = false, ok = false, unchanged = false;
        std::error_code ec = g_odd_error;
        long reads = 0, notes = 0, logs = 0;
        bool triggered = false;
    };
    auto attempt = [&](const std::string& d, long read_fail, bool read_throw, long track_fail, long log_fail, std::unique_ptr<image::WritableImage>* keep = nullptr) {
        Result r;
        Chunky source(d, seed);
        source.max_chunk = chunk;
        source.fail_at = read_fail;
        source.do_throw = read_throw;
        source.error = std::error_code(5, std::system_category());
        Tracker tracker;
        tracker.size = { png.width, png.height };
        tracker.fail_at = track_fail;
        Log logger;
        logger.fail_at = log_fail;
        auto orig = std::make_unique<Nothing>();
        image::Image* p = orig.get();
        std::unique_ptr<image::WritableImage> img = std::move(orig);
        image::FileFormat::LoadConfig config;
        if (track)
            config.tracker = &tracker;
        try {
            r.ok = format.try_load(source, img, loc, logger, config, r.ec);
        }
        catch (Boom&) {
            r.threw = true;
        }
        r.unchanged = (img.get() == p);
        r.reads = source.calls;
        r.notes = long(tracker.calls.size());
        r.logs = logger.calls;
        r.triggered = source.failed || tracker.failed || logger.failed;
        if (keep)
            *keep = std::move(img);
        return r;
    };
    Result base = attempt(data, -1, false, -1, -1);
    VF_REQUIRE(base.ok && !base.unchanged, "load-failed", png);
    switch (c.rng.below(5)) {
        case 0: {
            long at = long(c.rng.below(std::uint64_t(base.reads)));
            if (c.rng.chance(1, 10))
                at = 0;
            Result r = attempt(data, at, false, -1, -1);
            VF_REQUIRE(r.triggered && !r.ok && !r.threw, "read-error", "read error at call " << at << " of " << base.reads << " was not reported for " << png);
            VF_REQUIRE(r.ec == std::error_code(5, std::system_category()), "read-error-code", "read error at call " << at << " of " << base.reads << " was reported as " << r.ec.message());
            VF_REQUIRE(r.unchanged, "image-changed", "image was changed on failure: " << png);
            c.event("read_error", 1);
            break;
        }
        case 1: {
            int kind = int(c.rng.below(3));
            if (kind == 1 && base.notes == 0)
                kind = 0;
            if (kind == 2 && base.logs == 0)
                kind = 0;
            long total = kind == 0 ? base.reads : kind == 1 ? base.notes : base.logs;
            long at = long(c.rng.below(std::uint64_t(total)));
            Result r = attempt(data, kind == 0 ? at : -1, true, kind == 1 ? at : -1, kind == 2 ? at : -1);
            VF_REQUIRE(r.triggered && r.threw, "exception-lost", "exception thrown by " << (kind == 0 ? "source" : kind == 1 ? "tracker" : "logger") << " at call " << at << " was lost for " << png);
            VF_REQUIRE(r.unchanged, "image-changed", "image was changed on exception: " << png);
            c.event(kind == 0 ? "source_threw" : kind == 1 ? "tracker_threw" : "logger_threw", 1);
            break;
        }
        case 2: {
            // Truncation
            std::size_t n = c.rng.below(data.size());
            if (c.rng.chance(1, 8))
                n = c.rng.below(20);
            Result r = attempt(data.substr(0, n), -1, false, -1, -1);
            VF_REQUIRE(!r.ok && !r.threw, "truncated", "loaded " << n << " of " << data.size() << " bytes of " << png);
            std::error_code expected = n < 8 ? make_error_code(image::Error::wrong_file_format) : make_error_code(core::MiscError::premature_end_of_input);
            VF_REQUIRE(r.ec == expected, "truncated-code", "truncation at " << n << " of " << data.size() << " was reported as " << r.ec.message());
            VF_REQUIRE(r.unchanged, "image-changed", "image was changed on failure: " << png);
            c.event("truncated", 1);
            break;
        }
        case 3: {
            // Damage that is detected by checksum
            std::string d = data;
            std::size_t at = c.rng.below(d.size());
            d[at] = char(d[at] ^ (1 << c.rng.below(8)));
            std::unique_ptr<image::WritableImage> img;
            Result r = attempt(d, -1, false, -1, -1, &img);
            VF_REQUIRE(!r.threw, "damage-threw", png);
            if (!r.ok) {
                VF_REQUIRE(r.unchanged, "image-changed", "image was changed on failure: " << png);
                VF_REQUIRE(r.ec && r.ec != g_odd_error, "damage-code", r.ec.message());
                if (at < 8)
                    VF_REQUIRE(r.ec == make_error_code(image::Error::wrong_file_format), "signature-code", r.ec.message());
                c.event("damage_detected", 1);
            }
            else {
                // Damage was to something that does not matter
                image::Size size = img->get_size();
                VF_REQUIRE(at >= 33 && size.width == png.width && size.height == png.height, "damage-missed", "damage at byte " << at << " of " << png);
                c.event("damage_ignored", 1);
            }
            break;
        }
        default: {
            // Arbitrary damage in spite of correct checksums
            std::string d = data;
            for (std::uint64_t k = 1 + c.rng.below(4); k > 0; --k) {
                std::size_t at = c.rng.chance(1, 3) ? 8 + c.rng.below(std::min<std::size_t>(60, d.size() - 8)) : c.rng.below(d.size());
                switch (c.rng.below(4)) {
                    case 0: d[at] = char(d[at] ^ (1 << c.rng.below(8))); break;
                    case 1: d[at] = char(c.rng.below(256)); break;
                    case 2: d.erase(at, 1 + c.rng.below(9)); break;
                    default: d.insert(at, 1 + c.rng.below(9), char(c.rng.below(256)));
                }
                if (d.size() < 40)
                    break;
            }
            fix_crcs(d);
            // Keep memory consumption reasonable
            if (d.size() > 24 && (d[16] | d[17] | d[20] | d[21]) != 0) {
                d[16] = d[17] = d[20] = d[21] = 0;
                fix_crcs(d);
            }
            if (d.size() > 24 && static_cast<unsigned char>(d[18]) > 3)
                d[18] = 3, fix_crcs(d);
            if (d.size() > 24 && static_cast<unsigned char>(d[22]) > 3)
                d[22] = 3, fix_crcs(d);
            std::unique_ptr<image::WritableImage> img;
            track = false;
            Result r = attempt(d, -1, false, -1, -1, &img);
            VF_REQUIRE(!r.threw, "damage-threw", png);
            if (!r.ok) {
                VF_REQUIRE(r.unchanged, "image-changed", "image was changed on failure: " << png);
                VF_REQUIRE(r.ec && r.ec != g_odd_error, "damage-code", r.ec.message());
                c.event("mutant_rejected", 1);
            }
            else {
                image::Size size = img->get_size();
                auto u = [&](std::size_t at) { return static_cast<unsigned char>(d[at]); };
                int w = u(18) << 8 | u(19), h = u(22) << 8 | u(23);
                VF_REQUIRE(size.width == w && size.height == h, "mutant-size", size.width << "x" << size.height << " expected " << w << "x" << h);
                // Must be usable
                if (w * h < 200000)
                    native(*img);
                // Same as what libpng makes of it
                Png other;
                if (decode(d, other).empty() && !other.has_key && other.type != indexed && w * h < 200000)
                    check_loaded(other, *img, "mutant");
                c.event("mutant_accepted", 1);
            }
        }
    }
    c.nontrivial(vf::Hash().add(data).get());
}

VF_MONITOR(g04_save_failure, 4000, 100000)
{
    Subject s = any_subject(c.rng, c.rng.chance(1, 3));
    const image::FileFormat& format = *image::get_file_format_png();
    std::locale loc = std::locale::classic();
    image::PNGSaveConfig special;
    special.use_adam7_interlacing = c.rng.chance(1, 2);
    image::FileFormat::SpecialSaveConfigRegistry specials;
    specials.register_(std::as_const(special));
    struct Result {
        bool threw = false, ok = false, triggered = false;
        std::error_code ec = g_odd_error;
        long writes = 0, notes = 0;
        std::string data;
    };
    auto attempt = [&](long write_fail, bool write_throw, long track_fail) {
        Result r;
        Drain sink;
        sink.fail_at = write_fail;
        sink.do_throw = write_throw;
        sink.error = std::error_code(28, std::system_category());
        Tracker tracker;
        tracker.size = s.image->get_size();
        tracker.fail_at = track_fail;
        Log logger;
        image::FileFormat::SaveConfig config;
        config.tracker = &tracker;
        config.special = &specials;
        try {
            r.ok = format.try_save(*s.image, sink, loc, logger, config, r.ec);
        }
        catch (Boom&) {
            r.threw = true;
        }
        r.writes = sink.calls;
        r.notes = long(tracker.calls.size());
        r.triggered = sink.failed || tracker.failed;
        r.data = std::move(sink.data);
        return r;
    };
    Result base = attempt(-1, false, -1);
    VF_REQUIRE(base.ok, "save-failed", s.name);
    VF_REQUIRE(base.writes > 0 && base.notes > 0, "no-output", s.name);
    std::error_code full(28, std::system_category());
    switch (c.rng.below(4)) {
        case 0: {
            long at = long(c.rng.below(std::uint64_t(base.writes)));
            Result r = attempt(at, false, -1);
            VF_REQUIRE(r.triggered && !r.ok && !r.threw && r.ec == full, "write-error", "write error at call " << at << " of " << base.writes << ": ok=" << r.ok << " " << r.ec.message());
            VF_REQUIRE(base.data.compare(0, r.data.size(), r.data) == 0, "write-order", s.name);
            c.event("write_error", 1);
            break;
        }
        case 1: {
            bool w = c.rng.chance(1, 2);
            long at = long(c.rng.below(std::uint64_t(w ? base.writes : base.notes)));
            Result r = attempt(w ? at : -1, true, w ? -1 : at);
            VF_REQUIRE(r.triggered && r.threw, "exception-lost", "exception thrown by " << (w ? "sink" : "tracker") << " at call " << at << " was lost: " << s.name);
            c.event(w ? "sink_threw" : "save_tracker_threw", 1);
            break;
        }
        case 2: {
            // Errors from the operating system, also when they are not seen until the end
            image::SaveConfig config;
            config.file_format = "png";
            config.write_buffer_size = c.rng.pick({ 0, 1, 100, 8192, 1000000 });
            std::error_code ec = g_odd_error;
            fs::path path = "/dev/full";
            bool ok = image::try_save(*s.image, path, loc, config, ec);
            VF_REQUIRE(!ok && ec == std::errc::no_space_on_device, "full-device", "ok=" << ok << " " << ec.message() << " buffer " << config.write_buffer_size);
            bool threw = false;
            try {
                image::save(*s.image, path, loc, config);
            }
            catch (std::system_error& e) {
                threw = e.code() == std::errc::no_space_on_device;
            }
            VF_REQUIRE(threw, "full-device-exception", s.name);
            path = fs::path(c.tmp_dir) / "missing" / "x.png";
            ec = g_odd_error;
            ok = image::try_save(*s.image, path, loc, config, ec);
            VF_REQUIRE(!ok && ec == std::errc::no_such_file_or_directory, "missing-dir", ec.message());
            std::unique_ptr<image::WritableImage> img;
            ec = g_odd_error;
            ok = image::try_load(path, img, loc, {}, ec);
            VF_REQUIRE(!ok && !img && ec == std::errc::no_such_file_or_directory, "missing-file", ec.message());
            threw = false;
            try {
                img = image::load(path, loc);
            }
            catch (std::system_error& e) {
                threw = e.code() == std::errc::no_such_file_or_directory;
            }
            VF_REQUIRE(threw && !img, "missing-file-exception", s.name);
            c.event("system_error", 1);
            break;
        }
        default: {
            // Nothing to save
            image::Size size { int(c.rng.below(2)) * 5, 0 };
            if (c.rng.chance(1, 2))
                std::swap(size.width, size.height);
            Subject t = any_image(c.rng, size, c.rng.chance(1, 2));
            Drain sink;
            std::error_code ec = g_odd_error;
            bool ok = format.try_save(*t.image, sink, loc, log::Logger::get_null(), ec);
            VF_REQUIRE(!ok && ec == make_error_code(image::Error::image_size_out_of_range), "empty-image", ec.message() << " for " << t.name);
            VF_REQUIRE(sink.data.empty(), "empty-image-output", t.name);
            c.event("empty_image", 1);
        }
    }
    c.nontrivial(vf::Hash().add(base.data).get());
}

} // unnamed namespace
