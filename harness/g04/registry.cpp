// Registry of file formats, and detection of file format
#include "images.hpp"
#include <algorithm>
#include <deque>
#include <fstream>
#include <filesystem>

namespace {
using namespace g04;

const std::error_code g_odd_error(77, std::generic_category());

struct Journal {
    vector<int> recognized; // Formats asked
    int loaded = -1, saved = -1;
    std::string seen;       // Bytes seen by the chosen format
};

struct Fake : image::FileFormat {
    int id = 0;
    std::string ident;
    vector<std::string> mimes_s, exts_s;
    vector<std::string_view> mimes, exts;
    std::string magic;
    std::size_t greed = 0; // Number of bytes read while recognizing
    bool fail = false;
    Journal* journal = nullptr;

    auto get_ident() const noexcept -> std::string_view override { return ident; }
    auto get_descr() const -> std::string_view override { return "fake"; }
    auto get_mime_types() const noexcept -> core::Span<const std::string_view> override { return core::Span<const std::string_view>(mimes.data(), mimes.size()); }
    auto get_filename_extensions() const noexcept -> core::Span<const std::string_view> override { return core::Span<const std::string_view>(exts.data(), exts.size()); }
    bool recognize(core::Source& source) const override
    {
        journal->recognized.push_back(id);
        std::string buf(std::max(greed, magic.size()), 0);
        std::size_t n = 0;
        std::error_code ec;
        if (!source.try_read(core::Span<char>(buf.data(), buf.size()), n, ec))
            return false;
        return n >= magic.size() && buf.compare(0, magic.size(), magic) == 0;
    }
    bool do_try_load(core::Source& source, std::unique_ptr<image::WritableImage>& img, const std::locale&, log::Logger&, const LoadConfig&, std::error_code& ec) const override
    {
        journal->loaded = id;
        for (;;) {
            char buf[100];
            std::size_t n = 0;
            if (!source.try_read(core::Span<char>(buf, 100), n, ec))
                return false;
            journal->seen.append(buf, n);
            if (n < 100)
                break;
        }
        if (fail) {
            ec = image::Error::bad_file;
            return false;
        }
        img = std::make_unique<g02::Img>();
        return true;
    }
    bool do_try_save(const image::Image&, core::Sink& sink, const std::locale&, log::Logger&, const SaveConfig&, std::error_code& ec) const override
    {
        journal->saved = id;
        std::size_t n = 0;
        if (fail) {
            ec = image::Error::saving_process_failed;
            return false;
        }
        return sink.try_write(std::string_view("saved"), n, ec);
    }
};

VF_MONITOR(g04_registry, 12000, 200000)
{
    std::deque<Fake> fakes;
    Journal journal;
    image::FileFormatRegistry registry;
    vector<const Fake*> model;
    auto word = [&](const char* prefix) { return std::string(prefix) + char('a' + c.rng.below(4)); };
    std::uint64_t num = c.rng.below(7);
    bool duplicates = false;
    for (std::uint64_t i = 0; i < num; ++i) {
        Fake& f = fakes.emplace_back();
        f.id = int(i);
        f.ident = c.rng.chance(1, 8) ? std::string("f0") : "f" + std::to_string(i);
        f.journal = &journal;
        for (std::uint64_t k = c.rng.below(3); k > 0; --k)
            f.mimes_s.push_back(word("image/"));
        for (std::uint64_t k = c.rng.below(3); k > 0; --k)
            f.exts_s.push_back(word("."));
        auto uniq = [](vector<std::string>& v) {
            if (v.size() == 2 && v[0] == v[1])
                v.pop_back();
        };
        uniq(f.mimes_s);
        uniq(f.exts_s);
        f.mimes.assign(f.mimes_s.begin(), f.mimes_s.end());
        f.exts.assign(f.exts_s.begin(), f.exts_s.end());
        f.magic = std::string(1 + c.rng.below(2), char('A' + c.rng.below(3)));
        f.greed = c.rng.pick({ 0, 1, 10, 255, 256, 300, 2000 });
        f.fail = c.rng.chance(1, 6);
        for (int again = 0; again < 2; ++again) {
            const Fake& g = again == 0 ? f : fakes[c.rng.below(fakes.size())];
            if (again == 1 && c.rng.chance(3, 4))
                break;
            bool dup = std::any_of(model.begin(), model.end(), [&](const Fake* h) { return h->ident == g.ident; });
            bool threw = false;
            try {
                registry.register_file_format(g);
            }
            catch (std::invalid_argument&) {
                threw = true;
            }
            VF_REQUIRE(threw == dup, "duplicate-registration", "registration of " << g.ident << " as format number " << model.size() << (dup ? " did not throw" : " threw"));
            if (dup)
                duplicates = true;
            else
                model.push_back(&g);
        }
    }
    if (duplicates)
        c.event("duplicate_registration", 1);
    // Lookup
    VF_EQ(registry.get_num_file_formats(), int(model.size()), "num-formats", "");
    for (std::size_t i = 0; i < model.size(); ++i)
        VF_REQUIRE(&registry.get_file_format(int(i)) == model[i], "format-at-index", i);
    for (int i = 0; i < 8; ++i) {
        std::string ident = "f" + std::to_string(i);
        const image::FileFormat* e = nullptr;
        for (auto* f : model)
            if (f->ident == ident)
                e = f;
        VF_REQUIRE(registry.lookup(ident) == e, "lookup", ident);
    }
    auto by = [&](bool mime, const std::string& s) {
        vector<const Fake*> r;
        for (auto* f : model) {
            auto& l = mime ? f->mimes_s : f->exts_s;
            if (std::find(l.begin(), l.end(), s) != l.end())
                r.push_back(f);
        }
        return r;
    };
    for (int i = 0; i < 5; ++i) {
        for (bool mime : { false, true }) {
            std::string s = std::string(mime ? "image/" : ".") + char('a' + i);
            auto e = by(mime, s);
            core::ArraySeededBuffer<const image::FileFormat*, 2> buffer;
            core::BufferContents tray(buffer);
            if (mime)
                registry.lookup_by_mime_type(s, tray);
            else
                registry.lookup_by_extension(s, tray);
            VF_REQUIRE(std::equal(tray.begin(), tray.end(), e.begin(), e.end()), "lookup-all", s << " of " << model.size() << " formats: found " << tray.size() << " expected " << e.size());
            const image::FileFormat* first = mime ? registry.lookup_by_mime_type(s) : registry.lookup_by_extension(s);
            VF_REQUIRE(first == (e.empty() ? nullptr : static_cast<const image::FileFormat*>(e[0])), "lookup-first", s);
        }
    }
    // Detection
    std::locale loc = std::locale::classic();
    for (int round = 0; round < 4; ++round) {
        std::string mime = c.rng.chance(1, 2) ? word("image/") : "", ext = c.rng.chance(1, 2) ? word(".") : "";
        std::string wanted = c.rng.chance(1, 4) ? "f" + std::to_string(c.rng.below(num + 1)) : "";
        const Fake* expected = nullptr;
        image::Error error = image::Error::file_format_detection_failed;
        vector<int> asked;
        std::string data(c.rng.below(3) == 0 ? c.rng.below(3) : c.rng.below(1000), char('A' + c.rng.below(3)));
        for (std::size_t i = 3; i < data.size(); ++i)
            data[i] = char(c.rng.next());
        auto matches = [&](const Fake* f) { return data.compare(0, f->magic.size(), f->magic) == 0; };
        journal = {};
        if (!wanted.empty()) {
            error = image::Error::file_format_unavailable;
            for (auto* f : model)
                if (f->ident == wanted)
                    expected = f;
        }
        std::error_code ec = g_odd_error;
        bool ok = false;
        if (c.rng.chance(2, 3)) {
            if (wanted.empty()) {
                auto ask = [&](const vector<const Fake*>& list) {
                    for (auto* f : list) {
                        if (expected || std::find(asked.begin(), asked.end(), f->id) != asked.end())
                            continue;
                        asked.push_back(f->id);
                        if (matches(f))
                            expected = f;
                    }
                };
                if (!mime.empty())
                    ask(by(true, mime));
                if (!ext.empty())
                    ask(by(false, ext));
                ask(model);
            }
            image::LoadConfig config;
            config.registry = &registry;
            config.file_format = wanted;
            Chunky source(data, c.rng.next());
            source.max_chunk = c.rng.pick({ 0, 1, 7, 300 });
            std::unique_ptr<image::WritableImage> img;
            if (c.rng.chance(1, 2)) {
                image::Input input(source);
                input.mime_type = mime;
                input.filename_extension = ext;
                ok = image::try_load_a(input, img, loc, config, ec);
            }
            else {
                mime.clear();
                // Redo without MIME type
                if (wanted.empty()) {
                    expected = nullptr;
                    asked.clear();
                    auto ask = [&](const vector<const Fake*>& list) {
                        for (auto* f : list) {
                            if (expected || std::find(asked.begin(), asked.end(), f->id) != asked.end())
                                continue;
                            asked.push_back(f->id);
                            if (matches(f))
                                expected = f;
                        }
                    };
                    if (!ext.empty())
                        ask(by(false, ext));
                    ask(model);
                }
                std::filesystem::path path = std::filesystem::path(c.tmp_dir) / ("file" + ext);
                std::ofstream(path, std::ios::binary).write(data.data(), std::streamsize(data.size()));
                config.read_buffer_size = c.rng.pick({ 0, 1, 100, 8192 });
                ok = image::try_load(path, img, loc, config, ec);
            }
            auto ctx = [&](std::ostream& o) { o << "mime=" << mime << " ext=" << ext << " format=" << wanted << " formats=" << model.size() << " data=" << vf::show(data.substr(0, 3)); };
            VF_EQ(journal.recognized, asked, "candidates", ctx);
            VF_EQ(journal.loaded, expected ? expected->id : -1, "chosen-format", ctx);
            if (expected) {
                VF_REQUIRE(journal.seen == data, "rewound", "format saw " << journal.seen.size() << " bytes of " << data.size() << ": " << ctx);
                VF_EQ(ok, !expected->fail, "load-result", ctx);
                VF_REQUIRE(bool(img) == ok, "load-image", ctx);
                if (ok)
                    VF_REQUIRE(ec == g_odd_error, "ec-changed", ctx);
                else
                    VF_REQUIRE(ec == make_error_code(image::Error::bad_file), "load-error", ctx);
            }
            else {
                VF_REQUIRE(!ok && !img && ec == make_error_code(error), "detection-error", "got " << ec.message() << ": " << ctx);
            }
            c.event(expected ? "load_detected" : "load_not_detected", 1);
        }
        else {
            auto choose = [&] {
                if (wanted.empty()) {
                    auto l = by(true, mime);
                    if (mime.empty() || l.empty())
                        l = by(false, ext);
                    expected = l.empty() ? nullptr : l[0];
                }
            };
            g02::Img img;
            image::SaveConfig config;
            config.registry = &registry;
            config.file_format = wanted;
            std::string got;
            if (c.rng.chance(1, 2)) {
                choose();
                Drain sink;
                image::Output output(sink);
                output.mime_type = mime;
                output.filename_extension = ext;
                ok = image::try_save_a(img, output, loc, config, ec);
                got = sink.data;
            }
            else {
                mime.clear();
                choose();
                std::filesystem::path path = std::filesystem::path(c.tmp_dir) / ("saved" + ext);
                std::filesystem::remove(path);
                config.write_buffer_size = c.rng.pick({ 0, 1, 100, 8192 });
                ok = image::try_save(img, path, loc, config, ec);
                std::ifstream in(path, std::ios::binary);
                got.assign(std::istreambuf_iterator<char>(in), {});
            }
            auto ctx = [&](std::ostream& o) { o << "save mime=" << mime << " ext=" << ext << " format=" << wanted << " formats=" << model.size(); };
            VF_EQ(journal.saved, expected ? expected->id : -1, "chosen-format", ctx);
            if (expected) {
                VF_EQ(ok, !expected->fail, "save-result", ctx);
                VF_EQ(got, std::string(ok ? "saved" : ""), "save-output", ctx);
                if (ok)
                    VF_REQUIRE(ec == g_odd_error, "ec-changed", ctx);
                else
                    VF_REQUIRE(ec == make_error_code(image::Error::saving_process_failed), "save-error", ctx);
            }
            else {
                VF_REQUIRE(!ok && ec == make_error_code(error), "detection-error", "got " << ec.message() << ": " << ctx);
            }
            c.event(expected ? "save_detected" : "save_not_detected", 1);
        }
    }
    if (model.size() > 1)
        c.nontrivial(vf::Hash().add(c.rng.next()).get());
}
} // unnamed namespace
