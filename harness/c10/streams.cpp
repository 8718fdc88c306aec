// Text file streams
#include <archon/core/text_file_stream.hpp>
#include "common.hpp"
using namespace c10;
namespace {

template<class F> void stream_history(vf::Case& c)
{
    using C = typename F::char_type;
    using S = std::basic_string<C>;
    using T = std::char_traits<C>;
    auto& r = c.rng;
    std::filesystem::path path = c.tmp_dir + "/f";
    Model<C> m;
    m.windows = F::impl_type::has_windows_newline_codec;
    m.utf8 = r.chance(3, 4);
    m.content = some_content<C>(r, m.utf8, m.windows, r.size(60));
    spit(path, m.content);
    typename F::Config config;
    if (r.chance(4, 5)) {
        config.buffer_size = r.size(24);
        if constexpr (requires { config.impl.char_codec_buffer_size; }) config.impl.char_codec_buffer_size = r.size(24);
        if constexpr (requires { config.impl.newline_codec_buffer_size; }) config.impl.newline_codec_buffer_size = r.size(24);
    }
    core::File ext;
    bool use_ext = r.chance(1, 3);
    if (use_ext) ext.open(path, core::File::Mode::update);
    std::unique_ptr<F> stream;
    if (use_ext) stream = std::make_unique<F>(&ext, config);
    else if (r.chance(1, 2)) stream = std::make_unique<F>(path, core::File::Mode::update, config);
    else stream = std::make_unique<F>(core::File(path, core::File::Mode::update), config);
    stream->imbue(locale(m.utf8));
    auto& sb = *stream->rdbuf();
    std::string log = "content " + show(m.content) + ":";
    auto ctx = [&](std::ostream& o) { o << "windows=" << m.windows << " utf8=" << m.utf8 << " pos=" << m.pos << " content " << show(m.content) << " history: " << log; };
    int switches = 0;
    bool last_write = false;
    using off_type = typename T::off_type;
    std::vector<std::size_t> saved { 0 };
    for (int step = 0, steps = int(3 + r.below(20)); step < steps; ++step) {
        View<C> v = m.look();
        switch (r.below(12)) {
            case 0: { // single characters
                S s = some_text<C>(r, m.utf8, 1 + r.below(10));
                log += " sputc(" + show(s) + ")";
                for (C ch : s) VF_REQUIRE(!T::eq_int_type(sb.sputc(ch), T::eof()), "sputc", ctx);
                m.write(s);
                switches += !last_write; last_write = true;
                c.event("writes");
                break;
            }
            case 1: case 2: {
                S s = some_text<C>(r, m.utf8, r.size(30));
                log += " sputn(" + show(s) + ")";
                VF_EQ(std::size_t(sb.sputn(s.data(), std::streamsize(s.size()))), s.size(), "sputn", ctx);
                m.write(s);
                switches += !last_write; last_write = true;
                c.event("writes");
                break;
            }
            case 3: case 4: {
                std::size_t want = r.size(30);
                log += " sgetn(" + std::to_string(want) + ")";
                std::vector<C> buf(want);
                std::size_t n = std::size_t(sb.sgetn(buf.data(), std::streamsize(want)));
                std::size_t k = std::min(want, v.text.size());
                VF_EQ(n, k, "sgetn-count", ctx);
                VF_REQUIRE(std::equal(buf.begin(), buf.begin() + std::ptrdiff_t(k), v.text.begin()), "sgetn-text", ctx);
                m.read(v, k);
                switches += last_write; last_write = false;
                c.event("reads");
                break;
            }
            case 5: {
                int k = int(1 + r.below(10));
                log += " sbumpc*" + std::to_string(k);
                std::size_t i = 0;
                for (; k > 0; --k) {
                    bool peek = r.chance(1, 2);
                    if (peek) {
                        auto x = sb.sgetc();
                        VF_REQUIRE(i < v.text.size() ? T::eq_int_type(x, T::to_int_type(v.text[i])) : T::eq_int_type(x, T::eof()), "sgetc", "i=" << i << " " << ctx);
                    }
                    auto x = sb.sbumpc();
                    VF_REQUIRE(i < v.text.size() ? T::eq_int_type(x, T::to_int_type(v.text[i])) : T::eq_int_type(x, T::eof()), "sbumpc", "i=" << i << " " << ctx);
                    if (i < v.text.size()) {
                        ++i;
                        if (r.chance(1, 6)) {
                            auto y = sb.sungetc();
                            VF_REQUIRE(T::eq_int_type(y, x), "sungetc", ctx);
                            --i;
                            c.event("ungets");
                        }
                    }
                }
                m.read(v, i);
                switches += last_write; last_write = false;
                c.event("reads");
                break;
            }
            case 6: {
                log += " tell";
                auto p = sb.pubseekoff(0, std::ios_base::cur, r.chance(1, 2) ? std::ios_base::in : std::ios_base::out);
                VF_EQ(std::size_t(off_type(p)), m.pos, "tell", ctx);
                saved.push_back(m.pos);
                c.event("tells");
                break;
            }
            case 7: {
                std::size_t p = std::min(r.pick(saved), m.content.size());
                log += " seek(" + std::to_string(p) + ")";
                typename T::pos_type q { off_type(p) };
                VF_REQUIRE(off_type(sb.pubseekpos(q)) == off_type(p), "seek", ctx);
                m.pos = p;
                last_write = false;
                VF_REQUIRE(slurp(path) == m.content, "content-after-seek", ctx);
                c.event("seeks");
                break;
            }
            case 8: {
                log += " sync";
                VF_EQ(sb.pubsync(), 0, "sync", ctx);
                VF_REQUIRE(slurp(path) == m.content, "content-after-sync", ctx);
                c.event("syncs");
                last_write = false;
                break;
            }
            case 9: { // getline
                log += " getline";
                stream->clear();
                S line;
                bool ok = bool(std::getline(*stream, line));
                auto i = v.text.find(C('\n'));
                VF_EQ(ok, !v.text.empty(), "getline-verdict", ctx);
                if (ok) VF_REQUIRE(line == v.text.substr(0, i), "getline-text", "got " << show(line) << " " << ctx);
                m.read(v, i == v.text.npos ? v.text.size() : i + 1);
                stream->clear();
                switches += last_write; last_write = false;
                c.event("lines");
                break;
            }
            case 10: { // formatted output and flushing
                log += " <<";
                stream->clear();
                S s = some_text<C>(r, m.utf8, r.size(20));
                *stream << s << std::endl;
                VF_REQUIRE(stream->good(), "endl", ctx);
                m.write(s + C('\n'));
                VF_REQUIRE(slurp(path) == m.content, "content-after-endl", ctx);
                c.event("writes");
                switches += !last_write; last_write = false;
                break;
            }
            default: {
                log += " unshift";
                stream->unshift();
                VF_REQUIRE(!stream->fail(), "unshift", ctx);
                last_write = true;
            }
        }
    }
    stream->flush();
    VF_REQUIRE(slurp(path) == m.content, "content-final", "got " << show(slurp(path)) << ctx);
    stream.reset();
    if (use_ext) VF_REQUIRE(ext.is_open(), "external-file-closed", ctx);
    c.event("mode_switches", std::uint64_t(switches));
    if (switches > 1) c.nontrivial(vf::Hash().add(log).get());
    c.sample([&](std::ostream& o) { o << log; });
}

VF_MONITOR(posix_stream, 2000, 40000) { stream_history<core::PosixTextFileStream>(c); }
VF_MONITOR(windows_stream, 2000, 40000) { stream_history<core::WindowsTextFileStream>(c); }
VF_MONITOR(wide_posix_stream, 3000, 60000) { stream_history<core::WidePosixTextFileStream>(c); }
VF_MONITOR(wide_windows_stream, 4000, 80000) { stream_history<core::WideWindowsTextFileStream>(c); }
}
