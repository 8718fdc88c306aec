// Histories of operations on several file objects and several paths against ideal byte arrays
#include "common.hpp"
#include <pty.h>
#include <sys/ioctl.h>

using namespace c11;

namespace {

struct Inode { std::string data; };

struct Handle {
    std::shared_ptr<Inode> inode; // Null when not open
    bool writable = false, append = false;
    std::size_t pos = 0;
    bool unknown = false;         // State after a failure to open is not specified
};

struct World {
    vf::Case& c;
    vf::Rng& r = c.rng;
    std::vector<fs::path> paths;
    std::vector<std::shared_ptr<Inode>> inodes;
    std::vector<File> files;
    std::vector<Handle> handles;
    fs::path dir, missing_dir;
    std::string log;
    vf::Hash sig;

    explicit World(vf::Case& c) : c(c)
    {
        fresh(c);
        std::size_t n = 1 + r.below(3);
        for (std::size_t i = 0; i < n; ++i) {
            paths.push_back(fs::path(c.tmp_dir) / ("f" + std::to_string(i)));
            inodes.push_back(nullptr);
            if (r.chance(1, 2)) {
                std::string data = random_bytes(r, r.size(60));
                spit(paths[i], data);
                inodes[i] = std::make_shared<Inode>(Inode { data });
            }
        }
        dir = fs::path(c.tmp_dir) / "d";
        fs::create_directory(dir);
        missing_dir = fs::path(c.tmp_dir) / "nope" / "f";
        std::size_t m = 1 + r.below(3);
        files.resize(m);
        handles.resize(m);
    }

    void note(const std::string& s) { log += s + "; "; }
    auto ctx() { return [this](std::ostream& o) { o << log.substr(log.size() > 900 ? log.size() - 900 : 0); }; }

    void check_disk()
    {
        for (std::size_t i = 0; i < paths.size(); ++i) {
            VF_EQ(fs::exists(paths[i]), bool(inodes[i]), "exists", [&](std::ostream& o) { o << "path " << i << " "; ctx()(o); });
            if (inodes[i])
                VF_EQ(vf::show(slurp(paths[i])), vf::show(inodes[i]->data), "disk-content", [&](std::ostream& o) { o << "path " << i << " "; ctx()(o); });
        }
    }

    void do_open(std::size_t k)
    {
        File& f = files[k];
        Handle& h = handles[k];
        int target = int(r.below(paths.size() + 2));
        fs::path path = (target < int(paths.size()) ? paths[target] : target == int(paths.size()) ? dir : missing_dir);
        bool fine = r.chance(1, 2);
        File::Mode mode = File::Mode(r.below(4));
        auto am = File::AccessMode::read_only;
        auto cm = File::CreateMode::never;
        auto wm = File::WriteMode::normal;
        if (fine) {
            if (r.chance(3, 4)) {
                am = File::AccessMode::read_write;
                cm = File::CreateMode(r.below(3));
                wm = File::WriteMode(r.below(3));
                if (wm == File::WriteMode::trunc && cm == File::CreateMode::must)
                    cm = File::CreateMode::allow;
            }
        }
        else {
            switch (mode) {
                case File::Mode::read: break;
                case File::Mode::update: am = File::AccessMode::read_write; break;
                case File::Mode::write: am = File::AccessMode::read_write; cm = File::CreateMode::allow; wm = File::WriteMode::trunc; break;
                case File::Mode::append: am = File::AccessMode::read_write; cm = File::CreateMode::allow; wm = File::WriteMode::append; break;
            }
        }
        // Expectation
        std::error_condition expected;
        if (target == int(paths.size()))
            expected = (cm == File::CreateMode::must ? std::errc::file_exists : std::errc::is_a_directory);
        else if (target > int(paths.size()))
            expected = std::errc::no_such_file_or_directory;
        else if (!inodes[target] && cm == File::CreateMode::never)
            expected = std::errc::no_such_file_or_directory;
        else if (inodes[target] && cm == File::CreateMode::must)
            expected = std::errc::file_exists;
        bool by_try = r.chance(1, 2), by_ctor = !by_try && !fine && r.chance(1, 2);
        note("open#" + std::to_string(k) + " p" + std::to_string(target) + " a" + std::to_string(int(am)) + " c" + std::to_string(int(cm)) + " w" + std::to_string(int(wm)) + (by_ctor ? " ctor" : by_try ? " try" : ""));
        std::error_code ec = sentinel();
        bool ok = false;
        if (by_try) {
            ok = fine ? f.try_open(path, am, cm, wm, ec) : f.try_open(path, mode, ec);
            if (ok) VF_EQ(ec, sentinel(), "open-ec-touched", ctx());
        }
        else {
            try {
                if (by_ctor) f = File(path, mode);
                else if (fine) f.open(path, am, cm, wm);
                else f.open(path, mode);
                ok = true;
            }
            catch (std::filesystem::filesystem_error& e) {
                ec = e.code();
                VF_EQ(e.path1(), path, "open-exception-path", ctx());
            }
        }
        VF_EQ(ok, !expected, "open-outcome", [&](std::ostream& o) { o << "got " << ec << " expected " << expected.message() << " "; ctx()(o); });
        c.event(ok ? "open.ok" : "open.fail");
        if (!ok) {
            VF_REQUIRE(ec == expected, "open-error", [&](std::ostream& o) { o << "got " << ec << " expected " << expected.message() << " "; ctx()(o); });
            if (!by_ctor) h = {}, h.unknown = true;
            return;
        }
        VF_REQUIRE(f.is_open() && bool(f), "open-not-open", ctx());
        if (!inodes[target])
            inodes[target] = std::make_shared<Inode>();
        h = {};
        h.inode = inodes[target];
        h.writable = (am == File::AccessMode::read_write);
        h.append = (wm == File::WriteMode::append);
        if (wm == File::WriteMode::trunc)
            h.inode->data.clear();
        VF_REQUIRE(!f.is_directory() && !f.is_terminal(), "open-kind", ctx());
    }

    void do_read(std::size_t k)
    {
        File& f = files[k];
        Handle& h = handles[k];
        std::size_t size = r.size(90);
        std::string buf(size, '#');
        core::Span<char> span(buf);
        int how = int(r.below(5));
        note("read#" + std::to_string(k) + " " + std::to_string(size) + " h" + std::to_string(how));
        std::size_t n = 777777;
        std::error_code ec = sentinel();
        bool interrupted = r.chance(1, 2), interrupted_0 = interrupted;
        bool ok = false;
        try {
            switch (how) {
                case 0: n = f.read(span); ok = true; break;
                case 1: n = f.read_some(span); ok = true; break;
                case 2: ok = f.try_read(span, n, ec); break;
                case 3: ok = f.try_read_some(span, n, ec); break;
                case 4: ok = f.try_read_some_a(span, n, interrupted, ec); break;
            }
        }
        catch (std::system_error& e) { ec = e.code(); }
        bool expect = bool(h.inode); // Reading nothing from an empty file object fails too
        VF_EQ(ok, expect, "read-outcome", [&](std::ostream& o) { o << ec << " "; ctx()(o); });
        if (!ok) {
            VF_REQUIRE(ec != sentinel() && ec, "read-no-error", ctx());
            if (how == 2) VF_EQ(n, std::size_t(0), "read-fail-n", ctx());
            if (how >= 3) VF_EQ(n, std::size_t(777777), "read-fail-n-touched", ctx());
            if (how == 4) VF_EQ(interrupted, false, "read-fail-interrupted", ctx());
            c.event("read.fail");
            return;
        }
        if (how >= 2) VF_EQ(ec, sentinel(), "read-ec-touched", ctx());
        if (how == 4) VF_EQ(interrupted, interrupted_0, "read-interrupted-touched", ctx());
        const std::string& d = h.inode->data;
        std::size_t avail = (h.pos < d.size() ? d.size() - h.pos : 0);
        std::size_t m = std::min(avail, size);
        VF_EQ(n, m, "read-count", ctx());
        VF_EQ(vf::show(buf.substr(0, n)), vf::show(d.substr(std::min(h.pos, d.size()), m)), "read-bytes", ctx());
        h.pos += m;
        c.event(n > 0 ? "read.bytes" : "read.eof");
    }

    void do_write(std::size_t k)
    {
        File& f = files[k];
        Handle& h = handles[k];
        std::string data = random_bytes(r, r.size(70));
        int how = int(r.below(5));
        note("write#" + std::to_string(k) + " " + std::to_string(data.size()) + " h" + std::to_string(how));
        std::size_t n = 777777;
        std::error_code ec = sentinel();
        bool interrupted = r.chance(1, 2), interrupted_0 = interrupted;
        bool ok = false;
        try {
            switch (how) {
                case 0: f.write(data); n = data.size(); ok = true; break;
                case 1: n = f.write_some(data); ok = true; break;
                case 2: ok = f.try_write(data, n, ec); break;
                case 3: ok = f.try_write_some(data, n, ec); break;
                case 4: ok = f.try_write_some_a(data, n, interrupted, ec); break;
            }
        }
        catch (std::system_error& e) { ec = e.code(); }
        bool expect = h.inode && h.writable;
        VF_EQ(ok, expect, "write-outcome", [&](std::ostream& o) { o << ec << " "; ctx()(o); });
        if (!ok) {
            VF_REQUIRE(ec != sentinel() && ec, "write-no-error", ctx());
            if (how == 2) VF_EQ(n, std::size_t(0), "write-fail-n", ctx());
            if (how >= 3) VF_EQ(n, std::size_t(777777), "write-fail-n-touched", ctx());
            if (how == 4) VF_EQ(interrupted, false, "write-fail-interrupted", ctx());
            c.event("write.fail");
            return;
        }
        if (how >= 2) VF_EQ(ec, sentinel(), "write-ec-touched", ctx());
        if (how == 4) VF_EQ(interrupted, interrupted_0, "write-interrupted-touched", ctx());
        VF_EQ(n, data.size(), "write-count", ctx());
        std::string& d = h.inode->data;
        if (!data.empty()) {
            if (h.append) h.pos = d.size();
            if (d.size() < h.pos + data.size()) d.resize(h.pos + data.size(), '\0');
            d.replace(h.pos, data.size(), data);
            h.pos += data.size();
        }
        c.event("write.bytes", data.size());
    }

    void do_seek(std::size_t k)
    {
        File& f = files[k];
        Handle& h = handles[k];
        auto whence = File::Whence(r.below(3));
        long base = 0;
        if (h.inode) base = (whence == File::Whence::set ? 0 : whence == File::Whence::cur ? long(h.pos) : long(h.inode->data.size()));
        long offset = long(r.size(120)) - (r.chance(1, 2) ? base : 0) - (r.chance(1, 4) ? 20 : 0);
        int how = int(r.below(3));
        if (how == 2) whence = File::Whence::cur, offset = 0, base = long(h.pos);
        note("seek#" + std::to_string(k) + " " + std::to_string(offset) + " w" + std::to_string(int(whence)) + " h" + std::to_string(how));
        File::offset_type res = -77;
        std::error_code ec = sentinel();
        bool ok = false;
        try {
            switch (how) {
                case 0: res = f.seek(offset, whence); ok = true; break;
                case 1: ok = f.try_seek(offset, whence, res, ec); break;
                case 2: res = f.tell(); ok = true; break;
            }
        }
        catch (std::system_error& e) { ec = e.code(); }
        bool expect = (h.inode && base + offset >= 0);
        VF_EQ(ok, expect, "seek-outcome", [&](std::ostream& o) { o << ec << " "; ctx()(o); });
        c.event(ok ? "seek.ok" : "seek.fail");
        if (!ok) {
            VF_REQUIRE(ec != sentinel() && ec, "seek-no-error", ctx());
            return;
        }
        VF_EQ(long(res), base + offset, "seek-result", ctx());
        h.pos = std::size_t(base + offset);
    }

    void do_static()
    {
        std::size_t i = r.below(paths.size());
        int how = int(r.below(6));
        int bad = (r.chance(1, 5) ? 1 + int(r.below(2)) : 0);
        fs::path path = (bad == 1 ? dir : bad == 2 ? missing_dir : paths[i]);
        note("static" + std::to_string(how) + " p" + std::to_string(i) + " bad" + std::to_string(bad));
        std::error_condition expected;
        if (bad) expected = (bad == 1 ? std::errc::is_a_directory : std::errc::no_such_file_or_directory);
        bool exists = (!bad && inodes[i]);
        if (how < 2 && !bad && !exists) expected = std::errc::no_such_file_or_directory;
        std::error_code ec = sentinel();
        bool ok = false;
        std::string data = "orig";
        if (how == 2 || how == 3) data = random_bytes(r, r.chance(1, 6) ? r.size(20000) : r.size(60));
        else if (how == 0 && exists && r.chance(1, 6)) {}
        fs::file_time_type old = fs::file_time_type::clock::now() - std::chrono::hours(5);
        if (how >= 4 && exists) fs::last_write_time(path, old);
        auto now = fs::file_time_type::clock::now();
        try {
            switch (how) {
                case 0: data = File::load(path); ok = true; break;
                case 1: ok = File::try_load(path, data, ec); break;
                case 2: File::save(path, data); ok = true; break;
                case 3: ok = File::try_save(path, data, ec); break;
                case 4: File::touch(path); ok = true; break;
                case 5: ok = File::try_touch(path, ec); break;
            }
        }
        catch (std::filesystem::filesystem_error& e) { ec = e.code(); VF_EQ(e.path1(), path, "static-exception-path", ctx()); }
        VF_EQ(ok, !expected, "static-outcome", [&](std::ostream& o) { o << ec << " "; ctx()(o); });
        if (!ok) {
            VF_REQUIRE(ec == expected, "static-error", [&](std::ostream& o) { o << "got " << ec << " expected " << expected.message() << " "; ctx()(o); });
            c.event("static.fail");
            return;
        }
        if (how < 2) {
            VF_EQ(vf::show(data), vf::show(inodes[i]->data), "load-data", ctx());
            c.event("load");
            return;
        }
        if (!inodes[i]) inodes[i] = std::make_shared<Inode>();
        if (how < 4) {
            inodes[i]->data = data;
            c.event("save");
        }
        else {
            auto t = fs::last_write_time(path);
            VF_REQUIRE(t >= now - std::chrono::minutes(1) && t <= now + std::chrono::minutes(10), "touch-time", ctx());
            c.event("touch");
        }
    }

    void step()
    {
        std::size_t k = r.below(files.size());
        std::size_t op = r.below(20);
        if (handles[k].unknown && op >= 3) {
            // Reading, writing etc. would act on an unspecified state
            if (op < 10) { files[k].close(); note("close#" + std::to_string(k)); handles[k] = {}; }
            else do_open(k);
            return;
        }
        sig.add(op);
        if (op < 3) do_open(k);
        else if (op < 8) do_read(k);
        else if (op < 13) do_write(k);
        else if (op < 15) do_seek(k);
        else if (op < 16) do_static();
        else if (op < 17) {
            note("close#" + std::to_string(k));
            files[k].close();
            handles[k] = {};
            VF_REQUIRE(!files[k].is_open() && !files[k], "close-open", ctx());
        }
        else if (op < 18) {
            std::size_t l = r.below(files.size());
            if (l != k) {
                note("move#" + std::to_string(k) + "->" + std::to_string(l));
                if (r.chance(1, 2)) files[l] = std::move(files[k]);
                else { File tmp = std::move(files[k]); VF_REQUIRE(!files[k].is_open(), "moved-from-open", ctx()); files[l] = std::move(tmp); }
                VF_REQUIRE(!files[k].is_open(), "moved-from-open", ctx());
                handles[l] = handles[k];
                handles[k] = {};
                c.event("move");
            }
        }
        else if (op < 19) {
            std::size_t i = r.below(paths.size());
            if (inodes[i] && r.chance(1, 2)) {
                // Deletion leaves open file objects intact
                note("unlink p" + std::to_string(i));
                fs::remove(paths[i]);
                inodes[i] = nullptr;
                c.event("unlink");
            }
        }
        else {
            Handle& h = handles[k];
            if (!h.inode) {
                File::TerminalInfo ti;
                bool is_term = true;
                std::error_code ec = sentinel();
                VF_REQUIRE(!files[k].is_terminal(), "empty-terminal", ctx());
                VF_REQUIRE(!files[k].try_get_terminal_info(is_term, ti, ec) && ec != sentinel() && is_term, "empty-terminal-info", ctx());
                File::Info info;
                ec = sentinel();
                VF_REQUIRE(!files[k].try_get_file_info(info, ec) && ec != sentinel(), "empty-file-info", ctx());
                bool thrown = false;
                try { files[k].lock_shared(); } catch (std::system_error&) { thrown = true; }
                VF_REQUIRE(thrown, "empty-lock", ctx());
                files[k].unlock();
                c.event("empty");
            }
        }
        if (!handles[k].unknown)
            VF_EQ(files[k].is_open(), bool(handles[k].inode), "is-open", ctx());
    }
};

} // unnamed namespace

VF_MONITOR(file_history, 5000, 60000)
{
    int fds = count_fds();
    {
        World w(c);
        std::size_t n = 5 + c.rng.size(60);
        for (std::size_t i = 0; i < n; ++i) {
            w.step();
            if (i % 4 == 3) w.check_disk();
        }
        w.files.clear();
        w.check_disk();
        c.event("ops", n);
        c.nontrivial(w.sig.get());
        c.sample([&](std::ostream& o) { o << w.log.substr(0, 300); });
        VF_EQ(count_fds(), fds, "fd-leak", w.ctx());
    }
}

VF_MONITOR(file_terminal, 60, 600)
{
    std::signal(SIGHUP, SIG_IGN); // The terminal may become our controlling terminal
    int master = -1, slave = -1;
    char name[256];
    if (openpty(&master, &slave, name, nullptr, nullptr) != 0) {
        c.event("no-pty");
        c.nontrivial(0);
        return;
    }
    winsize ws = {};
    ws.ws_col = c.rng.below(65536);
    ws.ws_row = c.rng.below(65536);
    ioctl(master, TIOCSWINSZ, &ws);
    {
        File file;
        fs::path path = name;
        std::error_code ec = sentinel();
        if (file.try_open(path, File::Mode::update, ec)) {
            VF_REQUIRE(file.is_terminal(), "terminal-not-terminal", "");
            File::TerminalInfo ti;
            bool is_term = false;
            VF_REQUIRE(file.try_get_terminal_info(is_term, ti, ec) && is_term && ec == sentinel(), "terminal-info", "");
            VF_REQUIRE(ti.size && ti.size->width == int(ws.ws_col) && ti.size->height == int(ws.ws_row), "terminal-size", "");
            c.event("terminals");
        }
    }
    c.nontrivial(ws.ws_col);
    close(master);
    close(slave);
}
