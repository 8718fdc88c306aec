#pragma once
#include <csignal>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <system_error>
#include <vector>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <archon/core/buffer.hpp>
#include <archon/core/file.hpp>
#include <archon/core/span.hpp>
#include <archon/core/string_span.hpp>
#include "../../lib/vf.hpp"

namespace c11 {

using namespace archon;
using core::File;
namespace fs = std::filesystem;

inline std::string slurp(const fs::path& path)
{
    std::ifstream in(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), {});
}
inline void spit(const fs::path& path, const std::string& data)
{
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    out << data;
}
inline std::string random_bytes(vf::Rng& r, std::size_t n)
{
    std::string s(n, '\0');
    bool narrow = r.chance(1, 3);
    for (char& c : s) c = char(narrow ? "\r\n\0a\x1A"[r.below(5)] : int(r.below(256)));
    return s;
}
// The scratch directory of the case, emptied
inline fs::path fresh(vf::Case& c)
{
    fs::path dir = c.tmp_dir;
    for (auto& e : fs::directory_iterator(dir)) fs::remove_all(e.path());
    return dir;
}
inline int count_fds()
{
    int n = 0;
    for (auto& e : fs::directory_iterator("/proc/self/fd")) { (void)e; ++n; }
    return n;
}
inline std::error_code sentinel() { return std::make_error_code(std::errc::owner_dead); }

// Limits the size that files can grow to in this process, so that writes fail
struct SizeLimit {
    rlimit orig;
    SizeLimit() { std::signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &orig); }
    ~SizeLimit() { setrlimit(RLIMIT_FSIZE, &orig); }
    void set(std::size_t n) { rlimit l = orig; if (l.rlim_max == RLIM_INFINITY || n <= l.rlim_max) l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
    void lift() { setrlimit(RLIMIT_FSIZE, &orig); }
};

} // namespace c11
