#include "files.hpp"
using namespace c10;
namespace {
VF_MONITOR(posix, 1500, 30000) { history<core::PosixTextFile>(c); }
VF_MONITOR(windows, 3000, 60000) { history<core::WindowsTextFile>(c); }
VF_MONITOR(text_file, 500, 10000) { history<core::TextFile>(c); }
VF_MONITOR(posix_load_save, 300, 10000) { load_save<core::PosixTextFile>(c); }
VF_MONITOR(windows_load_save, 300, 10000) { load_save<core::WindowsTextFile>(c); }
VF_MONITOR(posix_faults, 500, 10000) { full_device<core::PosixTextFile>(c); }
VF_MONITOR(windows_faults, 1000, 20000) { full_device<core::WindowsTextFile>(c); }
VF_MONITOR(windows_growing, 500, 10000) { growing<core::WindowsTextFile>(c); }
}
