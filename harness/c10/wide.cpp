#include "files.hpp"
using namespace c10;
namespace {
VF_MONITOR(wide_posix, 3000, 60000) { history<core::WidePosixTextFile>(c); }
VF_MONITOR(wide_windows, 5000, 100000) { history<core::WideWindowsTextFile>(c); }
VF_MONITOR(wide_posix_load_save, 300, 10000) { load_save<core::WidePosixTextFile>(c); }
VF_MONITOR(wide_windows_load_save, 300, 10000) { load_save<core::WideWindowsTextFile>(c); }
VF_MONITOR(wide_posix_faults, 1000, 20000) { full_device<core::WidePosixTextFile>(c); }
VF_MONITOR(wide_windows_faults, 1000, 20000) { full_device<core::WideWindowsTextFile>(c); }
VF_MONITOR(wide_posix_growing, 500, 10000) { growing<core::WidePosixTextFile>(c); }
VF_MONITOR(wide_windows_growing, 500, 10000) { growing<core::WideWindowsTextFile>(c); }
}
