#include "files.hpp"
using namespace c10;
namespace {
VF_MONITOR(wide_buffered_posix, 3000, 60000) { history<core::WideBufferedPosixTextFile>(c); }
VF_MONITOR(wide_buffered_windows, 5000, 100000) { history<core::WideBufferedWindowsTextFile>(c); }
VF_MONITOR(wide_buffered_load_save, 300, 10000) { load_save<core::WideBufferedWindowsTextFile>(c); }
VF_MONITOR(wide_buffered_posix_faults, 1000, 20000) { full_device<core::WideBufferedPosixTextFile>(c); }
VF_MONITOR(wide_buffered_windows_faults, 1000, 20000) { full_device<core::WideBufferedWindowsTextFile>(c); }
VF_MONITOR(wide_buffered_windows_growing, 500, 10000) { growing<core::WideBufferedWindowsTextFile>(c); }
}
