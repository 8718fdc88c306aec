#include "files.hpp"
using namespace c10;
namespace {
VF_MONITOR(buffered_posix, 2000, 40000) { history<core::BufferedPosixTextFile>(c); }
VF_MONITOR(buffered_windows, 3000, 60000) { history<core::BufferedWindowsTextFile>(c); }
VF_MONITOR(buffered_load_save, 300, 10000) { load_save<core::BufferedWindowsTextFile>(c); }
VF_MONITOR(buffered_windows_faults, 1000, 20000) { full_device<core::BufferedWindowsTextFile>(c); }
VF_MONITOR(buffered_windows_growing, 500, 10000) { growing<core::BufferedWindowsTextFile>(c); }
}
