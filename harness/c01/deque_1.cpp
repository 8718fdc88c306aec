#include "driver.hpp"

VF_MONITOR(deque_int_string, 3000, 100000)
{
    switch (c.index % 2) {
        case 0: run<core::Deque<int>>(c); break;
        case 1: run<core::Deque<std::string>>(c); break;
    }
}
