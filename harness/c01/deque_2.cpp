#include "driver.hpp"

VF_MONITOR(deque_tracked, 3000, 100000)
{
    switch (c.index % 2) {
        case 0: run<core::Deque<EN>>(c); break;
        case 1: run<core::Deque<EM>>(c); break;
    }
}
