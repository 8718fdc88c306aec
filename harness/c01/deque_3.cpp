#include "driver.hpp"

VF_MONITOR(deque_copy, 3000, 100000)
{
    switch (c.index % 2) {
        case 0: run<core::Deque<EC>>(c); break;
        case 1: run<core::Deque<ET>>(c); break;
    }
}
