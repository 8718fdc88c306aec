#include "driver.hpp"

VF_MONITOR(vector_copy, 2500, 100000)
{
    switch (c.index % 2) {
        case 0: run<core::Vector<EC, 4>>(c); break;
        case 1: run<core::Vector<ET>>(c); break;
    }
}
