#include "driver.hpp"

VF_MONITOR(vector_tracked, 2500, 100000)
{
    switch (c.index % 3) {
        case 0: run<core::Vector<EN>>(c); break;
        case 1: run<core::Vector<EN, 7>>(c); break;
        case 2: run<core::Vector<EM, 6>>(c); break;
    }
}
