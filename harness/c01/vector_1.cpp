#include "driver.hpp"

VF_MONITOR(vector_int_string, 3000, 100000)
{
    switch (c.index % 4) {
        case 0: run<core::Vector<int>>(c); break;
        case 1: run<core::Vector<std::string>>(c); break;
        case 2: run<core::Vector<int, 12>>(c); break;
        case 3: run<core::Vector<std::string, 5>>(c); break;
    }
}
