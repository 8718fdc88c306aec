// Random compositions of loggers against the model in world.hpp, one message at a time.

#include "world.hpp"

VF_MONITOR(routing, 6000, 150000)
{
    World w(c);
    int kind = int(c.rng.below(3)); // Narrow, wide, wide on top of narrow
    std::size_t roots = 1 + c.rng.below(3);
    for (std::size_t i = 0; i < roots; ++i) {
        if (kind == 1)
            w.add_root<wchar_t>();
        else
            w.add_root<char>();
    }
    if (kind == 2)
        w.encode<wchar_t>();
    std::size_t n = c.rng.below(12);
    for (std::size_t i = 0; i < n; ++i) {
        if (kind == 0 || (kind == 2 && c.rng.chance(1, 3)))
            w.derive<char>();
        else
            w.derive<wchar_t>();
        if (kind != 1 && c.rng.chance(1, 10)) {
            if (kind == 2)
                w.encode<wchar_t>();
            else
                w.encode<char>();
        }
    }
    for (int i = 0; i < 12; ++i) {
        if (kind == 1 || (kind == 2 && c.rng.chance(2, 3)))
            w.message<wchar_t>();
        else
            w.message<char>();
    }
    std::size_t h = 0;
    for (auto& d : w.dests)
        h += std::hash<std::string>()(d->expect);
    c.nontrivial(h);
    c.event(kind == 0 ? "narrow" : kind == 1 ? "wide" : "mixed");
    c.sample([&] { return w.descr; });
}
