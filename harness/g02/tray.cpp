// Copying, filling, and repetition of pixels in trays
#include "model.hpp"

namespace {
using namespace g02;

VF_MONITOR(trays, 400, 12000)
{
    vf::Rng& rng = c.rng;
    int n = 1 + int(rng.below(4));
    image::Size size { int(rng.below(20)), int(rng.below(20)) };
    constexpr CompRepr R = CompRepr::int16;
    Board<R> a(rng, n, size);
    vector<Comps> model;
    i64 w = size.width, h = size.height;
    auto sync = [&] {
        model.clear();
        for (int y = 0; y < size.height; ++y) {
            for (int x = 0; x < size.width; ++x)
                model.push_back(a.at(x, y));
        }
    };
    auto verify = [&](const char* what) {
        VF_REQUIRE(a.intact(), "memory outside tray modified", what);
        for (int y = 0; y < size.height; ++y) {
            for (int x = 0; x < size.width; ++x) {
                VF_REQUIRE(a.at(x, y) == model[std::size_t(y * w + x)], what,
                           "(" << x << ", " << y << ") of " << w << "x" << h << ": " << str(a.at(x, y))
                           << " expected " << str(model[std::size_t(y * w + x)]));
            }
        }
        c.event(what);
    };
    auto any_box = [&](bool nonempty) {
        int x = int(rng.below(u64(w) + 1)), y = int(rng.below(u64(h) + 1));
        int bw = int(rng.below(u64(w - x) + 1)), bh = int(rng.below(u64(h - y) + 1));
        if (nonempty) {
            x = std::min(x, int(w) - 1);
            y = std::min(y, int(h) - 1);
            bw = std::max(1, std::min(bw, int(w) - x));
            bh = std::max(1, std::min(bh, int(h) - y));
        }
        return image::Box { { x, y }, { bw, bh } };
    };
    for (int i = 0; i < 8; ++i) {
        sync();
        switch (rng.below(5)) {
            case 0: {
                image::Box b = any_box(false);
                vector<image::comp_type<R>> px;
                Comps cs;
                for (int j = 0; j < n; ++j) {
                    double v = double(rng.below(65536));
                    cs.push_back(v);
                    px.push_back(store<R>(v));
                }
                if (rng.chance(1, 2))
                    a.tray().subtray(b).fill(px.data(), n);
                else
                    a.tray().iter.fill(px.data(), b, n);
                for (int y = 0; y < b.size.height; ++y) {
                    for (int x = 0; x < b.size.width; ++x)
                        model[std::size_t((b.pos.y + y) * w + b.pos.x + x)] = cs;
                }
                verify("fill");
                break;
            }
            case 1: {
                image::Box b = any_box(false);
                Board<R> other(rng, n, b.size);
                for (int y = 0; y < b.size.height; ++y) {
                    for (int x = 0; x < b.size.width; ++x) {
                        Comps cs;
                        for (int j = 0; j < n; ++j)
                            cs.push_back(double(rng.below(65536)));
                        other.set(x, y, cs);
                        model[std::size_t((b.pos.y + y) * w + b.pos.x + x)] = cs;
                    }
                }
                image::Tray<const image::comp_type<R>> src = other.tray();
                if (rng.chance(1, 2))
                    src.copy_to((a.tray().iter + (b.pos - image::Pos())), n);
                else
                    a.tray().subtray(b).copy_from(src.iter, n);
                verify("copy");
                break;
            }
            default: {
                if (w == 0 || h == 0)
                    break;
                image::Box p = any_box(true);
                // Area that contains the pattern
                int x0 = int(rng.below(u64(p.pos.x) + 1)), y0 = int(rng.below(u64(p.pos.y) + 1));
                int x1 = p.pos.x + p.size.width + int(rng.below(u64(w - p.pos.x - p.size.width) + 1));
                int y1 = p.pos.y + p.size.height + int(rng.below(u64(h - p.pos.y - p.size.height) + 1));
                bool whole = rng.chance(1, 2);
                if (whole) {
                    x0 = y0 = 0;
                    x1 = int(w);
                    y1 = int(h);
                }
                for (int y = y0; y < y1; ++y) {
                    for (int x = x0; x < x1; ++x) {
                        i64 dx = (((x - p.pos.x) % p.size.width) + p.size.width) % p.size.width;
                        i64 dy = (((y - p.pos.y) % p.size.height) + p.size.height) % p.size.height;
                        model[std::size_t(y * w + x)] = a.at(int(p.pos.x + dx), int(p.pos.y + dy));
                    }
                }
                if (whole && rng.chance(1, 2))
                    a.tray().repeat(p, n);
                else
                    a.tray().iter.repeat(p, image::Box { { x0, y0 }, { x1 - x0, y1 - y0 } }, n);
                verify("repeat");
                break;
            }
        }
    }
    c.nontrivial(vf::Hash().add(size.width).add(size.height).add(n).get());
}

} // namespace
