// U04: Camera model (perspective projection) and Perlin noise against independent formulas.

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

#include <archon/core/random.hpp>
#include <archon/core/span.hpp>
#include <archon/math/vector.hpp>
#include <archon/util/perlin_noise.hpp>
#include <archon/util/perspect_proj.hpp>

#include "vf.hpp"

using namespace archon;

namespace {

using L = long double;
constexpr L pi = 3.141592653589793238462643383279502884L;

bool close(L a, L b, L tol = 1E-12L)
{
    return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}

#define CLOSE(a, b, tol, key, stream) \
    VF_REQUIRE(close(L(a), L(b), tol), key, stream << ": " << double(a) << " vs. " << double(b))


double logreal(vf::Rng& rng, double lo, double hi)
{
    return std::exp(rng.real(std::log(lo), std::log(hi)));
}


// Solid angle of a rectangular pyramid, given tangents of half angles
L solid_angle(L tx, L ty)
{
    L sx = tx / std::sqrt(1 + tx * tx), sy = ty / std::sqrt(1 + ty * ty);
    return 4 * std::asin(sx * sy);
}


VF_MONITOR(u04_projection, 60000, 2000000)
{
    util::PerspectiveProjection p;
    vf::Rng& rng = c.rng;
    p.view_dist = logreal(rng, 0.05, 10);
    p.far_to_near_clip_ratio = logreal(rng, 1.5, 1E6);
    p.zoom_factor = (rng.chance(1, 4) ? 1 : logreal(rng, 0.05, 50));
    p.camera_dist = logreal(rng, 0.01, 1E4);
    double a = 1, b = 1; // Width and height of viewport in meters (model)
    // Resolution
    if (rng.chance(1, 2)) {
        double h = logreal(rng, 1, 1000), v = logreal(rng, 1, 1000);
        p.set_resol_dpcm(h, v);
        CLOSE(p.horz_dot_pitch, 0.01L / h, 1E-15L, "dpcm-pitch", "horizontal dot pitch");
        CLOSE(p.vert_dot_pitch, 0.01L / v, 1E-15L, "dpcm-pitch", "vertical dot pitch");
        CLOSE(p.get_horz_resol_dpcm(), h, 1E-14L, "dpcm", "horizontal resolution");
        CLOSE(p.get_vert_resol_dpcm(), v, 1E-14L, "dpcm", "vertical resolution");
        CLOSE(p.get_horz_resol_dpi(), h * 2.54L, 1E-14L, "dpi", "horizontal resolution");
        CLOSE(p.get_vert_resol_dpi(), v * 2.54L, 1E-14L, "dpi", "vertical resolution");
    }
    else if (rng.chance(1, 2)) {
        double h = logreal(rng, 1, 3000), v = logreal(rng, 1, 3000);
        p.set_resol_dpi(h, v);
        CLOSE(p.horz_dot_pitch, 0.0254L / h, 1E-15L, "dpi-pitch", "horizontal dot pitch");
        CLOSE(p.vert_dot_pitch, 0.0254L / v, 1E-15L, "dpi-pitch", "vertical dot pitch");
        CLOSE(p.get_horz_resol_dpi(), h, 1E-14L, "dpi", "horizontal resolution");
        CLOSE(p.get_vert_resol_dpi(), v, 1E-14L, "dpi", "vertical resolution");
        CLOSE(p.get_horz_resol_dpcm(), h / 2.54L, 1E-14L, "dpcm", "horizontal resolution");
        CLOSE(p.get_vert_resol_dpcm(), v / 2.54L, 1E-14L, "dpcm", "vertical resolution");
    }
    // Viewport
    if (rng.chance(1, 2)) {
        int w = int(rng.below(5)) == 0 ? 1 + int(rng.below(3)) : 1 + int(rng.below(200000));
        int h = int(rng.below(5)) == 0 ? 1 + int(rng.below(3)) : 1 + int(rng.below(200000));
        p.set_viewport_size_pixels(w, h);
        VF_EQ(p.get_viewport_width_pixels(), w, "pixels", "width of viewport in pixels");
        VF_EQ(p.get_viewport_height_pixels(), h, "pixels", "height of viewport in pixels");
        a = w * p.horz_dot_pitch;
        b = h * p.vert_dot_pitch;
        c.event("pixel_sizes");
    }
    else {
        a = logreal(rng, 0.001, 100);
        b = (rng.chance(1, 5) ? a : logreal(rng, 0.001, 100));
        p.set_viewport_size_meters(a, b);
        if (a / p.horz_dot_pitch < 1E9) {
            L x = L(a) / p.horz_dot_pitch;
            VF_REQUIRE(std::abs(x - p.get_viewport_width_pixels()) < 0.5L + 1E-9L * x, "meters-pixels", "width of viewport");
        }
        c.event("meter_sizes");
    }
    CLOSE(p.get_viewport_width_meters(), a, 1E-14L, "meters", "width of viewport");
    CLOSE(p.get_viewport_height_meters(), b, 1E-14L, "meters", "height of viewport");
    CLOSE(p.aspect_ratio, L(a) / b, 1E-14L, "aspect", "aspect ratio");
    L hf = L(a) / p.view_dist, vf_ = L(b) / p.view_dist, mf = std::sqrt(hf * vf_);
    CLOSE(p.mean_neutral_fov, mf, 1E-14L, "mean-fov", "mean neutral field of view");

    auto check = [&](L hf, L vf_) {
        L mf = std::sqrt(hf * vf_), df = std::sqrt(hf * hf + vf_ * vf_), z = p.zoom_factor;
        struct Case { double factor; L fov; const char* name; };
        double ff = logreal(rng, 0.1, 10);
        Case cases[] = {
            { p.get_mean_field_factor(), mf, "mean" },
            { p.get_horz_field_factor(), hf, "horizontal" },
            { p.get_vert_field_factor(), vf_, "vertical" },
            { p.get_diag_field_factor(), df, "diagonal" },
            { p.get_min_field_factor(), std::min(hf, vf_), "min" },
            { p.get_max_field_factor(), std::max(hf, vf_), "max" },
            { ff, ff * mf, "random" },
        };
        for (const Case& x : cases) {
            CLOSE(p.get_neutral_fov(x.factor), x.fov, 1E-13L, "neutral-fov", x.name << " neutral field of view");
            CLOSE(p.get_effective_fov(x.factor), x.fov / z, 1E-13L, "effective-fov", x.name << " effective field of view");
            CLOSE(p.get_neutral_angle_of_view(x.factor), 2 * std::atan(x.fov / 2), 1E-13L, "neutral-angle",
                  x.name << " neutral angle of view");
            CLOSE(p.get_effective_angle_of_view(x.factor), 2 * std::atan(x.fov / z / 2), 1E-13L, "effective-angle",
                  x.name << " effective angle of view");
        }
        CLOSE(p.get_neutral_fov(), mf, 1E-13L, "neutral-fov", "default neutral field of view");
        CLOSE(p.get_effective_fov(), mf / z, 1E-13L, "effective-fov", "default effective field of view");
        CLOSE(p.get_neutral_solid_angle_of_view(), solid_angle(hf / 2, vf_ / 2), 1E-9L, "neutral-solid-angle",
              "neutral solid angle of view for fields of view " << double(hf) << " and " << double(vf_));
        CLOSE(p.get_effective_solid_angle_of_view(), solid_angle(hf / z / 2, vf_ / z / 2), 1E-9L, "effective-solid-angle",
              "effective solid angle of view for fields of view " << double(hf / z) << " and " << double(vf_ / z));
        // Clipping
        L n = p.get_near_clip_dist(), f = p.get_far_clip_dist();
        CLOSE(f / n, p.far_to_near_clip_ratio, 1E-13L, "clip-ratio", "ratio of clipping distances");
        CLOSE(std::sqrt(n * f), p.camera_dist, 1E-13L, "clip-mean", "mean of clipping distances");
        CLOSE(p.get_near_clip_width(), n * hf / z, 1E-13L, "clip-width", "width at near clipping plane");
        CLOSE(p.get_near_clip_height(), n * vf_ / z, 1E-13L, "clip-height", "height at near clipping plane");
    };
    check(hf, vf_);

    // Setters
    int n = 1 + int(rng.below(4));
    for (int i = 0; i < n; i++) {
        L ar = p.aspect_ratio, z = p.zoom_factor;
        L hk = std::sqrt(ar), vk = 1 / hk; // Factors
        switch (rng.below(6)) {
            case 0: {
                double ff = logreal(rng, 0.1, 10), v = rng.real(0.01, 3);
                p.set_neutral_angle_of_view(v, ff);
                CLOSE(p.get_neutral_angle_of_view(ff), v, 1E-12L, "set-neutral-angle", "neutral angle of view");
                CLOSE(p.mean_neutral_fov * ff, 2 * std::tan(L(v) / 2), 1E-12L, "set-neutral-angle", "field of view");
                c.event("angles");
                break;
            }
            case 1: {
                double ff = logreal(rng, 0.1, 10), v = rng.real(0.01, 3);
                p.set_effective_angle_of_view(v, ff);
                CLOSE(p.get_effective_angle_of_view(ff), v, 1E-12L, "set-effective-angle", "effective angle of view");
                CLOSE(p.mean_neutral_fov * ff / z, 2 * std::tan(L(v) / 2), 1E-12L, "set-effective-angle", "field of view");
                c.event("angles");
                break;
            }
            case 2: {
                double v = rng.chance(1, 3) ? logreal(rng, 1E-4, 1) : rng.real(0.01, 6);
                p.set_neutral_solid_angle_of_view(v);
                CLOSE(p.get_neutral_solid_angle_of_view(), v, 1E-8L, "set-neutral-solid-angle", "neutral solid angle of view");
                L g = p.mean_neutral_fov;
                CLOSE(solid_angle(g * hk / 2, g * vk / 2), v, 1E-8L, "set-neutral-solid-angle", "solid angle");
                c.event("solid_angles");
                break;
            }
            case 3: {
                double v = rng.chance(1, 3) ? logreal(rng, 1E-4, 1) : rng.real(0.01, 6);
                p.set_effective_solid_angle_of_view(v);
                CLOSE(p.get_effective_solid_angle_of_view(), v, 1E-8L, "set-effective-solid-angle", "effective solid angle of view");
                L g = p.mean_neutral_fov / z;
                CLOSE(solid_angle(g * hk / 2, g * vk / 2), v, 1E-8L, "set-effective-solid-angle", "solid angle");
                c.event("solid_angles");
                break;
            }
            case 4: {
                double size = logreal(rng, 0.01, 100), ff = logreal(rng, 0.1, 10), zoom = p.zoom_factor;
                p.auto_dist(size, ff);
                L d = p.camera_dist, r = L(size) / 2;
                VF_REQUIRE(d > r, "auto-dist-inside", "camera inside sphere of interest");
                // Tangent cone of sphere
                L t = r / std::sqrt((d - r) * (d + r));
                // Cancellation occurs when camera is close to sphere
                CLOSE(t, p.mean_neutral_fov * L(ff) / 2, 1E-12L * (1 + t * t), "auto-dist", "fit of sphere of interest");
                VF_EQ(p.zoom_factor, zoom, "auto-dist-zoom", "zoom factor");
                c.event("auto_dist");
                break;
            }
            case 5: {
                double ff = logreal(rng, 0.1, 10), size = p.camera_dist * 2 * rng.real(0.001, 0.95), d = p.camera_dist;
                p.auto_zoom(size, ff);
                L r = L(size) / 2, t = r / std::sqrt((L(d) - r) * (L(d) + r));
                CLOSE(t, p.mean_neutral_fov * L(ff) / p.zoom_factor / 2, 1E-11L * (1 + t * t), "auto-zoom", "fit of sphere of interest");
                VF_EQ(p.camera_dist, d, "auto-zoom-dist", "camera distance");
                c.event("auto_zoom");
                break;
            }
        }
        CLOSE(p.aspect_ratio, ar, 0, "aspect-changed", "aspect ratio");
        L g = p.mean_neutral_fov;
        if (g > 1E-6L && g < 1E6L)
            check(g * hk, g * vk);
    }
    c.nontrivial(vf::Hash().add(p.mean_neutral_fov).add(p.camera_dist).add(p.zoom_factor).add(p.aspect_ratio).get());
    c.sample([&](std::ostream& out) { out << "fov " << p.mean_neutral_fov << " aspect " << p.aspect_ratio; });
}


// ---------------------------------------------------------------- Perlin noise

using Interp = util::PerlinNoiseBase::Interp;

template<Interp I> L fade(L t)
{
    switch (I) {
        case Interp::linear:
            return t;
        case Interp::smooth:
            return t * t * (3 - 2 * t);
        case Interp::smoother:
            return t * t * t * (10 + t * (6 * t - 15));
    }
    return 0;
}

template<int N, class T, Interp I> void perlin(vf::Case& c)
{
    using Noise = util::PerlinNoise<N, T, I>;
    vf::Rng& rng = c.rng;
    typename Noise::size_type size {};
    typename Noise::vec_type gauge, pos;
    std::size_t expect = 1;
    for (int i = 0; i < N; i++) {
        size[std::size_t(i)] = 1 + int(rng.below(N > 3 ? 3 : 6));
        gauge[i] = T(logreal(rng, 0.1, 10));
        pos[i] = T(rng.real(-5, 5));
        expect *= std::size_t(size[std::size_t(i)]) + 1;
    }
    VF_EQ(Noise::num_gradients(size), expect, "num-gradients", "number of gradients");
    // Exactly sized, such that overruns are detected
    std::unique_ptr<typename Noise::vec_type[]> gradients;
    if (rng.chance(1, 2))
        gradients = Noise::alloc_gradients(size);
    else
        gradients.reset(new typename Noise::vec_type[expect]);
    std::mt19937_64 engine(rng.next());
    Noise::init_gradients(size, gradients.get(), engine);
    for (std::size_t i = 0; i < expect; i++) {
        L s = 0;
        for (int j = 0; j < N; j++)
            s += L(gradients[i][j]) * gradients[i][j];
        VF_REQUIRE(std::abs(s - 1) < (sizeof(T) == 4 ? 1E-5L : 1E-13L), "unit", "gradient is not a unit vector (" << double(s) << ")");
    }
    Noise noise(size, gauge, pos, gradients.get());
    L a = Noise::amplitude();
    L eps = std::numeric_limits<T>::epsilon();
    int n = 10 + int(rng.below(20));
    for (int k = 0; k < n; k++) {
        typename Noise::vec_type x;
        std::array<L, std::size_t(N)> u {}; // Position in grid units
        bool outside = false, vertex = true;
        for (int i = 0; i < N; i++) {
            int s = size[std::size_t(i)];
            switch (rng.below(8)) {
                case 0:
                    x[i] = pos[i];
                    break;
                case 1:
                    x[i] = pos[i] + gauge[i] * T(rng.range(0, s));
                    break;
                case 2:
                    x[i] = pos[i] - T(logreal(rng, 1E-3, 1E9));
                    break;
                case 3:
                    x[i] = pos[i] + gauge[i] * T(s) + T(logreal(rng, 1E-3, rng.chance(1, 3) ? 1E30 : 10));
                    break;
                default:
                    x[i] = pos[i] + gauge[i] * T(rng.real(0, s));
            }
            L v = (L(x[i]) - pos[i]) / gauge[i];
            if (v < 0 || v > s)
                outside = true;
            v = std::clamp<L>(v, 0, s);
            if (v != std::floor(v))
                vertex = false;
            u[std::size_t(i)] = v;
        }
        if (outside)
            c.event("outside");
        T value = noise(x);
        // Direct evaluation
        std::array<int, std::size_t(N)> cell {};
        for (int i = 0; i < N; i++)
            cell[std::size_t(i)] = std::min(int(u[std::size_t(i)]), size[std::size_t(i)] - 1);
        L expected = 0, scale = 0;
        for (int corner = 0; corner < (1 << N); corner++) {
            std::size_t index = 0, stride = 1;
            L w = 1, dot = 0;
            for (int i = 0; i < N; i++) {
                std::size_t j = std::size_t(i);
                int bit = corner >> i & 1;
                L t = u[j] - cell[j];
                w *= bit ? fade<I>(t) : 1 - fade<I>(t);
                index += stride * std::size_t(cell[j] + bit);
                stride *= std::size_t(size[j] + 1);
            }
            for (int i = 0; i < N; i++) {
                std::size_t j = std::size_t(i);
                int bit = corner >> i & 1;
                dot += L(gradients[index][i]) * (u[j] - cell[j] - bit);
            }
            expected += w * dot;
            scale = std::max(scale, std::abs(dot));
        }
        // Positions are rounded, at the scale of the origin of the grid
        L slack = 0;
        for (int i = 0; i < N; i++)
            slack += eps * 16 * (1 + size[std::size_t(i)] + std::abs(L(pos[i]) / gauge[i]));
        VF_REQUIRE(std::abs(value - expected) <= slack * 8, "value", "noise is " << value << " rather than " <<
                   double(expected) << " (" << N << " dimensions, off by " << double(std::abs(value - expected) / eps) << " eps)");
        VF_REQUIRE(std::abs(L(value)) <= a * (1 + 64 * eps) + slack, "amplitude", "noise exceeds amplitude: " << value << " vs. " << double(a));
        T from = T(rng.real(-10, 10)), to = T(rng.real(-10, 10));
        T value_2 = noise(x, from, to);
        L e2 = from + (L(to) - from) * (1 + value / a) / 2;
        VF_REQUIRE(std::abs(value_2 - e2) <= 64 * eps * (std::abs(L(from)) + std::abs(L(to))), "range",
                   "noise in range " << from << " to " << to << " is " << value_2 << " rather than " << double(e2));
        if (vertex && !outside) {
            c.event("vertices");
            VF_REQUIRE(std::abs(L(value)) <= slack * 8, "vertex", "noise is not zero at grid vertex");
        }
        c.event("noise_values");
    }
    c.nontrivial(vf::Hash().add(N).add(int(I)).add(gradients[0][0]).get());
    c.event("grids");
}

template<int N, class T> void perlin_1(vf::Case& c)
{
    switch (c.rng.below(3)) {
        case 0:
            return perlin<N, T, Interp::linear>(c);
        case 1:
            return perlin<N, T, Interp::smooth>(c);
        default:
            return perlin<N, T, Interp::smoother>(c);
    }
}

template<class T> void perlin_2(vf::Case& c)
{
    switch (c.rng.below(4)) {
        case 0:
            return perlin_1<1, T>(c);
        case 1:
            return perlin_1<2, T>(c);
        case 2:
            return perlin_1<3, T>(c);
        default:
            return perlin_1<4, T>(c);
    }
}

VF_MONITOR(u04_perlin, 8000, 200000)
{
    c.rng.chance(1, 2) ? perlin_2<double>(c) : perlin_2<float>(c);
}

// Sizes that are invalid, or too large
VF_MONITOR(u04_perlin_sizes, 3000, 50000)
{
    using Noise = util::PerlinNoise<3, float>;
    Noise::size_type size {};
    __int128 expect = 1;
    bool bad = false, overflow = false;
    for (int& s : size) {
        s = c.rng.pick({ 0, -1, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 1, 2, 3, 65535, 1 << 20, 1 << 21 });
        if (s < 1)
            bad = true;
        if (!bad && !overflow) {
            expect *= __int128(s) + 1;
            if (expect > __int128(std::numeric_limits<std::size_t>::max()))
                overflow = true;
        }
    }
    enum { ok, out_of_range, other } what = ok;
    std::size_t n = 0;
    try {
        n = Noise::num_gradients(size);
    }
    catch (std::out_of_range&) {
        what = out_of_range;
    }
    catch (std::overflow_error&) {
        what = other;
    }
    if (overflow || bad) {
        VF_REQUIRE(what != ok, "size-accepted", "bad grid size accepted " << size[0] << " " << size[1] << " " << size[2]);
        if (bad && !overflow)
            VF_REQUIRE(what == out_of_range, "size-error", "wrong exception");
        c.event(overflow ? "overflows" : "bad_sizes");
    }
    else {
        VF_REQUIRE(what == ok && __int128(n) == expect, "size", "number of gradients");
    }
    c.nontrivial(vf::Hash().add(size[0]).add(size[1]).add(size[2]).get());
}

} // unnamed namespace
