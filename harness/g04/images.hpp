#pragma once
#include "../g02/model.hpp"
#include "oracle.hpp"

namespace g04 {
using g02::CompRepr;
using g02::Comps;
using g02::Format;

// Any image, along with whatever it depends on
struct Subject {
    std::string name;
    vector<std::shared_ptr<void>> keep;
    const image::Image* image = nullptr;
    Format format;  // Native
    int depth = 8;
};
Subject any_image(vf::Rng&, image::Size, bool plain);

// Native components of all pixels (after resolution through the palette)
vector<g02::Color> native(const image::Image&);
Format native_format(const image::Image&);
// Components of all pixels exactly as they are when transferred
vector<Comps> raw(const image::Image&, CompRepr, int channels);

} // namespace g04
