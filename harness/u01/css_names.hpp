// CSS Level 3 extended color keywords (generated from the npm package color-name)
#pragma once
struct CssName { const char* name; int r, g, b; bool css21; };
inline const CssName css_names[] = {
    { "aliceblue", 240, 248, 255, false },
    { "antiquewhite", 250, 235, 215, false },
    { "aqua", 0, 255, 255, true },
    { "aquamarine", 127, 255, 212, false },
    { "azure", 240, 255, 255, false },
    { "beige", 245, 245, 220, false },
    { "bisque", 255, 228, 196, false },
    { "black", 0, 0, 0, true },
    { "blanchedalmond", 255, 235, 205, false },
    { "blue", 0, 0, 255, true },
    { "blueviolet", 138, 43, 226, false },
    { "brown", 165, 42, 42, false },
    { "burlywood", 222, 184, 135, false },
    { "cadetblue", 95, 158, 160, false },
    { "chartreuse", 127, 255, 0, false },
    { "chocolate", 210, 105, 30, false },
    { "coral", 255, 127, 80, false },
    { "cornflowerblue", 100, 149, 237, false },
    { "cornsilk", 255, 248, 220, false },
    { "crimson", 220, 20, 60, false },
    { "cyan", 0, 255, 255, false },
    { "darkblue", 0, 0, 139, false },
    { "darkcyan", 0, 139, 139, false },
    { "darkgoldenrod", 184, 134, 11, false },
    { "darkgray", 169, 169, 169, false },
    { "darkgreen", 0, 100, 0, false },
    { "darkgrey", 169, 169, 169, false },
    { "darkkhaki", 189, 183, 107, false },
    { "darkmagenta", 139, 0, 139, false },
    { "darkolivegreen", 85, 107, 47, false },
    { "darkorange", 255, 140, 0, false },
    { "darkorchid", 153, 50, 204, false },
    { "darkred", 139, 0, 0, false },
    { "darksalmon", 233, 150, 122, false },
    { "darkseagreen", 143, 188, 143, false },
    { "darkslateblue", 72, 61, 139, false },
    { "darkslategray", 47, 79, 79, false },
    { "darkslategrey", 47, 79, 79, false },
    { "darkturquoise", 0, 206, 209, false },
    { "darkviolet", 148, 0, 211, false },
    { "deeppink", 255, 20, 147, false },
    { "deepskyblue", 0, 191, 255, false },
    { "dimgray", 105, 105, 105, false },
    { "dimgrey", 105, 105, 105, false },
    { "dodgerblue", 30, 144, 255, false },
    { "firebrick", 178, 34, 34, false },
    { "floralwhite", 255, 250, 240, false },
    { "forestgreen", 34, 139, 34, false },
    { "fuchsia", 255, 0, 255, true },
    { "gainsboro", 220, 220, 220, false },
    { "ghostwhite", 248, 248, 255, false },
    { "gold", 255, 215, 0, false },
    { "goldenrod", 218, 165, 32, false },
    { "gray", 128, 128, 128, true },
    { "green", 0, 128, 0, true },
    { "greenyellow", 173, 255, 47, false },
    { "grey", 128, 128, 128, false },
    { "honeydew", 240, 255, 240, false },
    { "hotpink", 255, 105, 180, false },
    { "indianred", 205, 92, 92, false },
    { "indigo", 75, 0, 130, false },
    { "ivory", 255, 255, 240, false },
    { "khaki", 240, 230, 140, false },
    { "lavender", 230, 230, 250, false },
    { "lavenderblush", 255, 240, 245, false },
    { "lawngreen", 124, 252, 0, false },
    { "lemonchiffon", 255, 250, 205, false },
    { "lightblue", 173, 216, 230, false },
    { "lightcoral", 240, 128, 128, false },
    { "lightcyan", 224, 255, 255, false },
    { "lightgoldenrodyellow", 250, 250, 210, false },
    { "lightgray", 211, 211, 211, false },
    { "lightgreen", 144, 238, 144, false },
    { "lightgrey", 211, 211, 211, false },
    { "lightpink", 255, 182, 193, false },
    { "lightsalmon", 255, 160, 122, false },
    { "lightseagreen", 32, 178, 170, false },
    { "lightskyblue", 135, 206, 250, false },
    { "lightslategray", 119, 136, 153, false },
    { "lightslategrey", 119, 136, 153, false },
    { "lightsteelblue", 176, 196, 222, false },
    { "lightyellow", 255, 255, 224, false },
    { "lime", 0, 255, 0, true },
    { "limegreen", 50, 205, 50, false },
    { "linen", 250, 240, 230, false },
    { "magenta", 255, 0, 255, false },
    { "maroon", 128, 0, 0, true },
    { "mediumaquamarine", 102, 205, 170, false },
    { "mediumblue", 0, 0, 205, false },
    { "mediumorchid", 186, 85, 211, false },
    { "mediumpurple", 147, 112, 219, false },
    { "mediumseagreen", 60, 179, 113, false },
    { "mediumslateblue", 123, 104, 238, false },
    { "mediumspringgreen", 0, 250, 154, false },
    { "mediumturquoise", 72, 209, 204, false },
    { "mediumvioletred", 199, 21, 133, false },
    { "midnightblue", 25, 25, 112, false },
    { "mintcream", 245, 255, 250, false },
    { "mistyrose", 255, 228, 225, false },
    { "moccasin", 255, 228, 181, false },
    { "navajowhite", 255, 222, 173, false },
    { "navy", 0, 0, 128, true },
    { "oldlace", 253, 245, 230, false },
    { "olive", 128, 128, 0, true },
    { "olivedrab", 107, 142, 35, false },
    { "orange", 255, 165, 0, true },
    { "orangered", 255, 69, 0, false },
    { "orchid", 218, 112, 214, false },
    { "palegoldenrod", 238, 232, 170, false },
    { "palegreen", 152, 251, 152, false },
    { "paleturquoise", 175, 238, 238, false },
    { "palevioletred", 219, 112, 147, false },
    { "papayawhip", 255, 239, 213, false },
    { "peachpuff", 255, 218, 185, false },
    { "peru", 205, 133, 63, false },
    { "pink", 255, 192, 203, false },
    { "plum", 221, 160, 221, false },
    { "powderblue", 176, 224, 230, false },
    { "purple", 128, 0, 128, true },
    { "red", 255, 0, 0, true },
    { "rosybrown", 188, 143, 143, false },
    { "royalblue", 65, 105, 225, false },
    { "saddlebrown", 139, 69, 19, false },
    { "salmon", 250, 128, 114, false },
    { "sandybrown", 244, 164, 96, false },
    { "seagreen", 46, 139, 87, false },
    { "seashell", 255, 245, 238, false },
    { "sienna", 160, 82, 45, false },
    { "silver", 192, 192, 192, true },
    { "skyblue", 135, 206, 235, false },
    { "slateblue", 106, 90, 205, false },
    { "slategray", 112, 128, 144, false },
    { "slategrey", 112, 128, 144, false },
    { "snow", 255, 250, 250, false },
    { "springgreen", 0, 255, 127, false },
    { "steelblue", 70, 130, 180, false },
    { "tan", 210, 180, 140, false },
    { "teal", 0, 128, 128, true },
    { "thistle", 216, 191, 216, false },
    { "tomato", 255, 99, 71, false },
    { "turquoise", 64, 224, 208, false },
    { "violet", 238, 130, 238, false },
    { "wheat", 245, 222, 179, false },
    { "white", 255, 255, 255, true },
    { "whitesmoke", 245, 245, 245, false },
    { "yellow", 255, 255, 0, true },
    { "yellowgreen", 154, 205, 50, false },
};
