#pragma once
// Exact reference linear algebra over rationals (numerator/denominator in __int128),
// independent of the code under test.
#include <array>
#include <cmath>
#include <limits>
#include <locale>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "vf.hpp"

namespace m {

using i128 = __int128;
using IMat = std::vector<std::vector<i128>>;

inline IMat imat(int r, int c) { return IMat(r, std::vector<i128>(c, 0)); }

inline IMat mul(const IMat& a, const IMat& b)
{
    int r = int(a.size()), n = int(b.size()), c = int(b[0].size());
    IMat x = imat(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
            for (int k = 0; k < n; ++k)
                x[i][j] += a[i][k] * b[k][j];
    return x;
}

// Determinant by Laplace expansion along the first row (small sizes).
inline i128 det(const IMat& a)
{
    int n = int(a.size());
    if (n == 0)
        return 1;
    if (n == 1)
        return a[0][0];
    i128 s = 0;
    for (int j = 0; j < n; ++j) {
        if (a[0][j] == 0)
            continue;
        IMat b = imat(n - 1, n - 1);
        for (int i = 1; i < n; ++i)
            for (int k = 0, l = 0; k < n; ++k)
                if (k != j)
                    b[i - 1][l++] = a[i][k];
        i128 d = a[0][j] * det(b);
        s += (j % 2 ? -d : d);
    }
    return s;
}

// Adjugate
inline IMat adj(const IMat& a)
{
    int n = int(a.size());
    IMat x = imat(n, n);
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            IMat b = imat(n - 1, n - 1);
            for (int r = 0, rr = 0; r < n; ++r) {
                if (r == i)
                    continue;
                for (int c = 0, cc = 0; c < n; ++c)
                    if (c != j)
                        b[rr][cc++] = a[r][c];
                ++rr;
            }
            i128 d = det(b);
            x[j][i] = ((i + j) % 2 ? -d : d);
        }
    }
    return x;
}

struct CommaPunct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
};
struct WCommaPunct : std::numpunct<wchar_t> {
    wchar_t do_decimal_point() const override { return L','; }
    wchar_t do_thousands_sep() const override { return L'.'; }
    std::string do_grouping() const override { return "\1"; }
};

template<class T> std::string num(T v)
{
    std::ostringstream out;
    out.imbue(std::locale::classic());
    out << v;
    return out.str();
}

// Format through narrow or wide stream having a hostile numeric locale
template<class V> std::string format(const V& v, bool wide)
{
    std::locale loc = std::locale(std::locale(std::locale::classic(), new CommaPunct), new WCommaPunct);
    if (wide) {
        std::wostringstream out;
        out.imbue(loc);
        out << v;
        std::wstring s = out.str();
        return std::string(s.begin(), s.end());
    }
    std::ostringstream out;
    out.imbue(loc);
    out << v;
    return out.str();
}

void check_formats(vf::Case& c);

} // namespace m
