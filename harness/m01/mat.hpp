#pragma once
#include "m.hpp"
#include <algorithm>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>

namespace m {

using namespace archon;

template<int M, int N, class T> math::Matrix<M, N, T> to_mat(const IMat& a)
{
    math::Matrix<M, N, T> x;
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            x[i][j] = T((long long)(a[i][j]));
    return x;
}
template<int N, class T> math::Vector<N, T> to_vec(const std::vector<i128>& a)
{
    math::Vector<N, T> x;
    for (int i = 0; i < N; ++i)
        x[i] = T((long long)(a[i]));
    return x;
}
template<int M, int N, class T> bool same(const math::Matrix<M, N, T>& x, const IMat& a)
{
    if (int(a.size()) != M || int(a[0].size()) != N)
        return false;
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            if (!(x.rows()[i].components()[j] == T((long long)(a[i][j]))))
                return false;
    return true;
}
template<int N, class T> bool same(const math::Vector<N, T>& x, const std::vector<i128>& a)
{
    for (int i = 0; i < N; ++i)
        if (!(x.components()[i] == T((long long)(a[i]))))
            return false;
    return int(a.size()) == N;
}
template<int M, int N, class T> void show_mat(std::ostream& out, const math::Matrix<M, N, T>& x)
{
    out.precision(20);
    out << "{";
    for (int i = 0; i < M; ++i) {
        out << "{";
        for (int j = 0; j < N; ++j)
            out << (j ? "," : "") << (long double)(x.rows()[i].components()[j]);
        out << "}";
    }
    out << "}";
}
inline void show_imat(std::ostream& out, const IMat& a)
{
    out << "{";
    for (auto& r : a) {
        out << "{";
        for (std::size_t j = 0; j < r.size(); ++j)
            out << (j ? "," : "") << (long long)(r[j]);
        out << "}";
    }
    out << "}";
}

inline i128 small(vf::Case& c, int lim)
{
    if (c.rng.chance(1, 4))
        return 0;
    return i128(c.rng.range(-lim, lim));
}
inline IMat random_imat(vf::Case& c, int r, int n, int lim)
{
    IMat a = imat(r, n);
    for (auto& row : a)
        for (auto& e : row)
            e = small(c, lim);
    return a;
}

template<int M, int N, class T, class U> void exact_ops(vf::Case& c, int lim)
{
    using R = decltype(T() + U());
    IMat a = random_imat(c, M, N, lim), b = random_imat(c, M, N, lim);
    auto x = to_mat<M, N, T>(a);
    auto y = to_mat<M, N, U>(b);
    auto info = [&](std::ostream& out) {
        out << M << "x" << N << " a="; show_imat(out, a); out << " b="; show_imat(out, b);
    };
    c.event((std::string("matrix.") + std::to_string(M) + "x" + std::to_string(N)).c_str());
    static_assert(std::is_same_v<decltype(x + y), math::Matrix<M, N, R>>);
    IMat s = imat(M, N), d = imat(M, N), n = imat(M, N);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j) {
            s[i][j] = a[i][j] + b[i][j];
            d[i][j] = a[i][j] - b[i][j];
            n[i][j] = -a[i][j];
        }
    VF_REQUIRE(same(x + y, s), "matrix-sum", info);
    VF_REQUIRE(same(x - y, d), "matrix-difference", info);
    VF_REQUIRE(same(-x, n), "matrix-negation", info);
    {
        math::Matrix<M, N, R> z(x);
        auto& r1 = (z += y);
        VF_REQUIRE(&r1 == &z && same(z, s), "matrix-compound-sum", info);
        math::Matrix<M, N, R> w(x);
        auto& r2 = (w -= y);
        VF_REQUIRE(&r2 == &w && same(w, d), "matrix-compound-difference", info);
    }
    // scalar products
    i128 k = small(c, lim);
    U ks = U((long long)(k));
    IMat sc = imat(M, N);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            sc[i][j] = a[i][j] * k;
    VF_REQUIRE(same(x * ks, sc) && same(ks * x, sc) && same(math::outer(x, ks), sc) && same(math::outer(ks, x), sc),
               "matrix-scalar-product", info);
    {
        math::Matrix<M, N, R> z(x);
        z *= ks;
        VF_REQUIRE(same(z, sc), "matrix-compound-scalar-product", info);
    }
    // division by a power of two is exact
    U p2 = U(1 << c.rng.below(4));
    if (c.rng.chance(1, 2))
        p2 = -p2;
    {
        math::Matrix<M, N, R> z = x / p2;
        math::Matrix<M, N, R> w(x);
        w /= p2;
        for (int i = 0; i < M; ++i)
            for (int j = 0; j < N; ++j)
                VF_REQUIRE(z[i][j] == R((long long)(a[i][j])) / R(p2) && w[i][j] == z[i][j],
                           "matrix-scalar-quotient", info);
    }
    // transpose
    IMat t = imat(N, M);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            t[j][i] = a[i][j];
    VF_REQUIRE(same(math::transpose(x), t), "transpose", info);
    // matrix * matrix (a * transpose(b): M x M, transpose(b) * a ...)
    IMat tb = imat(N, M);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            tb[j][i] = b[i][j];
    auto yt = to_mat<N, M, U>(tb);
    VF_REQUIRE(same(x * yt, mul(a, tb)) && same(math::inner(x, yt), mul(a, tb)), "matrix-product", info);
    VF_REQUIRE(same(yt * x, mul(tb, a)) && same(math::inner(yt, x), mul(tb, a)), "matrix-product-2", info);
    {
        IMat q = random_imat(c, N, N, lim);
        auto z = to_mat<N, N, U>(q);
        VF_REQUIRE(same(x * z, mul(a, q)), "matrix-product-3", info);
        math::Matrix<M, N, R> w(x);
        w *= z;
        VF_REQUIRE(same(w, mul(a, q)), "matrix-compound-product", info);
    }
    // matrix * vector, vector * matrix
    {
        std::vector<i128> v(N), u(M), mv(M), um(N);
        for (auto& e : v) e = small(c, lim);
        for (auto& e : u) e = small(c, lim);
        for (int i = 0; i < M; ++i)
            for (int j = 0; j < N; ++j) {
                mv[i] += a[i][j] * v[j];
                um[j] += u[i] * a[i][j];
            }
        auto vv = to_vec<N, U>(v);
        auto uu = to_vec<M, U>(u);
        VF_REQUIRE(same(x * vv, mv) && same(math::inner(x, vv), mv), "matrix-vector-product", info);
        VF_REQUIRE(same(uu * x, um) && same(math::inner(uu, x), um), "vector-matrix-product", info);
        IMat o = imat(M, N);
        for (int i = 0; i < M; ++i)
            for (int j = 0; j < N; ++j)
                o[i][j] = u[i] * v[j];
        VF_REQUIRE(same(math::outer(to_vec<M, T>(u), vv), o), "outer-product", info);
    }
    // Rows, columns, diagonals, submatrices
    {
        int col = int(c.rng.below(N)), row = int(c.rng.below(M));
        auto cv = x.get_col(col);
        for (int i = 0; i < M; ++i)
            VF_REQUIRE(cv[i] == x.rows()[i].components()[col], "get-col", info);
        auto z = x;
        std::vector<i128> u(M);
        for (auto& e : u) e = small(c, lim);
        auto& r = z.set_col(col, to_vec<M, T>(u));
        IMat e = a;
        for (int i = 0; i < M; ++i)
            e[i][col] = u[i];
        VF_REQUIRE(&r == &z && same(z, e), "set-col", info);
        std::vector<i128> v(N);
        for (auto& q : v) q = small(c, lim);
        z = x;
        z[row] = to_vec<N, T>(v);
        e = a;
        e[row] = v;
        VF_REQUIRE(same(z, e), "set-row", info);
        constexpr int D = (M < N ? M : N);
        auto dg = x.get_diag();
        for (int i = 0; i < D; ++i)
            VF_REQUIRE(dg[i] == x.rows()[i].components()[i], "get-diag", info);
        std::vector<i128> w(D);
        for (auto& q : w) q = small(c, lim);
        z = x;
        z.set_diag(to_vec<D, T>(w));
        e = a;
        for (int i = 0; i < D; ++i)
            e[i][i] = w[i];
        VF_REQUIRE(same(z, e), "set-diag", info);
    }
    {
        constexpr int P = (M + 1) / 2, Q = (N + 1) / 2;
        int i0 = int(c.rng.below(M - P + 1)), j0 = int(c.rng.below(N - Q + 1));
        auto sub = x.template get_submatrix<P, Q>(i0, j0);
        IMat e = imat(P, Q);
        for (int i = 0; i < P; ++i)
            for (int j = 0; j < Q; ++j)
                e[i][j] = a[i0 + i][j0 + j];
        VF_REQUIRE(same(sub, e), "get-submatrix", info);
        IMat g = random_imat(c, P, Q, lim);
        auto z = x;
        z.set_submatrix(i0, j0, to_mat<P, Q, T>(g));
        IMat h = a;
        for (int i = 0; i < P; ++i)
            for (int j = 0; j < Q; ++j)
                h[i0 + i][j0 + j] = g[i][j];
        VF_REQUIRE(same(z, h), "set-submatrix", info);
        IMat ext = imat(M, N);
        for (int i = 0; i < P; ++i)
            for (int j = 0; j < Q; ++j)
                ext[i0 + i][j0 + j] = g[i][j];
        auto y2 = math::extend<M, N, T>(to_mat<P, Q, T>(g), i0, j0);
        VF_REQUIRE(same(y2, ext), "extend", info);
    }
    // Comparison is lexicographic
    {
        IMat b2 = b;
        if (c.rng.chance(1, 2)) {
            b2 = a;
            if (c.rng.chance(2, 3)) {
                int i = int(c.rng.below(M)), j = int(c.rng.below(N));
                b2[i][j] += int(c.rng.range(-1, 1));
                if (c.rng.chance(1, 2))
                    b2[int(c.rng.below(M))][int(c.rng.below(N))] += int(c.rng.range(-1, 1));
            }
        }
        auto y2 = to_mat<M, N, T>(b2);
        bool eq = (a == b2), lt = (a < b2);
        VF_REQUIRE((x == y2) == eq && (x != y2) == !eq && (x < y2) == lt && (x > y2) == (!eq && !lt) &&
                   (x <= y2) == (lt || eq) && (x >= y2) == !lt, "matrix-comparison",
                   [&](std::ostream& out) { show_imat(out, a); show_imat(out, b2); });
        c.event(eq ? "cmp.equal" : lt ? "cmp.less" : "cmp.greater");
    }
    {
        auto g = math::Matrix<M, N, T>::generate([&](int i, int j) { return (long long)(a[i][j]); });
        VF_REQUIRE(same(g, a), "generate", info);
        IMat id = imat(M, N);
        for (int i = 0; i < M && i < N; ++i)
            id[i][i] = 1;
        auto i1 = math::Matrix<M, N, T>::identity();
        VF_REQUIRE(same(i1, id), "identity", info);
        VF_REQUIRE(same(math::Matrix<M, N, T>(), imat(M, N)), "default-zero", info);
        VF_REQUIRE(same(math::Matrix<M, N, U>(x), a), "matrix-conversion", info);
    }
    std::string e = "[";
    for (int i = 0; i < M; ++i) {
        e += (i ? ", [" : "[");
        for (int j = 0; j < N; ++j)
            e += (j ? ", " : "") + num(x.rows()[i].components()[j] / T(4));
        e += "]";
    }
    e += "]";
    std::string f = format(x / T(4), c.rng.chance(1, 2));
    VF_EQ(f, e, "matrix-format", info);
    c.nontrivial(vf::Hash().add(M).add(N).add(e).get());
}

template<int N, class T, class U> void vector_ops(vf::Case& c, int lim)
{
    using R = decltype(T() + U());
    std::vector<i128> a(N), b(N);
    for (auto& e : a) e = small(c, lim);
    for (auto& e : b) e = small(c, lim);
    if (c.rng.chance(1, 3)) {
        b = a;
        b[c.rng.below(N)] += int(c.rng.range(-1, 1));
    }
    auto x = to_vec<N, T>(a);
    auto y = to_vec<N, U>(b);
    auto info = [&](std::ostream& out) { out << N << " a,b="; show_imat(out, IMat { a, b }); };
    std::vector<i128> s(N), d(N), n(N), p(N);
    i128 k = small(c, lim), dot = 0, sum = 0, sq = 0;
    U ks = U((long long)(k));
    for (int i = 0; i < N; ++i) {
        s[i] = a[i] + b[i];
        d[i] = a[i] - b[i];
        n[i] = -a[i];
        p[i] = a[i] * k;
        dot += a[i] * b[i];
        sum += a[i];
        sq += a[i] * a[i];
    }
    static_assert(std::is_same_v<decltype(x + y), math::Vector<N, R>>);
    VF_REQUIRE(same(x + y, s), "vector-sum", info);
    VF_REQUIRE(same(x - y, d), "vector-difference", info);
    VF_REQUIRE(same(-x, n), "vector-negation", info);
    VF_REQUIRE(same(x * ks, p) && same(ks * x, p) && same(math::outer(x, ks), p) && same(math::outer(ks, x), p),
               "vector-scalar-product", info);
    math::Vector<N, R> z(x);
    VF_REQUIRE(&(z += y) == &z && same(z, s), "vector-compound-sum", info);
    z = math::Vector<N, R>(x);
    VF_REQUIRE(&(z -= y) == &z && same(z, d), "vector-compound-difference", info);
    z = math::Vector<N, R>(x);
    VF_REQUIRE(&(z *= ks) == &z && same(z, p), "vector-compound-scalar-product", info);
    VF_REQUIRE(math::dot(x, y) == R((long long)(dot)) && math::inner(x, y) == R((long long)(dot)), "dot-product", info);
    VF_REQUIRE(math::sum(x) == T((long long)(sum)), "vector-component-sum", info);
    VF_REQUIRE(math::sq_sum(x) == T((long long)(sq)), "vector-square-sum", info);
    long double l = std::sqrt((long double)((long long)(sq)));
    VF_REQUIRE(std::fabs((long double)(math::len(x)) - l) <= 4 * l * (long double)(std::numeric_limits<T>::epsilon()),
               "vector-length", info);
    {
        bool eq = (a == b), lt = (a < b);
        auto y2 = to_vec<N, T>(b);
        VF_REQUIRE((x == y2) == eq && (x != y2) == !eq && (x < y2) == lt && (x > y2) == (!eq && !lt) &&
                   (x <= y2) == (lt || eq) && (x >= y2) == !lt, "vector-comparison", info);
    }
    i128 sqb = 0;
    for (auto e : b)
        sqb += e * e;
    if (sqb != 0) {
        // Projection of a on b
        math::Vector<N, R> pr = math::proj(x, y);
        for (int i = 0; i < N; ++i) {
            long double e = (long double)((long long)(dot)) * (long double)((long long)(b[i])) /
                (long double)((long long)(sqb));
            long double tol = 8 * (long double)(std::numeric_limits<R>::epsilon()) * std::fabs(e);
            VF_REQUIRE(std::fabs((long double)(pr[i]) - e) <= tol, "projection", info);
        }
        c.event("vector.proj");
    }
    if constexpr (N == 2) {
        auto q = math::perp(x);
        VF_REQUIRE(same(q, { -a[1], a[0] }), "perpendicular", info);
    }
    if constexpr (N == 3) {
        std::vector<i128> cr { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
        VF_REQUIRE(same(math::cross(x, y), cr) && same(x * y, cr), "cross-product", info);
        math::Vector<3, R> w(x);
        w *= y;
        VF_REQUIRE(same(w, cr), "compound-cross-product", info);
        c.event("vector.cross");
    }
    U p2 = U(1 << c.rng.below(4));
    {
        math::Vector<N, R> q = x / p2;
        math::Vector<N, R> w(x);
        w /= p2;
        for (int i = 0; i < N; ++i)
            VF_REQUIRE(q[i] == R((long long)(a[i])) / R(p2) && w[i] == q[i], "vector-scalar-quotient", info);
    }
    std::string e = "[";
    for (int i = 0; i < N; ++i)
        e += (i ? ", " : "") + num(x.components()[i] / T(8));
    e += "]";
    std::string f = format(x / T(8), c.rng.chance(1, 2));
    VF_EQ(f, e, "vector-format", info);
    c.event("vector.ops");
    c.nontrivial(vf::Hash().add(N).add(e).get());
}

// LUP decomposition
template<int M, int N, class T> void lup(vf::Case& c, int lim, bool fractional)
{
    IMat a = random_imat(c, M, N, lim);
    if (c.rng.chance(1, 4)) { // Rank deficiency
        int i = int(c.rng.below(M)), j = int(c.rng.below(M));
        a[i] = a[j];
        if (i == j)
            std::fill(a[i].begin(), a[i].end(), i128(0));
    }
    if (c.rng.chance(1, 6)) {
        int j = int(c.rng.below(N));
        for (auto& r : a)
            r[j] = 0;
    }
    auto x = to_mat<M, N, T>(a);
    if (fractional) {
        for (int i = 0; i < M; ++i)
            for (int j = 0; j < N; ++j)
                x[i][j] *= T(c.rng.unit());
    }
    auto b = x;
    constexpr int K = (M < N ? M : N);
    std::array<int, std::size_t(K)> piv = math::decompose(b);
    auto info = [&](std::ostream& out) {
        show_mat(out, x); out << " -> "; show_mat(out, b); out << " pivots";
        for (int p : piv)
            out << " " << p;
    };
    bool swapped = false, zero_pivot = false;
    std::vector<std::vector<long double>> L(M, std::vector<long double>(K)), U(K, std::vector<long double>(N)),
        R(M, std::vector<long double>(N)), A(M, std::vector<long double>(N));
    for (int i = 0; i < K; ++i) {
        VF_REQUIRE(piv[i] >= i && piv[i] < M, "pivot-range", info);
        swapped = swapped || piv[i] != i;
        zero_pivot = zero_pivot || b[i][i] == 0;
    }
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < K; ++j)
            L[i][j] = (i == j ? 1 : i > j ? (long double)(b[i][j]) : 0);
    for (int i = 0; i < K; ++i)
        for (int j = i; j < N; ++j)
            U[i][j] = (long double)(b[i][j]);
    long double eps = (long double)(std::numeric_limits<T>::epsilon());
    long double scale = 0;
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < K; ++j)
            VF_REQUIRE(std::fabs(L[i][j]) <= 1 + 8 * eps, "partial-pivoting-multiplier", info);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            for (int k = 0; k < K; ++k) {
                R[i][j] += L[i][k] * U[k][j];
                scale = std::max(scale, std::fabs(L[i][k] * U[k][j]));
            }
    // P = P_0 P_1 ... P_(K-1), thus apply the last transposition first
    for (int k = K - 1; k >= 0; --k)
        std::swap(R[k], R[piv[k]]);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j) {
            scale = std::max(scale, std::fabs((long double)(x[i][j])));
            (void)A;
        }
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            VF_REQUIRE(std::fabs(R[i][j] - (long double)(x[i][j])) <= 32 * eps * scale, "lup-reconstruction", info);
    // The pivots are those that make the multipliers at most one in magnitude: first column
    // can be judged directly
    long double mx = 0;
    for (int i = 0; i < M; ++i)
        mx = std::max(mx, std::fabs((long double)(x[i][0])));
    VF_REQUIRE(std::fabs((long double)(x[piv[0]][0])) == mx, "first-pivot", info);
    c.event(swapped ? "lup.swapped" : "lup.unswapped");
    if (zero_pivot)
        c.event("lup.zero-pivot");
    if (M != N)
        c.event("lup.rectangular");
    c.nontrivial(vf::Hash().add(M).add(N).add(vf::hash_bytes(&piv[0], sizeof piv)).add((long long)(a[0][0])).get());
}

template<int N, class T> void inverse(vf::Case& c, int lim)
{
    IMat a = random_imat(c, N, N, lim);
    int shape = int(c.rng.below(6));
    bool structurally_singular = false;
    if (shape == 0) { // permutation-like
        a = imat(N, N);
        std::vector<int> p(N);
        for (int i = 0; i < N; ++i)
            p[i] = i;
        for (int i = N - 1; i > 0; --i)
            std::swap(p[i], p[c.rng.below(i + 1)]);
        for (int i = 0; i < N; ++i)
            a[i][p[i]] = (c.rng.chance(1, 2) ? 1 : i128(c.rng.range(1, lim)));
    }
    else if (shape == 1) { // zero row or column
        structurally_singular = true;
        int k = int(c.rng.below(N));
        bool row = c.rng.chance(1, 2);
        for (int i = 0; i < N; ++i)
            (row ? a[k][i] : a[i][k]) = 0;
    }
    auto x = to_mat<N, N, T>(a);
    i128 d = det(a);
    long double ds = 1; // Hadamard type scale
    for (auto& r : a) {
        long double s = 0;
        for (auto e : r)
            s += std::fabs((long double)((long long)(e)));
        ds *= std::max(s, 1.0L);
    }
    long double eps = (long double)(std::numeric_limits<T>::epsilon());
    auto info = [&](std::ostream& out) { show_imat(out, a); out << " det=" << (long long)(d); };
    long double det_err = std::fabs((long double)(math::det(x)) - (long double)((long long)(d)));
    VF_REQUIRE(det_err <= 64 * eps * ds, "determinant", info);
    i128 tr = 0;
    for (int i = 0; i < N; ++i)
        tr += a[i][i];
    VF_REQUIRE(math::tr(x) == T((long long)(tr)), "trace", info);
    if (structurally_singular) {
        auto y = x;
        VF_REQUIRE(math::det(x) == 0, "determinant-singular", info);
        VF_REQUIRE(!math::try_inv(y), "inverse-of-singular", info);
        auto z = math::inv(x);
        VF_REQUIRE(same(z, imat(N, N)), "inverse-of-singular-is-zero", info);
        c.event("inv.singular");
        c.nontrivial(vf::Hash().add(N).add(1).add((long long)(tr)).get());
        return;
    }
    if (d == 0) {
        c.event("inv.numerically-singular"); // Rounding decides; not judged
        return;
    }
    IMat ad = adj(a);
    // Condition-like number: max |A| * max |A^-1| * N
    long double na = 0, ni = 0;
    for (int i = 0; i < N; ++i) {
        long double s1 = 0, s2 = 0;
        for (int j = 0; j < N; ++j) {
            s1 += std::fabs((long double)((long long)(a[i][j])));
            s2 += std::fabs((long double)((long long)(ad[i][j])) / (long double)((long long)(d)));
        }
        na = std::max(na, s1);
        ni = std::max(ni, s2);
    }
    long double cond = na * ni;
    long double tol = 64 * N * N * eps * cond * ni;
    if (tol > ni / 4) {
        c.event("inv.ill-conditioned");
        return;
    }
    auto judge = [&](const math::Matrix<N, N, T>& z, const char* key) {
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                long double e = (long double)((long long)(ad[i][j])) / (long double)((long long)(d));
                VF_REQUIRE(std::fabs((long double)(z[i][j]) - e) <= tol, key,
                           [&](std::ostream& out) { info(out); out << " inverse="; show_mat(out, z); });
            }
    };
    judge(math::inv(x), "inverse");
    auto y = x;
    VF_REQUIRE(math::try_inv(y), "inverse-of-regular", info);
    judge(y, "try-inverse");
    judge(T(1) / x, "reciprocal");
    {
        // b / a = b * inv(a)
        IMat b = random_imat(c, 2, N, lim);
        auto q = to_mat<2, N, T>(b) / x;
        math::Matrix<2, N, T> q2(to_mat<2, N, T>(b));
        q2 /= x;
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < N; ++j) {
                long double e = 0, s = 0;
                for (int k = 0; k < N; ++k) {
                    e += (long double)((long long)(b[i][k])) * (long double)((long long)(ad[k][j])) /
                        (long double)((long long)(d));
                    s += std::fabs((long double)((long long)(b[i][k])));
                }
                VF_REQUIRE(std::fabs((long double)(q[i][j]) - e) <= 2 * tol * (s + 1) && q[i][j] == q2[i][j],
                           "matrix-quotient", info);
            }
    }
    c.event("inv.regular");
    c.nontrivial(vf::Hash().add(N).add((long long)(d)).add((long long)(tr)).get());
    // Triangular inverses, in place, other triangle untouched
    bool unitri = c.rng.chance(1, 2), upper = c.rng.chance(1, 2);
    IMat t = random_imat(c, N, N, 4);
    bool zero_diag = c.rng.chance(1, 5);
    for (int i = 0; i < N; ++i)
        if (t[i][i] == 0)
            t[i][i] = (c.rng.chance(1, 2) ? -2 : 1);
    if (zero_diag)
        t[c.rng.below(N)] [0] = t[0][0]; // perturb something irrelevant, keeps entropy
    int zi = -1;
    if (zero_diag) {
        zi = int(c.rng.below(N));
        t[zi][zi] = 0;
    }
    auto tm = to_mat<N, N, T>(t);
    IMat eff = imat(N, N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            if (i == j)
                eff[i][j] = (unitri ? 1 : t[i][j]);
            else if (upper ? i < j : i > j)
                eff[i][j] = t[i][j];
        }
    auto before = tm;
    bool ok = upper ? (unitri ? math::try_upper_tri_inv<true>(tm) : math::try_upper_tri_inv<false>(tm)) :
        (unitri ? math::try_lower_tri_inv<true>(tm) : math::try_lower_tri_inv<false>(tm));
    auto info2 = [&](std::ostream& out) {
        show_imat(out, t); out << (upper ? " upper" : " lower") << (unitri ? " unitri" : "") << " -> "; show_mat(out, tm);
    };
    VF_REQUIRE(ok == (unitri || zi < 0), "triangular-inverse-result", info2);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            bool outside = (upper ? i > j : i < j) || (unitri && i == j);
            if (outside)
                VF_REQUIRE(tm[i][j] == before[i][j], "triangular-inverse-untouched-part", info2);
        }
    if (ok) {
        i128 td = det(eff);
        IMat ta = adj(eff);
        long double mi = 0, ma = 0;
        for (int i = 0; i < N; ++i) {
            long double s1 = 0, s2 = 0;
            for (int j = 0; j < N; ++j) {
                s1 += std::fabs((long double)((long long)(ta[i][j])) / (long double)((long long)(td)));
                s2 += std::fabs((long double)((long long)(eff[i][j])));
            }
            mi = std::max(mi, s1);
            ma = std::max(ma, s2);
        }
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                bool inside = (i == j ? !unitri : upper ? i < j : i > j);
                if (!inside)
                    continue;
                long double e = (long double)((long long)(ta[i][j])) / (long double)((long long)(td));
                VF_REQUIRE(std::fabs((long double)(tm[i][j]) - e) <= 64 * N * N * eps * mi * ma * mi,
                           "triangular-inverse", info2);
            }
        c.event(upper ? "tri.upper" : "tri.lower");
    }
    else
        c.event("tri.singular");
}

} // namespace m
