#include <array>
#include <cmath>
#include <locale>
#include <sstream>
#include <string>

#include "vf.hpp"
#include <archon/math/quaternion.hpp>
#include <archon/math/rotation.hpp>

using namespace archon;
using Q = math::Quaternion;
using V = Q::vector_type;

namespace {

using ld = long double;
using RV = std::array<ld, 3>;
using RQ = std::array<ld, 4>;
using RM = std::array<RV, 3>;

// ---- Reference mathematics in extended precision --------------------------------------

RQ qmul(const RQ& a, const RQ& b) // Hamilton's rules
{
    return {
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    };
}
RQ qconj(const RQ& a) { return { a[0], -a[1], -a[2], -a[3] }; }
ld qsq(const RQ& a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]; }
RV rodrigues(const RV& k, ld t, const RV& v) // k is unit
{
    ld c = std::cos(t), s = std::sin(t), d = k[0] * v[0] + k[1] * v[1] + k[2] * v[2];
    RV x { k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0] };
    RV r;
    for (int i = 0; i < 3; ++i)
        r[i] = v[i] * c + x[i] * s + k[i] * d * (1 - c);
    return r;
}
RV mapply(const RM& m, const RV& v)
{
    RV r {};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            r[i] += m[i][j] * v[j];
    return r;
}
ld len(const RV& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
RV ref(const V& v) { return { v.components()[0], v.components()[1], v.components()[2] }; }
RQ ref(const Q& q) { return { q.w, q.v.components()[0], q.v.components()[1], q.v.components()[2] }; }
RM ref(const Q::matrix_type& m) { return { ref(m.rows()[0]), ref(m.rows()[1]), ref(m.rows()[2]) }; }
ld dist(const RV& a, const RV& b) { return len({ a[0] - b[0], a[1] - b[1], a[2] - b[2] }); }
ld dist(const RQ& a, const RQ& b)
{
    return std::sqrt(qsq({ a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3] }));
}
// Rotation effected by the normalization of a quaternion
RV qrot(const RQ& q, const RV& v)
{
    RQ r = qmul(qmul(q, { 0, v[0], v[1], v[2] }), qconj(q));
    ld s = qsq(q);
    return { r[1] / s, r[2] / s, r[3] / s };
}

constexpr ld eps = 2.2204460492503131e-16L;
const ld pi = std::acos(-1.0L);

// ---- Generators ---------------------------------------------------------------------

double comp(vf::Case& c)
{
    switch (c.rng.below(6)) {
        case 0: return 0;
        case 1: return double(c.rng.range(-3, 3));
        case 2: return (c.rng.unit() * 2 - 1) * std::pow(10.0, double(c.rng.range(-8, 0)));
        default: return c.rng.unit() * 2 - 1;
    }
}
V vec(vf::Case& c) { return { comp(c), comp(c), comp(c) }; }
V unit(vf::Case& c)
{
    for (;;) {
        if (c.rng.chance(1, 4)) {
            V v {};
            v[int(c.rng.below(3))] = (c.rng.chance(1, 2) ? 1 : -1);
            return v;
        }
        V v = vec(c);
        RV r = ref(v);
        ld l = len(r);
        if (l < 1e-3L)
            continue;
        return { double(r[0] / l), double(r[1] / l), double(r[2] / l) };
    }
}
double angle(vf::Case& c)
{
    switch (c.rng.below(8)) {
        case 0: return 0;
        case 1: return double(pi) * double(c.rng.range(-4, 4)) / double(c.rng.range(1, 4));
        case 2: return double(pi) * (1 + (c.rng.unit() - 0.5) * std::pow(10.0, double(c.rng.range(-15, -1))));
        case 3: return (c.rng.chance(1, 2) ? 1 : -1) * std::pow(10.0, double(c.rng.range(-300, -1)));
        case 4: return (c.rng.unit() * 2 - 1) * std::pow(10.0, double(c.rng.range(-12, 0)));
        default: return (c.rng.unit() * 2 - 1) * double(2 * pi);
    }
}
Q quat(vf::Case& c)
{
    for (;;) {
        Q q(comp(c), comp(c), comp(c), comp(c));
        if (qsq(ref(q)) < 1e-6L)
            continue;
        if (c.rng.chance(1, 3)) {
            double s = std::pow(10.0, double(c.rng.range(-40, 40)));
            q = Q(q.w * s, q.v[0] * s, q.v[1] * s, q.v[2] * s);
        }
        return q;
    }
}
std::ostream& operator<<(std::ostream& out, const RQ& q)
{
    out.precision(20);
    return out << "(" << q[0] << "; " << q[1] << ", " << q[2] << ", " << q[3] << ")";
}
std::ostream& operator<<(std::ostream& out, const RV& q)
{
    out.precision(20);
    return out << "(" << q[0] << ", " << q[1] << ", " << q[2] << ")";
}

struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return ';'; }
    std::string do_grouping() const override { return "\1"; }
};
template<class T> std::string hostile(const T& v)
{
    std::ostringstream out;
    out.imbue(std::locale(std::locale::classic(), new Punct));
    out << v;
    return out.str();
}
std::string num(double v)
{
    std::ostringstream out;
    out.imbue(std::locale::classic());
    out << v;
    return out.str();
}

} // unnamed namespace


VF_MONITOR(m02_algebra, 40000, 1000000)
{
    bool ints = c.rng.chance(1, 2);
    auto gen = [&]() -> Q {
        if (ints)
            return Q(double(c.rng.range(-9, 9)), double(c.rng.range(-9, 9)), double(c.rng.range(-9, 9)), double(c.rng.range(-9, 9)));
        return quat(c);
    };
    Q a = gen(), b = gen();
    if (c.rng.chance(1, 4)) {
        b = a;
        switch (c.rng.below(5)) {
            case 0: b.w += a.w; break;
            case 1: b.v[0] -= 1 + a.v[0]; break;
            case 2: b.v[1] += 1; break;
            case 3: b.v[2] += 1 + a.v[2]; break;
            default: break;
        }
    }
    RQ ra = ref(a), rb = ref(b);
    auto info = [&](std::ostream& out) { out << "a=" << ra << " b=" << rb; };
    auto near = [&](const Q& x, const RQ& e, ld scale) {
        return ints ? ref(x) == e : dist(ref(x), e) <= 16 * eps * scale;
    };
    ld la = std::sqrt(qsq(ra)), lb = std::sqrt(qsq(rb));
    RQ s, d;
    for (int i = 0; i < 4; ++i) {
        s[i] = ra[i] + rb[i];
        d[i] = ra[i] - rb[i];
    }
    VF_REQUIRE(near(a + b, s, la + lb), "quaternion-sum", info);
    VF_REQUIRE(near(a - b, d, la + lb), "quaternion-difference", info);
    VF_REQUIRE(ref(-a) == (RQ { -ra[0], -ra[1], -ra[2], -ra[3] }), "quaternion-negation", info);
    VF_REQUIRE(near(a * b, qmul(ra, rb), la * lb), "quaternion-product", info);
    VF_REQUIRE(ref(math::conj(a)) == qconj(ra), "quaternion-conjugate", info);
    VF_REQUIRE(near(math::conj(a, b), qmul(qmul(rb, ra), qconj(rb)), la * lb * lb), "conjugate-by-quaternion", info);
    {
        RQ e = qmul(qmul(rb, { 0, ra[1], ra[2], ra[3] }), qconj(rb));
        V x = math::conj(a.v, b);
        VF_REQUIRE(near(Q(double(e[0]), x), e, la * lb * lb), "vector-conjugate-by-quaternion",
                   [&](std::ostream& out) { info(out); out << " got " << ref(x) << " expected " << e; });
    }
    VF_REQUIRE(std::fabs(ld(math::sq_sum(a)) - qsq(ra)) <= 8 * eps * qsq(ra), "quaternion-square-sum", info);
    VF_REQUIRE(std::fabs(ld(math::len(a)) - la) <= 8 * eps * la, "quaternion-length", info);
    Q x = a;
    VF_REQUIRE(&(x += b) == &x && x == a + b, "quaternion-compound-sum", info);
    x = a;
    VF_REQUIRE(&(x -= b) == &x && x == a - b, "quaternion-compound-difference", info);
    x = a;
    VF_REQUIRE(&(x *= b) == &x && x == a * b, "quaternion-compound-product", info);
    if (lb > 0) {
        RQ ib = qconj(rb);
        for (auto& e : ib)
            e /= qsq(rb);
        VF_REQUIRE(dist(ref(math::inv(b)), ib) <= 16 * eps / lb, "quaternion-inverse", info);
        VF_REQUIRE(dist(ref(a / b), qmul(ra, ib)) <= 32 * eps * la / lb, "quaternion-quotient", info);
        x = a;
        VF_REQUIRE(&(x /= b) == &x && x == a / b, "quaternion-compound-quotient", info);
        RQ nb = rb;
        for (auto& e : nb)
            e /= lb;
        VF_REQUIRE(dist(ref(math::normalize(b)), nb) <= 16 * eps, "quaternion-normalize", info);
        c.event("inverse");
    }
    // Lexicographic comparison
    bool eq = (ra == rb), lt = (ra < rb);
    VF_REQUIRE((a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == (!eq && !lt) &&
               (a <= b) == (lt || eq) && (a >= b) == !lt, "quaternion-comparison", info);
    c.event(eq ? "cmp.equal" : lt ? "cmp.less" : "cmp.greater");
    std::string t = "[" + num(a.w) + "; " + num(a.v[0]) + ", " + num(a.v[1]) + ", " + num(a.v[2]) + "]";
    VF_EQ(hostile(a), t, "quaternion-format", info);
    VF_REQUIRE(ref(Q()) == RQ {} && Q(a.w, a.v) == a && Q(a.w) == Q(a.w, V()), "quaternion-construction", info);
    c.nontrivial(vf::Hash().add(t).add(lt).get());
}


VF_MONITOR(m02_rotation, 40000, 1000000)
{
    V k = unit(c);
    RV rk = ref(k);
    ld lk = len(rk);
    RV nk { rk[0] / lk, rk[1] / lk, rk[2] / lk };
    double t = angle(c);
    V v = vec(c);
    RV rv = ref(v);
    ld lv = len(rv);
    ld tol = 64 * eps * (1 + std::fabs(ld(t))) * lv;
    auto info = [&](std::ostream& out) {
        out.precision(20);
        out << "axis=" << rk << " angle=" << t << " v=" << rv;
    };
    RV e = rodrigues(nk, ld(t), rv);
    math::Rotation rot(k, t);
    VF_REQUIRE(rot.axis == k && rot.angle == t, "rotation-construction", info);
    Q q = rot.to_versor();
    Q q2 = Q::from_axis_angle(k, t);
    VF_REQUIRE(q == q2, "to-versor", info);
    VF_REQUIRE(std::fabs(qsq(ref(q)) - 1) <= 16 * eps, "versor-is-unit", info);
    VF_REQUIRE(dist(qrot(ref(q), rv), e) <= tol, "versor-rotates", info);
    V w = math::conj(v, q);
    VF_REQUIRE(dist(ref(w), e) <= tol, "conjugation-rotates", info);
    VF_REQUIRE(std::fabs(len(ref(w)) - lv) <= 32 * eps * lv, "length-preserved", info);
    auto m = q.to_rotation_matrix();
    VF_REQUIRE(dist(mapply(ref(m), rv), e) <= tol, "matrix-rotates",
               [&](std::ostream& out) { info(out); out << " expected " << e << " got " << mapply(ref(m), rv); });
    // Any nonzero scaling of the quaternion represents the same rotation
    double s = (c.rng.chance(1, 2) ? 1 : -1) * std::pow(10.0, double(c.rng.range(-20, 20)));
    Q qs(q.w * s, q.v[0] * s, q.v[1] * s, q.v[2] * s);
    VF_REQUIRE(dist(mapply(ref(qs.to_rotation_matrix()), rv), e) <= tol, "matrix-of-scaled-quaternion", info);
    // Back to axis and angle
    auto axis_angle = [&](const Q& x, const char* key) {
        math::Rotation r = math::Rotation::from_versor(x);
        RV ax = ref(r.axis);
        VF_REQUIRE(std::fabs(len(ax) - 1) <= 16 * eps, "axis-is-unit",
                   [&](std::ostream& out) { info(out); out << " quaternion=" << ref(x) << " axis=" << ax << " angle=" << r.angle; });
        ld l = len(ax);
        RV f = rodrigues({ ax[0] / l, ax[1] / l, ax[2] / l }, ld(r.angle), rv);
        VF_REQUIRE(dist(f, e) <= tol, key,
                   [&](std::ostream& out) { info(out); out << " quaternion=" << ref(x) << " axis=" << ax << " angle=" << r.angle; });
        V a2;
        double t2;
        x.to_axis_angle(a2, t2);
        VF_REQUIRE(a2 == r.axis && t2 == r.angle, "to-axis-angle", info);
        // Small rotations retain relative precision
        ld tt = std::fabs(ld(t));
        if (tt < 1 && std::fabs(s) == s && key[0] == 'v')
            VF_REQUIRE(std::fabs(std::fabs(ld(r.angle)) - tt) <= 16 * eps * tt + 1e-320L, "small-angle",
                       [&](std::ostream& out) { info(out); out << " angle=" << r.angle; });
    };
    axis_angle(q, "versor-to-axis-angle");
    axis_angle(qs, "quaternion-to-axis-angle");
    c.event(t == 0 ? "angle.zero" : std::fabs(t) < 1e-20 ? "angle.tiny" : std::fabs(std::fabs(t) - double(pi)) < 1e-6 ? "angle.pi" : "angle");
    // Cosine of angle
    {
        ld ct = std::cos(ld(t));
        double cd = std::min(1.0, std::max(-1.0, double(ct)));
        Q qc = Q::from_axis_cos_angle(k, cd);
        RV f = rodrigues(nk, std::acos(ld(cd)), rv);
        VF_REQUIRE(std::fabs(qsq(ref(qc)) - 1) <= 32 * eps, "versor-from-cosine-is-unit", info);
        // sqrt((1-c)/2) is accurate to about sqrt(eps) near c=1 and c=-1
        ld sens = std::min(1.0L, std::sqrt(std::max(1 - std::fabs(ld(cd)), eps)));
        VF_REQUIRE(dist(qrot(ref(qc), rv), f) <= 64 * eps / sens * lv, "versor-from-cosine",
                   [&](std::ostream& out) { info(out); out << " cos=" << cd << " quaternion=" << ref(qc); });
    }
    // Composition
    V k2 = unit(c);
    double t2 = angle(c);
    math::Rotation rot2(k2, t2);
    RV rk2 = ref(k2);
    ld lk2 = len(rk2);
    RV nk2 { rk2[0] / lk2, rk2[1] / lk2, rk2[2] / lk2 };
    ld tol2 = 128 * eps * (2 + std::fabs(ld(t)) + std::fabs(ld(t2))) * lv;
    RV both = rodrigues(nk2, ld(t2), e); // first rot, then rot2
    math::Rotation sum = rot + rot2;
    auto rotate = [&](const math::Rotation& r, const RV& x) {
        RV ax = ref(r.axis);
        ld l = len(ax);
        VF_REQUIRE(std::fabs(l - 1) <= 32 * eps, "axis-of-combined-rotation-is-unit",
                   [&](std::ostream& out) { info(out); out << " axis2=" << rk2 << " angle2=" << t2 << " -> " << ax; });
        return rodrigues({ ax[0] / l, ax[1] / l, ax[2] / l }, ld(r.angle), x);
    };
    auto info2 = [&](std::ostream& out) { info(out); out << " axis2=" << rk2 << " angle2=" << t2; };
    VF_REQUIRE(dist(rotate(sum, rv), both) <= tol2, "rotation-sum", info2);
    math::Rotation diff = rot - rot2;
    RV back = rodrigues(nk2, -ld(t2), e);
    VF_REQUIRE(dist(rotate(diff, rv), back) <= tol2, "rotation-difference", info2);
    math::Rotation r3 = rot;
    VF_REQUIRE(&(r3 += rot2) == &r3 && r3 == sum, "rotation-compound-sum", info2);
    r3 = rot;
    VF_REQUIRE(&(r3 -= rot2) == &r3 && r3 == diff, "rotation-compound-difference", info2);
    Q prod = rot2.to_versor() * q;
    VF_REQUIRE(dist(ref(math::conj(v, prod)), both) <= tol2, "product-composes", info2);
    VF_REQUIRE(dist(mapply(ref(prod.to_rotation_matrix()), rv), both) <= tol2, "product-matrix-composes", info2);
    VF_REQUIRE(dist(ref(math::conj(math::conj(v, q), math::inv(q))), rv) <= tol2, "inverse-undoes", info2);
    // Scaling of rotation
    math::Rotation neg = -rot;
    VF_REQUIRE(neg.axis == k && neg.angle == -t, "rotation-negation", info);
    double f = comp(c) + 2;
    if (f != 0) {
        math::Rotation x1 = f * rot, x2 = rot * f, x3 = rot / f, x4 = rot, x5 = rot;
        x4 *= f;
        x5 /= f;
        VF_REQUIRE(x1.axis == k && x1.angle == f * t && x2 == x1 && x4 == x1 && x3.axis == k && x3.angle == t / f && x5 == x3,
                   "rotation-scaling", info);
    }
    {
        std::array<double, 4> A { k[0], k[1], k[2], t }, B { k2[0], k2[1], k2[2], t2 };
        if (c.rng.chance(1, 3)) {
            rot2.axis = k;
            B = { k[0], k[1], k[2], t2 };
        }
        bool eq = (A == B), lt = (A < B);
        VF_REQUIRE((rot == rot2) == eq && (rot != rot2) == !eq && (rot < rot2) == lt && (rot > rot2) == (!eq && !lt) &&
                   (rot <= rot2) == (lt || eq) && (rot >= rot2) == !lt, "rotation-comparison", info2);
    }
    std::string str = "[" + num(k[0]) + ", " + num(k[1]) + ", " + num(k[2]) + "; " + num(t) + "]";
    VF_EQ(hostile(rot), str, "rotation-format", info);
    // Euler angles
    double al = angle(c), be = angle(c), ga = angle(c);
    Q qe = Q::from_proper_euler_angles(al, be, ga);
    RV z { 0, 0, 1 }, xx { 1, 0, 0 };
    RV x1 = rodrigues(z, ld(al), xx); // rotated X-axis
    RV z2 = rodrigues(x1, ld(be), z); // rotated Z-axis
    RV r = rodrigues(z2, ld(ga), rodrigues(x1, ld(be), rodrigues(z, ld(al), rv)));
    ld tol3 = 128 * eps * (3 + std::fabs(ld(al)) + std::fabs(ld(be)) + std::fabs(ld(ga))) * lv;
    VF_REQUIRE(dist(qrot(ref(qe), rv), r) <= tol3, "euler-angles",
               [&](std::ostream& out) { out << al << "," << be << "," << ga << " v=" << rv; });
    c.event("euler");
    c.nontrivial(vf::Hash().add(str).get());
}
