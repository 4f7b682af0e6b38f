// Shared oracle arithmetic (long double) and generators for the harnesses.
#pragma once
#include "pbt/pbt.hpp"
#include "edyn/math/constants.hpp"
#include "edyn/math/scalar.hpp"
#include "edyn/math/vector3.hpp"
#include "edyn/math/vector2.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/matrix3x3.hpp"

namespace orc {
using R = long double;
constexpr R EPS = (R)EDYN_EPSILON;
struct V { R x{}, y{}, z{}; R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } R &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator-(V a) { return {-a.x, -a.y, -a.z}; }
inline V operator*(V a, R s) { return {a.x * s, a.y * s, a.z * s}; }
inline V operator*(R s, V a) { return a * s; }
inline V operator/(V a, R s) { return {a.x / s, a.y / s, a.z / s}; }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline R len2(V a) { return dot(a, a); }
inline R len(V a) { return std::sqrt(len2(a)); }
inline V unit(V a) { return a / len(a); }
inline R dist(V a, V b) { return len(a - b); }
inline V tov(const edyn::vector3 &v) { return {(R)v.x, (R)v.y, (R)v.z}; }
inline edyn::vector3 toe(const V &v) { return {(edyn::scalar)v.x, (edyn::scalar)v.y, (edyn::scalar)v.z}; }
struct Q { R x, y, z, w; };
inline Q toq(const edyn::quaternion &q) { return {(R)q.x, (R)q.y, (R)q.z, (R)q.w}; }
inline Q operator*(Q q, Q r) { // Hamilton product, via scalar/vector parts
    V a{q.x, q.y, q.z}, b{r.x, r.y, r.z};
    V v = b * q.w + a * r.w + cross(a, b);
    return {v.x, v.y, v.z, q.w * r.w - dot(a, b)};
}
inline Q conj(Q q) { return {-q.x, -q.y, -q.z, q.w}; }
inline R len(Q q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); }
inline V rot(Q q, V v) { Q r = q * Q{v.x, v.y, v.z, 0} * conj(q); R n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; return V{r.x, r.y, r.z} / n; }
inline V rot_aa(V axis, R a, V v) { V k = unit(axis); return v * std::cos(a) + cross(k, v) * std::sin(a) + k * (dot(k, v) * (1 - std::cos(a))); } // Rodrigues
struct M { V r[3]; };
inline M tom(const edyn::matrix3x3 &m) { return {{tov(m.row[0]), tov(m.row[1]), tov(m.row[2])}}; }
inline V operator*(const M &m, V v) { return {dot(m.r[0], v), dot(m.r[1], v), dot(m.r[2], v)}; }
inline R maxabs(V v) { return std::max(std::abs(v.x), std::max(std::abs(v.y), std::abs(v.z))); }
inline bool finite(const edyn::vector3 &v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline R clampr(R v, R lo, R hi) { return v < lo ? lo : v > hi ? hi : v; }
constexpr R PI = 3.14159265358979323846264338327950288L;

// |got - want| within k ulps of a magnitude.
inline bool near(R got, R want, R mag, R k = 16) { return std::isfinite((double)got) && std::abs(got - want) <= k * EPS * (std::abs(mag) + std::abs(want)) + 1e-30L; }
inline bool near(const edyn::vector3 &g, V w, R mag, R k = 16) { return near(g.x, w.x, mag, k) && near(g.y, w.y, mag, k) && near(g.z, w.z, mag, k); }
} // namespace orc

namespace gen {
using pbt::Case;
using edyn::scalar; using edyn::vector3; using edyn::vector2; using edyn::quaternion; using edyn::matrix3x3;
inline scalar s(Case &c, double mag = 10) { return (scalar)c.real(mag); }
inline scalar pos(Case &c, double lo = 0.05, double hi = 5) { return (scalar)c.positive(lo, hi); }
inline vector3 vec(Case &c, double mag = 10) { vector3 v; v.x = s(c, mag); v.y = s(c, mag); v.z = s(c, mag); return v; }
inline vector2 vec2(Case &c, double mag = 10) { vector2 v; v.x = s(c, mag); v.y = s(c, mag); return v; }
// Unit direction: coordinate axes, face/edge diagonals, or arbitrary.
inline vector3 dir(Case &c) {
    switch (c.draw(6)) {
    case 0: { static const vector3 t[] = {{1,0,0},{0,1,0},{0,0,1},{-1,0,0},{0,-1,0},{0,0,-1}}; return t[c.draw(6)]; }
    case 1: { orc::V v{(orc::R)c.integer(0, 2) - 1, (orc::R)c.integer(0, 2) - 1, (orc::R)c.integer(0, 2) - 1}; if (orc::len(v) == 0) v.x = 1; return orc::toe(orc::unit(v)); }
    default: { // uniform on the sphere
        double z = c.uniform(-1, 1), a = c.uniform(0, 6.283185307179586); double r = std::sqrt(std::max(0.0, 1 - z * z));
        orc::V v{(orc::R)(r * std::cos(a)), (orc::R)(r * std::sin(a)), (orc::R)z}; return orc::toe(orc::unit(v)); }
    }
}
inline scalar angle(Case &c) { // any angle in [-2pi, 2pi] with special values
    if (c.draw(3) == 0) { return (scalar)((c.integer(0, 16) - 8) * (orc::PI / 4)); }
    return (scalar)c.uniform(-6.283185307179586, 6.283185307179586);
}
inline quaternion orient(Case &c) {
    switch (c.draw(6)) {
    case 0: return edyn::quaternion_identity;
    default: {
        vector3 d = dir(c); orc::R a = angle(c); orc::V u = orc::unit(orc::tov(d)); orc::R sn = std::sin(a / 2), cs = std::cos(a / 2);
        orc::R q[4] = {u.x * sn, u.y * sn, u.z * sn, cs}; orc::R l = std::sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]);
        return {(scalar)(q[0]/l), (scalar)(q[1]/l), (scalar)(q[2]/l), (scalar)(q[3]/l)}; }
    }
}
inline matrix3x3 mat(Case &c, double mag = 5) { return {vec(c, mag), vec(c, mag), vec(c, mag)}; }
} // namespace gen

#define VF "(%.9g,%.9g,%.9g)"
#define VA(v) (double)(v).x, (double)(v).y, (double)(v).z
#define QF "(%.9g,%.9g,%.9g,%.9g)"
#define QA(q) (double)(q).x, (double)(q).y, (double)(q).z, (double)(q).w
