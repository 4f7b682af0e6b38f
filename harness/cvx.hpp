// Reference model of convex shapes: support functions in double precision and the exact or numerically refined
// signed separation of two of them (maximum over unit directions n of min_A n.a - max_B n.b; n points towards A).
#pragma once
#include "harness/common.hpp"
#include "harness/polygen.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/shapes/convex_mesh.hpp"
namespace cvx {
using orc::Q; using orc::R; using pbt::Case;
struct D { double x, y, z; };
inline D operator+(D a, D b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } inline D operator-(D a, D b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } inline D operator*(D a, double s) { return {a.x * s, a.y * s, a.z * s}; } inline D operator-(D a) { return {-a.x, -a.y, -a.z}; }
inline double dot(D a, D b) { return a.x * b.x + a.y * b.y + a.z * b.z; } inline D cross(D a, D b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } inline double len(D a) { return std::sqrt(dot(a, a)); } inline D unit(D a) { return a * (1 / len(a)); }
inline D tod(const edyn::vector3 &v) { return {(double)v.x, (double)v.y, (double)v.z}; } inline edyn::vector3 toe(D v) { return {(edyn::scalar)v.x, (edyn::scalar)v.y, (edyn::scalar)v.z}; }
enum Kind { SPHERE, CAPSULE, CYLINDER, BOX, POLY, PLANE, NK };
inline const char *name(int k) { static const char *n[] = {"sphere", "capsule", "cylinder", "box", "polyhedron", "plane"}; return n[k]; }
struct Shape {
    Kind k; double r = 0, h = 0; D e{}; int axis = 0; std::vector<D> v; std::vector<D> fn, ed; // local geometry
    D pos{}; double m[3][3]; edyn::vector3 p; edyn::quaternion q; double size = 1;
    edyn::sphere_shape sphere; edyn::capsule_shape capsule; edyn::cylinder_shape cylinder; edyn::box_shape box; edyn::polyhedron_shape poly; edyn::plane_shape plane; std::shared_ptr<edyn::rotated_mesh> rot; std::string desc;
    void place(const edyn::vector3 &p_, const edyn::quaternion &q_) {
        p = p_; q = q_; pos = tod(p); R w = q.w, x = q.x, y = q.y, z = q.z, n = w * w + x * x + y * y + z * z; R s = 2 / n;
        m[0][0] = 1 - s * (y * y + z * z); m[0][1] = s * (x * y - w * z); m[0][2] = s * (x * z + w * y); m[1][0] = s * (x * y + w * z); m[1][1] = 1 - s * (x * x + z * z); m[1][2] = s * (y * z - w * x); m[2][0] = s * (x * z - w * y); m[2][1] = s * (y * z + w * x); m[2][2] = 1 - s * (x * x + y * y);
        if (k == POLY) { rot = std::make_shared<edyn::rotated_mesh>(edyn::make_rotated_mesh(*poly.mesh, q)); poly.rotated = rot.get(); }
    }
    D dirw(D l) const { return {m[0][0] * l.x + m[0][1] * l.y + m[0][2] * l.z, m[1][0] * l.x + m[1][1] * l.y + m[1][2] * l.z, m[2][0] * l.x + m[2][1] * l.y + m[2][2] * l.z}; }
    D dirl(D g) const { return {m[0][0] * g.x + m[1][0] * g.y + m[2][0] * g.z, m[0][1] * g.x + m[1][1] * g.y + m[2][1] * g.z, m[0][2] * g.x + m[1][2] * g.y + m[2][2] * g.z}; }
    D toworld(D l) const { return dirw(l) + pos; } D tolocal(D g) const { return dirl(g - pos); }
    D ax() const { return axis == 0 ? D{1, 0, 0} : axis == 1 ? D{0, 1, 0} : D{0, 0, 1}; }
    D lsup(D n) const { // support point, local
        switch (k) {
        case SPHERE: return n * (r / len(n));
        case CAPSULE: { D a = ax(); double s = dot(n, a) >= 0 ? h : -h; return a * s + n * (r / len(n)); }
        case CYLINDER: { D a = ax(); double c = dot(n, a); D rad = n - a * c; double l = len(rad); return a * (c >= 0 ? h : -h) + (l > 1e-300 ? rad * (r / l) : D{0, 0, 0}); }
        case BOX: return {n.x >= 0 ? e.x : -e.x, n.y >= 0 ? e.y : -e.y, n.z >= 0 ? e.z : -e.z};
        default: { size_t b = 0; double best = -1e300; for (size_t i = 0; i < v.size(); ++i) { double d = dot(v[i], n); if (d > best) { best = d; b = i; } } return v[b]; }
        }
    }
    D sup(D n) const { return toworld(lsup(dirl(n))); }
    double hi(D n) const { return dot(sup(n), n); }
    double lo(D n) const { return dot(sup(-n), n); }
    // Signed distance of a local point to the surface (negative inside), exact enough for points near the surface.
    double sdf(D l) const {
        switch (k) {
        case SPHERE: return len(l) - r;
        case CAPSULE: { D a = ax(); double t = std::max(-h, std::min(h, dot(l, a))); return len(l - a * t) - r; }
        case CYLINDER: { D a = ax(); double t = dot(l, a); double q1 = len(l - a * t) - r, q2 = std::abs(t) - h; if (q1 > 0 && q2 > 0) return std::sqrt(q1 * q1 + q2 * q2); return std::max(q1, q2); }
        case BOX: { D d{std::abs(l.x) - e.x, std::abs(l.y) - e.y, std::abs(l.z) - e.z}; D o{std::max(d.x, 0.), std::max(d.y, 0.), std::max(d.z, 0.)}; double ol = len(o); return ol > 0 ? ol : std::max(d.x, std::max(d.y, d.z)); }
        case PLANE: return dot(l, fn[0]) - h;
        default: { double best = -1e300; for (size_t i = 0; i < fn.size(); ++i) best = std::max(best, dot(fn[i], l - v[fv[i]])); return best; } // lower bound outside
        }
    }
    std::vector<size_t> fv; // a vertex of each face
    bool flat() const { if (k == POLY) for (size_t i = 0; i < fn.size(); ++i) for (size_t j = 0; j < i; ++j) if (dot(fn[i], fn[j]) > 0.9976) return true; return false; } // has faces less than 4 degrees apart
    template<typename F> void with(F f) const { switch (k) { case SPHERE: f(sphere); break; case CAPSULE: f(capsule); break; case CYLINDER: f(cylinder); break; case BOX: f(box); break; case POLY: f(poly); break; default: f(plane); } }
};
inline Shape make(Case &c, int kind, double lo = 0.1, double hi = 2) {
    Shape s; s.k = (Kind)kind; char b[200]; s.axis = (int)c.draw(3); auto ca = (edyn::coordinate_axis)s.axis;
    switch (s.k) {
    case SPHERE: s.r = (double)gen::pos(c, lo, hi); s.sphere = {(edyn::scalar)s.r}; s.size = s.r; snprintf(b, 200, "sphere r=%.9g", s.r); break;
    case CAPSULE: s.r = (double)gen::pos(c, lo, hi); s.h = (double)gen::pos(c, lo, hi); s.capsule.radius = (edyn::scalar)s.r; s.capsule.half_length = (edyn::scalar)s.h; s.capsule.axis = ca; s.size = std::max(s.r, s.h); snprintf(b, 200, "capsule r=%.9g h=%.9g axis=%d", s.r, s.h, s.axis); break;
    case CYLINDER: s.r = (double)gen::pos(c, lo, hi); s.h = (double)gen::pos(c, lo, hi); s.cylinder.radius = (edyn::scalar)s.r; s.cylinder.half_length = (edyn::scalar)s.h; s.cylinder.axis = ca; s.size = std::max(s.r, s.h); snprintf(b, 200, "cylinder r=%.9g h=%.9g axis=%d", s.r, s.h, s.axis); break;
    case BOX: { edyn::vector3 e{gen::pos(c, lo, hi), gen::pos(c, lo, hi), gen::pos(c, lo, hi)}; if (c.chance(1, 5)) e.y = e.x; s.e = tod(e); s.box = {e}; s.size = std::max(s.e.x, std::max(s.e.y, s.e.z)); s.fn = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; s.ed = s.fn; snprintf(b, 200, "box %.9g %.9g %.9g", s.e.x, s.e.y, s.e.z); break; }
    case POLY: {
        auto p = gen::poly(c, 1); auto mesh = std::make_shared<edyn::convex_mesh>(); mesh->vertices = p.v; p.flatten(mesh->indices, mesh->faces); mesh->initialize(); s.poly.mesh = mesh; // initialize shifts to the centroid
        for (auto &x : mesh->vertices) { s.v.push_back(tod(x)); s.size = std::max(s.size, len(tod(x))); }
        for (auto &f : p.f) { D n{0, 0, 0}; for (size_t j = 1; j + 1 < f.size(); ++j) n = n + cross(s.v[f[j]] - s.v[f[0]], s.v[f[j + 1]] - s.v[f[0]]); s.fn.push_back(unit(n)); s.fv.push_back(f[0]); for (size_t j = 0; j < f.size(); ++j) { size_t a = f[j], d = f[(j + 1) % f.size()]; if (a < d) s.ed.push_back(unit(s.v[d] - s.v[a])); } }
        snprintf(b, 200, "%s polyhedron of %zu vertices", p.kind, s.v.size()); break; }
    default: { auto n = gen::dir(c); s.h = (double)gen::s(c, 5); s.plane.normal = n; s.plane.constant = (edyn::scalar)s.h; s.fn = {unit(tod(n))}; snprintf(b, 200, "plane n=" VF " d=%.9g", VA(n), s.h); }
    }
    s.desc = b; if (s.k == POLY && s.v.size() <= 10) { s.desc += " {"; for (auto &x : s.poly.mesh->vertices) { snprintf(b, 200, VF, VA(x)); s.desc += b; } s.desc += "}"; }
    return s;
}
inline double sep(const Shape &a, const Shape &b, D n) { return a.lo(n) - b.hi(n); }
// Core of a shape: without the rounding radius of spheres and capsules.
inline double inradius(const Shape &s) { switch (s.k) { case SPHERE: case CAPSULE: return s.r; case CYLINDER: return std::min(s.r, s.h); case BOX: return std::min(s.e.x, std::min(s.e.y, s.e.z)); case POLY: { double m = 1e9; for (size_t i = 0; i < s.fn.size(); ++i) m = std::min(m, dot(s.fn[i], s.v[s.fv[i]])); return m; } default: return 1e9; } }
inline double radius(const Shape &s) { return s.k == SPHERE || s.k == CAPSULE ? s.r : 0; }
inline D coresup(const Shape &s, D n) { if (s.k == SPHERE) return s.pos; if (s.k == CAPSULE) { D a = s.dirw(s.ax()); return s.pos + a * (dot(n, a) >= 0 ? s.h : -s.h); } return s.sup(n); }
// Point of least norm in the hull of up to four points; drops the points which are not needed.
inline D least_norm(std::vector<D> &w) {
    size_t n = w.size(); double best = 1e300; D bp{}; unsigned bm = 0;
    for (unsigned m = 1; m < (1u << n); ++m) {
        std::vector<D> q; for (size_t i = 0; i < n; ++i) if (m >> i & 1) q.push_back(w[i]); size_t k = q.size(); if (k == 4) { // origin inside the tetrahedron?
            D o = q[0], a = q[1] - o, b = q[2] - o, c = q[3] - o; double det = dot(a, cross(b, c)); if (std::abs(det) < 1e-18) continue; D p = -o; double x = dot(p, cross(b, c)) / det, y = dot(a, cross(p, c)) / det, z = dot(a, cross(b, p)) / det; if (x >= 0 && y >= 0 && z >= 0 && x + y + z <= 1) { w = q; return {0, 0, 0}; } continue; }
        D p; if (k == 1) p = q[0]; else if (k == 2) { D e = q[1] - q[0]; double l = dot(e, e); if (l < 1e-24) continue; double t = -dot(q[0], e) / l; if (t < 0 || t > 1) continue; p = q[0] + e * t; }
        else { D a = q[1] - q[0], b = q[2] - q[0], nn = cross(a, b); double l = dot(nn, nn); if (l < 1e-26) continue; D r = -q[0]; double u = dot(cross(r, b), nn) / l, v = dot(cross(a, r), nn) / l; if (u < 0 || v < 0 || u + v > 1) continue; p = nn * (dot(q[0], nn) / l); }
        double d = dot(p, p); if (d < best - 1e-30) { best = d; bp = p; bm = m; }
    }
    std::vector<D> q; for (size_t i = 0; i < n; ++i) if (bm >> i & 1) q.push_back(w[i]); w = q; return bp;
}
// Shortest vector from the core of B to that of A (zero if they meet).
inline D core_gap(const Shape &a, const Shape &b) {
    D v = coresup(a, {1, 0, 0}) - coresup(b, {-1, 0, 0}); std::vector<D> w{v};
    for (int it = 0; it < 400; ++it) { double vv = dot(v, v); if (vv < 1e-20) return {0, 0, 0}; D p = coresup(a, -v) - coresup(b, v); if (vv - dot(v, p) < 1e-13 * std::max(1.0, vv)) break; bool dup = false; for (auto &x : w) if (len(x - p) < 1e-14) dup = true; if (dup) break; w.push_back(p); D nv = least_norm(w); if (dot(nv, nv) >= vv) break; v = nv; if (w.size() == 4) return {0, 0, 0}; }
    return v;
}
// Best separation and its direction. Exact for pairs of polytopes, spheres and capsules; refined numerically when a cylinder is penetrated.
inline double best_sep(const Shape &a, const Shape &b, D &dir, const std::vector<D> &extra = {}) {
    double best = -1e300; D bn{0, 1, 0};
    auto tryn = [&](D n) { double l = len(n); if (!(l > 1e-9)) return; n = n * (1 / l); double s = sep(a, b, n); if (s > best) { best = s; bn = n; } };
    auto both = [&](D n) { tryn(n); tryn(-n); };
    D g = core_gap(a, b); if (len(g) > 1e-9) { tryn(g); if (len(g) > 1e-6) { dir = bn; for (auto &e : extra) both(e); dir = bn; return best; } }
    for (auto &e : extra) both(e);
    both(a.pos - b.pos);
    std::vector<D> fa, fb, ea, eb;
    for (auto &n : a.fn) fa.push_back(a.dirw(n)); for (auto &n : b.fn) fb.push_back(b.dirw(n)); for (auto &n : a.ed) ea.push_back(a.dirw(n)); for (auto &n : b.ed) eb.push_back(b.dirw(n));
    if (a.k == CAPSULE || a.k == CYLINDER) ea.push_back(a.dirw(a.ax())); if (b.k == CAPSULE || b.k == CYLINDER) eb.push_back(b.dirw(b.ax())); if (a.k == CYLINDER) fa.push_back(ea.back()); if (b.k == CYLINDER) fb.push_back(eb.back());
    for (auto &n : fa) both(n); for (auto &n : fb) both(n); for (auto &x : ea) for (auto &y : eb) both(cross(x, y));
    // Point or segment against a segment: any direction normal to the segments.
    for (auto *s : {&a, &b}) if (s->k == CAPSULE || s->k == CYLINDER) { D x = s->dirw(s->ax()), d = a.pos - b.pos; both(d - x * dot(d, x)); D y = std::abs(x.x) < 0.7 ? D{1, 0, 0} : D{0, 1, 0}; both(cross(x, y)); }
    if (a.k == CYLINDER || b.k == CYLINDER) {
        uint64_t st = 88172645463325252ull; auto rnd = [&] { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (double)(st >> 11) / 9007199254740992.0 * 2 - 1; };
        std::vector<std::pair<double, D>> seeds{{best, bn}};
        for (int i = 0; i < 300; ++i) { D n; do n = {rnd(), rnd(), rnd()}; while (dot(n, n) > 1 || dot(n, n) < 0.01); n = unit(n); double s = sep(a, b, n); seeds.push_back({s, n}); }
        std::partial_sort(seeds.begin(), seeds.begin() + 6, seeds.end(), [](auto &x, auto &y) { return x.first > y.first; }); seeds.resize(6);
        for (auto [s, n] : seeds) {
            double step = 0.3; for (int it = 0; it < 220 && step > 1e-9; ++it) { bool imp = false; for (int t = 0; t < 6; ++t) { D m = unit(n + D{rnd(), rnd(), rnd()} * step); double q = sep(a, b, m); if (q > s) { s = q; n = m; imp = true; } }
                if (!imp) step *= 0.6; }
            if (s > best) { best = s; bn = n; }
        }
    }
    dir = bn; return best;
}
}
