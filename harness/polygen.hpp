// Generated closed convex polyhedra with outward counter-clockwise polygonal faces.
#pragma once
#include "harness/common.hpp"
#include <functional>
#include <set>
namespace gen {
struct Poly {
    std::vector<vector3> v; std::vector<std::vector<uint32_t>> f; const char *kind = "";
    void flatten(std::vector<uint32_t> &indices, std::vector<uint32_t> &faces) const {
        for (auto &x : f) { faces.push_back((uint32_t)indices.size()); faces.push_back((uint32_t)x.size()); indices.insert(indices.end(), x.begin(), x.end()); }
    }
};
// Volume and centroid from tetrahedra around an interior point.
inline void solid(const Poly &p, orc::R &vol, orc::V &cen) {
    using namespace orc; V o{}; for (auto &x : p.v) o = o + tov(x); o = o / (R)p.v.size(); vol = 0; V m{};
    for (auto &x : p.f) for (size_t j = 1; j + 1 < x.size(); ++j) { V a = tov(p.v[x[0]]) - o, b = tov(p.v[x[j]]) - o, d = tov(p.v[x[j + 1]]) - o; R t = dot(a, cross(b, d)) / 6; vol += t; m = m + (a + b + d) * (t / 4); }
    cen = o + m / vol;
}
// Outward winding, assuming convexity.
inline void orient_faces(std::vector<orc::V> &v, std::vector<std::vector<uint32_t>> &f) {
    using namespace orc; V o{}; for (auto &x : v) o = o + x; o = o / (R)v.size();
    for (auto &x : f) { V n{}; for (size_t j = 1; j + 1 < x.size(); ++j) n = n + cross(v[x[j]] - v[x[0]], v[x[j + 1]] - v[x[0]]); if (dot(n, v[x[0]] - o) < 0) std::reverse(x.begin(), x.end()); }
}
inline Poly poly(Case &c, double offset = 5) {
    using namespace orc; std::vector<V> v; std::vector<std::vector<uint32_t>> f; Poly p; int kind = (int)c.draw(6);
    auto ring = [&](size_t n, R y, R r, R ph) { for (size_t i = 0; i < n; ++i) { R a = ph + 2 * PI * i / n; v.push_back({r * std::cos(a), y, r * std::sin(a)}); } };
    auto face = [&](std::initializer_list<size_t> l) { std::vector<uint32_t> x; for (auto i : l) x.push_back((uint32_t)i); f.push_back(x); };
    size_t n = c.size(3, c.chance(1, 20) ? 24 : 8); std::vector<uint32_t> bot, top; for (size_t i = 0; i < n; ++i) { bot.push_back((uint32_t)i); top.push_back((uint32_t)(n + i)); }
    switch (kind) {
    case 0: p.kind = "box"; for (int i = 0; i < 8; ++i) v.push_back({(R)(i & 1 ? 1 : -1), (R)(i & 2 ? 1 : -1), (R)(i & 4 ? 1 : -1)}); face({0,1,3,2}); face({4,5,7,6}); face({0,1,5,4}); face({2,3,7,6}); face({0,2,6,4}); face({1,3,7,5}); break;
    case 1: { p.kind = "frustum"; R r = c.boolean() ? 1 : (R)c.uniform(0.3, 1.2); ring(n, -1, 1, 0); ring(n, 1, r, 0); f.push_back(bot); f.push_back(top); for (size_t i = 0; i < n; ++i) face({i, (i + 1) % n, n + (i + 1) % n, n + i}); break; }
    case 2: p.kind = "antiprism"; ring(n, -1, 1, 0); ring(n, 1, 1, PI / n); f.push_back(bot); f.push_back(top); for (size_t i = 0; i < n; ++i) { face({i, (i + 1) % n, n + i}); face({(i + 1) % n, n + (i + 1) % n, n + i}); } break;
    case 3: p.kind = "pyramid"; ring(n, 0, 1, 0); f.push_back(bot); v.push_back({0.2L, (R)c.uniform(0.3, 2), 0.1L}); for (size_t i = 0; i < n; ++i) face({i, (i + 1) % n, n}); break;
    case 4: p.kind = "bipyramid"; ring(n, 0, 1, 0); v.push_back({0, (R)c.uniform(0.3, 2), 0}); v.push_back({0, -(R)c.uniform(0.3, 2), 0}); for (size_t i = 0; i < n; ++i) { face({i, (i + 1) % n, n}); face({i, (i + 1) % n, n + 1}); } break;
    default: { // triangulated hull of points on an ellipsoid
        p.kind = "hull"; size_t m = c.size(4, 12); for (size_t i = 0; i < m; ++i) { R z = c.uniform(-1, 1), a = c.uniform(0, 6.28318); R r = std::sqrt(std::max<R>(0, 1 - z * z)); v.push_back({r * std::cos(a), r * std::sin(a), z}); }
        for (size_t i = 0; i < m; ++i) for (size_t j = i + 1; j < m; ++j) { if (dist(v[i], v[j]) < 0.15L) c.discard(); for (size_t k = j + 1; k < m; ++k) { V nn = cross(v[j] - v[i], v[k] - v[i]); if (len(nn) < 0.02L) continue; nn = unit(nn); bool pos = false, neg = false; for (size_t l = 0; l < m; ++l) if (l != i && l != j && l != k) { R s = dot(v[l] - v[i], nn); if (std::abs(s) < 0.01L) c.discard(); (s > 0 ? pos : neg) = true; } if (pos != neg) face({i, j, k}); } }
        if (f.size() != 2 * m - 4) c.discard(); }
    }
    V sc{(R)pos(c, 0.2, 3), (R)pos(c, 0.2, 3), (R)pos(c, 0.2, 3)}; R sh = c.boolean() ? 0 : (R)c.uniform(-0.5, 0.5); Q q = toq(orient(c)); V o = c.chance(1, 3) ? V{} : tov(vec(c, offset)); for (auto &x : v) { x = {x.x * sc.x + sh * x.y, x.y * sc.y, x.z * sc.z}; x = rot(q, x) + o; }
    orient_faces(v, f); for (auto &x : f) { size_t r = c.draw(x.size()); std::rotate(x.begin(), x.begin() + (long)r, x.end()); } if (c.boolean()) for (size_t i = f.size() - 1; i > 0; --i) std::swap(f[i], f[c.draw(i + 1)]);
    for (auto &x : v) p.v.push_back(toe(x)); p.f = f; return p;
}
}
