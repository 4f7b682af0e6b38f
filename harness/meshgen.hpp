// Generated triangle meshes: height fields (optionally with holes), closed solids; faces and windings shuffled consistently.
#pragma once
#include "harness/common.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
namespace gen {
struct TriMesh { std::vector<vector3> v; std::vector<uint32_t> idx; bool closed = false; };
inline orc::V tri_area2(const TriMesh &m, size_t t) { using orc::tov; return orc::cross(tov(m.v[m.idx[t * 3 + 1]]) - tov(m.v[m.idx[t * 3]]), tov(m.v[m.idx[t * 3 + 2]]) - tov(m.v[m.idx[t * 3]])); }
inline TriMesh trimesh(Case &c, size_t maxside = 5) {
    TriMesh m; using orc::R; using orc::V; bool big = c.chance(1, 40); if (big) maxside = 16;
    if (c.chance(1, 3)) { // closed: latitude/longitude solid
        m.closed = true; size_t rings = c.size(1, big ? 10 : 3), segs = c.size(3, big ? 20 : 6); V ax{(R)pos(c, 0.5, 3), (R)pos(c, 0.5, 3), (R)pos(c, 0.5, 3)}; V o{(R)c.real(3), (R)c.real(3), (R)c.real(3)}; auto add = [&](R th, R ph, R k) { m.v.push_back(orc::toe(o + V{k * std::sin(th) * std::cos(ph) * ax.x, k * std::cos(th) * ax.y, k * std::sin(th) * std::sin(ph) * ax.z})); };
        add(0, 0, 1); for (size_t i = 1; i <= rings; ++i) for (size_t j = 0; j < segs; ++j) add(orc::PI * i / (rings + 1), 2 * orc::PI * j / segs, (R)c.uniform(0.6, 1)); add(orc::PI, 0, 1); uint32_t last = (uint32_t)m.v.size() - 1; auto id = [&](size_t i, size_t j) { return (uint32_t)(1 + (i - 1) * segs + j % segs); };
        for (size_t j = 0; j < segs; ++j) { m.idx.insert(m.idx.end(), {0, id(1, j + 1), id(1, j)}); m.idx.insert(m.idx.end(), {last, id(rings, j), id(rings, j + 1)}); for (size_t i = 1; i < rings; ++i) { m.idx.insert(m.idx.end(), {id(i, j), id(i, j + 1), id(i + 1, j)}); m.idx.insert(m.idx.end(), {id(i, j + 1), id(i + 1, j + 1), id(i + 1, j)}); } }
    } else {
        size_t nx = c.size(2, maxside), nz = c.size(2, maxside); R s = (R)pos(c, 0.3, 3); V o{(R)c.real(3), (R)c.real(3), (R)c.real(3)}; int flat = (int)c.draw(3); for (size_t j = 0; j < nz; ++j) for (size_t i = 0; i < nx; ++i) m.v.push_back(orc::toe(o + V{(R)i * s, flat == 0 ? 0 : (R)c.uniform(-1, 1), (R)j * s}));
        std::vector<std::array<uint32_t, 3>> t; for (size_t j = 0; j + 1 < nz; ++j) for (size_t i = 0; i + 1 < nx; ++i) { uint32_t a = (uint32_t)(j * nx + i), b = a + 1, d = (uint32_t)((j + 1) * nx + i), e = d + 1; if (c.boolean()) { t.push_back({b, a, d}); t.push_back({d, e, b}); } else { t.push_back({a, d, e}); t.push_back({e, b, a}); } }
        if (c.chance(1, 3) && t.size() > 1) { size_t k = c.size(1, t.size() - 1); for (size_t i = 0; i < k; ++i) t.erase(t.begin() + (long)c.draw(t.size())); }
        for (auto &x : t) m.idx.insert(m.idx.end(), x.begin(), x.end());
    }
    size_t nt = m.idx.size() / 3; for (size_t i = 0; i < nt; ++i) { size_t r = c.draw(3); std::rotate(m.idx.begin() + (long)i * 3, m.idx.begin() + (long)(i * 3 + r), m.idx.begin() + (long)(i * 3 + 3)); } if (c.boolean()) for (size_t i = nt - 1; i > 0; --i) { size_t j = c.draw(i + 1); for (int k = 0; k < 3; ++k) std::swap(m.idx[i * 3 + k], m.idx[j * 3 + k]); }
    // drop unreferenced vertices: none are referenced by a face otherwise
    std::vector<uint32_t> map(m.v.size(), UINT32_MAX); std::vector<vector3> nv; for (auto &i : m.idx) { if (map[i] == UINT32_MAX) { map[i] = (uint32_t)nv.size(); nv.push_back(m.v[i]); } i = map[i]; } m.v = nv;
    if (c.chance(1, 60)) { // vertices that belong to no triangle come first
        size_t k = c.chance(1, 12) ? 66000 : (size_t[]){1, 200, 300}[c.draw(3)]; m.v.insert(m.v.begin(), k, m.v[0]); for (auto &i : m.idx) i += (uint32_t)k; }
    return m;
}
inline void fill(edyn::triangle_mesh &tm, const TriMesh &m) { tm.insert_vertices(m.v.begin(), m.v.end()); tm.insert_indices(m.idx.begin(), m.idx.end()); }
}
