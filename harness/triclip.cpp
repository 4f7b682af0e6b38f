// P11: separating axes against triangle mesh features stay within the feature's Voronoi region (no ghost contacts at interior edges).
#include "harness/meshgen.hpp"
#include "edyn/util/shape_util.hpp"
#include <map>
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::EPS;

PBT(clip_axis, 60000, 1200000, "axis had to be moved into the region") {
    auto m = gen::trimesh(c, 4); size_t nt = m.idx.size() / 3; std::map<std::pair<uint32_t, uint32_t>, int> cnt; for (size_t t = 0; t < nt; ++t) { V a = tov(m.v[m.idx[t * 3]]), b = tov(m.v[m.idx[t * 3 + 1]]), d = tov(m.v[m.idx[t * 3 + 2]]); R l = std::max(orc::len(b - a), std::max(orc::len(d - b), orc::len(a - d))); if (orc::len(gen::tri_area2(m, t)) < 0.05L * l * l) c.discard(); for (int i = 0; i < 3; ++i) { uint32_t x = m.idx[t * 3 + i], y = m.idx[t * 3 + (i + 1) % 3]; if (++cnt[{std::min(x, y), std::max(x, y)}] > 2) c.discard(); } }
    triangle_mesh tm; gen::fill(tm, m); tm.initialize(); size_t t = c.draw(nt); auto f = (triangle_feature)c.draw(3); size_t fi = c.draw(3); V n = tov(tm.get_triangle_normal(t)); V d = tov(gen::dir(c)); if (c.boolean()) d = orc::unit(n + d * (R)c.uniform(0, 1.5)); vector3 ax = orc::toe(d); auto tv = tm.get_triangle_vertices(t); c.note("triangle %zu of %zu feature=%d index=%zu axis=" VF " normal=" VF, t, nt, (int)f, fi, VA(ax), VA(n)); V r = tov(clip_triangle_separating_axis(ax, tm, t, tv, tm.get_triangle_normal(t), f, fi)), A = tov(ax); R m1 = 64 * EPS; auto same = [&](V a, V b) { return orc::dist(a, b) <= m1; };
    struct E { V adj, out; bool convex, flat; R beyond; }; auto edge = [&](size_t i) { E e; e.adj = tov(tm.get_adjacent_face_normal(t, i)); V dir = orc::unit(tov(tv[(i + 1) % 3]) - tov(tv[i])); e.out = orc::unit(orc::cross(dir, e.adj)); R s = orc::dot(n, e.out); e.convex = s < 0; e.flat = std::abs(s) < 1e-3L; e.beyond = orc::dot(A, e.out); return e; };
    REQUIRE(std::abs(orc::len(r) - 1) < 1e-4L, "result is not a unit vector");
    if (f == triangle_feature::face) { REQUIRE(same(r, n), "axis against a face must be its normal"); c.label("face"); return; }
    if (f == triangle_feature::edge) { auto e = edge(fi); if (e.flat) { REQUIRE(same(r, n) || same(r, A) || same(r, e.adj)); return; } c.label(e.convex ? "convex edge" : "concave edge"); if (!e.convex) { REQUIRE(same(r, n), "concave edge: result " VF " is not the triangle normal", VA(r)); c.nontrivial(); return; } if (std::abs(e.beyond) < m1) return; if (e.beyond < 0) REQUIRE(same(r, A), "axis within the region of the edge must be kept"); else { c.nontrivial(); REQUIRE(same(r, e.adj), "axis beyond the region must become the adjacent normal, got " VF, VA(r)); } REQUIRE(orc::dot(r, e.out) <= m1, "result leaves the region of the edge"); return; }
    auto e0 = edge(fi), e1 = edge((fi + 2) % 3); R l0 = orc::dist(tov(tv[(fi + 1) % 3]), tov(tv[fi])), l1 = orc::dist(tov(tv[fi]), tov(tv[(fi + 2) % 3])); REQUIRE(same(r, n) || same(r, A) || same(r, e0.adj) || same(r, e1.adj), "result is neither the axis nor a normal of the faces around the vertex"); if (e0.flat || e1.flat || std::abs(e0.beyond * l0 - e1.beyond * l1) < 1e-4L) return; auto &e = e0.beyond * l0 > e1.beyond * l1 ? e0 : e1; c.label(e.convex ? "vertex, convex" : "vertex, concave"); if (!e.convex) { REQUIRE(same(r, n), "vertex at a concave edge: result is not the triangle normal"); c.nontrivial(); } else if (e.beyond > m1) { c.nontrivial(); REQUIRE(same(r, e.adj), "vertex: axis beyond the convex edge must become the adjacent normal"); } else if (e.beyond < -m1) REQUIRE(same(r, A), "vertex: axis within the region must be kept");
}

PBT(feature_index, 20000, 300000, "edge or vertex feature") {
    auto m = gen::trimesh(c, 4); triangle_mesh tm; gen::fill(tm, m); tm.initialize(); size_t t = c.draw(m.idx.size() / 3), k = c.draw(3); c.note("triangle %zu local %zu", t, k); c.nontrivial(); REQUIRE(get_triangle_mesh_feature_index(tm, t, triangle_feature::face, k) == t); REQUIRE(get_triangle_mesh_feature_index(tm, t, triangle_feature::vertex, k) == m.idx[t * 3 + k]); auto e = get_triangle_mesh_feature_index(tm, t, triangle_feature::edge, k); REQUIRE(e < tm.num_edges()); auto vi = tm.get_edge_vertex_indices(e); uint32_t a = m.idx[t * 3 + k], b = m.idx[t * 3 + (k + 1) % 3]; REQUIRE((vi[0] == a && vi[1] == b) || (vi[0] == b && vi[1] == a), "edge feature %zu of triangle %zu", k, t);
}
