// P07: the box's vertices, edges, faces, normals and their adjacency describe one and the same box.
// Oracle: the set of points/directions themselves (no index table is copied from the code).
#include "harness/common.hpp"
#include "edyn/shapes/box_shape.hpp"
#include <set>
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::toq; using orc::near; using orc::EPS;
static vector3 he(pbt::Case &c) { vector3 h; h.x = gen::pos(c, 0.1, 4); h.y = gen::pos(c, 0.1, 4); h.z = gen::pos(c, 0.1, 4); return h; }
static std::set<std::vector<int>> key(const std::vector<V> &vs) { std::set<std::vector<int>> s; for (auto &v : vs) s.insert({v.x > 0, v.y > 0, v.z > 0}); return s; }

PBT(vertices_edges_faces, 20000, 400000, "every case (all indices of a rotated box are visited)") {
    box_shape b{he(c)}; vector3 pos = gen::vec(c, 6); auto orn = gen::orient(c); c.note("half_extents=" VF " pos=" VF " orn=" QF, VA(b.half_extents), VA(pos), QA(orn)); c.nontrivial(); V h = tov(b.half_extents); R mag = orc::len(h) + orc::len(tov(pos)); auto world = [&](V v) { return tov(pos) + orc::rot(toq(orn), v); };
    std::set<std::vector<int>> all; for (size_t i = 0; i < get_box_num_features(box_feature::vertex); ++i) { auto v = b.get_vertex(i); for (int k = 0; k < 3; ++k) REQUIRE(std::abs(v[k]) == b.half_extents[k]); all.insert({v.x > 0, v.y > 0, v.z > 0}); REQUIRE(near(b.get_vertex(i, pos, orn), world(tov(v)), mag, 32), "vertex %zu in world space", i); } REQUIRE(all.size() == 8, "vertices are not the 8 corners");
    std::set<std::set<std::vector<int>>> edges, faces; for (size_t i = 0; i < get_box_num_features(box_feature::edge); ++i) { auto e = b.get_edge(i); auto w = b.get_edge(i, pos, orn); int diff = 0; for (int k = 0; k < 3; ++k) diff += e[0][k] != e[1][k]; REQUIRE(diff == 1, "edge %zu joins vertices that differ along %d axes", i, diff); edges.insert(key({tov(e[0]), tov(e[1])})); for (int j = 0; j < 2; ++j) REQUIRE(near(w[j], world(tov(e[j])), mag, 32), "edge %zu in world space", i); size_t a = 99, d = 99; for (size_t j = 0; j < 8; ++j) { if (b.get_vertex(j) == e[0]) a = j; if (b.get_vertex(j) == e[1]) d = j; } REQUIRE(b.get_edge_index(a, d) == i && b.get_edge_index(d, a) == i, "edge index of its own vertices");
        auto fi = b.get_edge_face_indices(i); REQUIRE(fi[0] < 6 && fi[1] < 6 && fi[0] != fi[1]); auto fn = b.get_edge_face_normals(i); auto fr = b.get_edge_face_normals(i, orn); for (int j = 0; j < 2; ++j) { V n = tov(b.get_face_normal(fi[j])); for (auto &v : e) REQUIRE(near(orc::dot(tov(v), n), std::abs(n.x) * h.x + std::abs(n.y) * h.y + std::abs(n.z) * h.z, mag), "edge %zu does not lie on its face %zu", i, fi[j]); REQUIRE(fn[j] == b.get_face_normal(fi[j]), "face normal of edge %zu", i); REQUIRE(near(fr[j], orc::rot(toq(orn), n), 1, 32)); } 
        V dir = tov(e[1]) - tov(e[0]); REQUIRE(orc::dot(orc::cross(tov(fn[0]), tov(fn[1])), dir) != 0, "normals of edge %zu are not orthogonal to it", i); }
    REQUIRE(edges.size() == 12, "%zu distinct edges", edges.size());
    for (size_t i = 0; i < get_box_num_features(box_feature::face); ++i) { auto f = b.get_face(i); auto w = b.get_face(i, pos, orn); std::vector<V> vs; V n = tov(b.get_face_normal(i)), ctr{}; R ext = std::abs(n.x) * h.x + std::abs(n.y) * h.y + std::abs(n.z) * h.z; REQUIRE(near(orc::len(n), 1, 1)); for (int j = 0; j < 4; ++j) { vs.push_back(tov(f[j])); ctr = ctr + tov(f[j]) * 0.25L; REQUIRE(near(orc::dot(tov(f[j]), n), ext, mag), "vertex %d is not on face %zu", j, i); REQUIRE(near(w[j], world(tov(f[j])), mag, 32), "face %zu in world space", i); REQUIRE(b.get_vertex(b.get_vertex_index_from_face(i, j)) == f[j], "vertex index of face %zu", i);
            V ed = tov(f[(j + 1) % 4]) - tov(f[j]); V out = orc::cross(ed, n); REQUIRE(orc::dot(out, tov(f[(j + 2) % 4]) - tov(f[j])) < 0, "face %zu is not counter-clockwise", i); size_t ei = b.get_face_edge_index(i, j); REQUIRE(ei < 12); auto ee = b.get_edge(ei); bool same = (ee[0] == f[j] && ee[1] == f[(j + 1) % 4]) || (ee[1] == f[j] && ee[0] == f[(j + 1) % 4]); REQUIRE(same, "edge %d of face %zu is not between its vertices", j, i); auto ef = b.get_edge_face_indices(ei); REQUIRE(ef[0] == i || ef[1] == i, "edge %zu does not know face %zu", ei, i); }
        faces.insert(key(vs)); REQUIRE(key(vs).size() == 4); REQUIRE(near(b.get_face_normal(i, orn), orc::rot(toq(orn), n), 1, 32)); REQUIRE(near(b.get_face_center(i, pos, orn), world(ctr), mag, 32), "centre of face %zu", i); REQUIRE(b.support_face_index(b.get_face_normal(i)) == i);
        auto B = b.get_face_basis(i, orn); V cx{(R)B.row[0].x, (R)B.row[1].x, (R)B.row[2].x}, cy{(R)B.row[0].y, (R)B.row[1].y, (R)B.row[2].y}, cz{(R)B.row[0].z, (R)B.row[1].z, (R)B.row[2].z}; REQUIRE(orc::dist(cy, orc::rot(toq(orn), n)) < 32 * EPS, "second axis of the basis of face %zu is not its normal", i); REQUIRE(orc::dist(orc::cross(cx, cy), cz) < 64 * EPS && std::abs(orc::dot(cx, cy)) < 32 * EPS, "basis of face %zu is not orthonormal and right handed", i); auto hf = b.get_face_half_extents(i); V wc = world(ctr); R ex = 0, ez = 0; for (auto &v : w) { ex = std::max(ex, orc::dot(tov(v) - wc, cx)); ez = std::max(ez, orc::dot(tov(v) - wc, cz)); } REQUIRE(near(hf.x, ex, mag, 64) && near(hf.y, ez, mag, 64), "half extents of face %zu: (%g,%g) want (%Lg,%Lg)", i, (double)hf.x, (double)hf.y, ex, ez); }
    REQUIRE(faces.size() == 6, "%zu distinct faces", faces.size());
}

PBT(face_towards, 60000, 1000000, "direction is not a coordinate axis") {
    box_shape b{he(c)}; vector3 d = gen::dir(c); c.note("dir=" VF, VA(d)); size_t f = b.support_face_index(d); REQUIRE(f < 6); R best = -2; for (size_t i = 0; i < 6; ++i) best = std::max(best, orc::dot(tov(b.get_face_normal(i)), tov(d))); c.nontrivial(best < 0.999L); REQUIRE(near(orc::dot(tov(b.get_face_normal(f)), tov(d)), best, 1), "face %zu faces the direction by %Lg, best is %Lg", f, orc::dot(tov(b.get_face_normal(f)), tov(d)), best);
}

PBT(closest_feature_on_face, 80000, 2000000, "point is within the tolerance of an edge or vertex") {
    box_shape b{he(c)}; R tol = 0.01L + (R)c.unit() * 0.03L; size_t f = c.draw(6); V n = tov(b.get_face_normal(f)), h = tov(b.half_extents), p{}; R lo = 1e30L; for (int k = 0; k < 3; ++k) { if (n[k] != 0) { p[k] = n[k] * h[k]; continue; } R x = (R)c.uniform(-1, 1) * h[k]; if (c.boolean()) x = (x > 0 ? 1 : -1) * (h[k] - (R)c.uniform(0, 2) * tol); p[k] = x; lo = std::min(lo, std::abs(h[k] - std::abs(x))); }
    vector3 pt = orc::toe(p); p = tov(pt); c.note("half_extents=" VF " face=%zu point=" VF " tolerance=%Lg", VA(b.half_extents), f, VA(pt), tol); int nearcnt = 0; V trimmed{}; for (int k = 0; k < 3; ++k) if (n[k] == 0) { R g = h[k] - std::abs(p[k]); if (std::abs(g - tol) < 32 * EPS * (h[k] + 1)) c.discard(); if (g < tol) { ++nearcnt; trimmed[k] = p[k] > 0 ? 1 : -1; } }
    auto [ft, idx] = b.get_closest_feature_on_face(f, pt, (scalar)tol); c.nontrivial(nearcnt > 0); c.label(nearcnt == 0 ? "face" : nearcnt == 1 ? "edge" : "vertex"); REQUIRE(ft == (nearcnt == 0 ? box_feature::face : nearcnt == 1 ? box_feature::edge : box_feature::vertex), "feature %d with %d nearby sides", (int)ft, nearcnt); REQUIRE(idx < get_box_num_features(ft));
    std::vector<V> vs; if (nearcnt == 0) REQUIRE(idx == f); else { if (nearcnt == 1) for (auto &v : b.get_edge(idx)) vs.push_back(tov(v)); else vs.push_back(tov(b.get_vertex(idx))); for (auto &v : vs) for (int k = 0; k < 3; ++k) { if (n[k] != 0) REQUIRE(v[k] * n[k] > 0, "feature %zu is not on face %zu", idx, f); if (trimmed[k] != 0) REQUIRE(v[k] * trimmed[k] > 0, "feature %zu lies on the opposite side of the face", idx); } }
}
