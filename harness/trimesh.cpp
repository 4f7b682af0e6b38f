// P12: triangle meshes. Oracle: adjacency and geometry recomputed from the input triangles alone.
#include "harness/meshgen.hpp"
#include <map>
#include <set>
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::near; using orc::EPS;
static bool degenerate(const gen::TriMesh &m) { for (size_t t = 0; t < m.idx.size() / 3; ++t) { V a = tov(m.v[m.idx[t * 3]]), b = tov(m.v[m.idx[t * 3 + 1]]), d = tov(m.v[m.idx[t * 3 + 2]]); R l = std::max(orc::len(b - a), std::max(orc::len(d - b), orc::len(a - d))); if (orc::len(gen::tri_area2(m, t)) < 0.02L * l * l) return true; } return false; }
static R mag_of(const gen::TriMesh &m) { R g = 1; for (auto &v : m.v) g = std::max(g, orc::len(tov(v))); return g; }

PBT(adjacency, 20000, 400000, "mesh has an interior edge and a boundary edge, or is closed with 8+ faces") {
    auto m = gen::trimesh(c); if (degenerate(m)) c.discard(); triangle_mesh tm; gen::fill(tm, m); tm.initialize(); size_t nt = m.idx.size() / 3; c.note("triangles=%zu vertices=%zu closed=%d v0=" VF, nt, m.v.size(), (int)m.closed, VA(m.v[0])); R mag = mag_of(m);
    REQUIRE(tm.num_triangles() == nt && tm.num_vertices() == m.v.size(), "counts"); std::map<std::pair<uint32_t, uint32_t>, std::vector<size_t>> edges; std::vector<V> nrm; for (size_t t = 0; t < nt; ++t) { nrm.push_back(orc::unit(gen::tri_area2(m, t))); for (int i = 0; i < 3; ++i) { uint32_t a = m.idx[t * 3 + i], b = m.idx[t * 3 + (i + 1) % 3]; edges[{std::min(a, b), std::max(a, b)}].push_back(t); } } for (auto &e : edges) if (e.second.size() > 2) c.discard();
    REQUIRE(tm.num_edges() == edges.size(), "mesh has %zu distinct edges, reported %zu", edges.size(), tm.num_edges()); std::set<std::pair<uint32_t, uint32_t>> seen; size_t boundary = 0;
    for (size_t e = 0; e < tm.num_edges(); ++e) { auto vi = tm.get_edge_vertex_indices(e); std::pair<uint32_t, uint32_t> k{std::min(vi[0], vi[1]), std::max(vi[0], vi[1])}; auto it = edges.find(k); REQUIRE(it != edges.end(), "edge %zu joins vertices %u and %u which share no triangle", e, vi[0], vi[1]); seen.insert(k); auto fi = tm.get_edge_face_indices(e); auto &f = it->second; bool bd = f.size() == 1; boundary += bd; REQUIRE(tm.is_boundary_edge(e) == bd, "edge %zu boundary=%d, triangles %zu", e, (int)tm.is_boundary_edge(e), f.size()); std::set<size_t> A{fi[0], fi[1]}, B(f.begin(), f.end()); REQUIRE(A == B, "edge %zu lists triangles %u and %u", e, fi[0], fi[1]); auto ev = tm.get_edge_vertices(e); REQUIRE(ev[0] == m.v[vi[0]] && ev[1] == m.v[vi[1]]);
        if (bd) REQUIRE(tm.is_convex_edge(e), "boundary edge reported concave"); else { // convex: the opposite vertex of one triangle lies behind the plane of the other
            V e0 = tov(m.v[k.first]); for (int s = 0; s < 2; ++s) { size_t t0 = f[s], t1 = f[1 - s]; V opp{}; for (int i = 0; i < 3; ++i) { auto v = m.idx[t1 * 3 + i]; if (v != k.first && v != k.second) opp = tov(m.v[v]); } V dirn = orc::unit(tov(m.v[k.second]) - e0); V out = opp - e0; out = out - dirn * orc::dot(out, dirn); R sn = orc::dot(nrm[t0], orc::unit(out)), L = orc::dist(tov(m.v[k.second]), e0); // sine of the dihedral deviation
                if (sn < -(64 * EPS * mag * mag + 4 * EPS / L)) REQUIRE(tm.is_convex_edge(e), "edge %zu bends down by %Lg but is reported concave", e, sn); if (sn > 64 * EPS * mag * mag) REQUIRE(!tm.is_convex_edge(e), "edge %zu bends up by %Lg but is reported convex", e, sn); } } }
    REQUIRE(seen.size() == edges.size(), "an edge is listed twice"); c.nontrivial(m.closed ? nt >= 8 : boundary > 0 && boundary < edges.size()); if (m.closed) { REQUIRE(boundary == 0, "closed mesh has boundary edges"); c.label("closed"); }
    for (size_t t = 0; t < nt; ++t) { auto tv = tm.get_triangle_vertices(t); REQUIRE(orc::dist(tov(tm.get_triangle_normal(t)), nrm[t]) <= 256 * EPS * mag * 50, "normal of triangle %zu", t); for (int i = 0; i < 3; ++i) { REQUIRE(tv[i] == m.v[m.idx[t * 3 + i]] && tm.get_face_vertex_index(t, i) == m.idx[t * 3 + i]); uint32_t a = m.idx[t * 3 + i], b = m.idx[t * 3 + (i + 1) % 3]; auto e = tm.get_face_edge_index(t, i); auto vi = tm.get_edge_vertex_indices(e); REQUIRE((vi[0] == a && vi[1] == b) || (vi[0] == b && vi[1] == a), "edge %d of triangle %zu", i, t);
            auto &f = edges[{std::min(a, b), std::max(a, b)}]; V an = tov(tm.get_adjacent_face_normal(t, i)); if (f.size() == 2) { size_t o = f[0] == t ? f[1] : f[0]; REQUIRE(orc::dist(an, nrm[o]) <= 256 * EPS * mag * 50, "adjacent normal of triangle %zu across edge %d", t, i); } else { V out = orc::cross(tov(m.v[b]) - tov(m.v[a]), nrm[t]); REQUIRE(orc::dot(an, nrm[t]) < 0 && orc::dot(an, out) > 0 && std::abs(orc::len(an) - 1) < 1e-4L, "adjacent normal across a boundary edge must bend outwards and backwards"); } } }
    auto bb = tm.get_aabb(); for (int k = 0; k < 3; ++k) { scalar lo = m.v[0][k], hi = lo; for (auto &v : m.v) { lo = std::min(lo, v[k]); hi = std::max(hi, v[k]); } REQUIRE(bb.min[k] == lo && bb.max[k] == hi, "bounds of the mesh"); }
}

PBT(queries, 15000, 300000, "query reports some but not all triangles") {
    auto m = gen::trimesh(c, 7); if (degenerate(m)) c.discard(); triangle_mesh tm; gen::fill(tm, m); tm.initialize(); size_t nt = m.idx.size() / 3; AABB q; size_t t0 = c.draw(nt); V ctr = tov(m.v[m.idx[t0 * 3]]); if (c.boolean()) ctr = tov(gen::vec(c, 5)); V h{(R)c.uniform(0, 2), (R)c.uniform(0, 2), (R)c.uniform(0, 2)}; q.min = orc::toe(ctr - h); q.max = orc::toe(ctr + h); c.note("triangles=%zu query=" VF VF, nt, VA(q.min), VA(q.max)); std::multiset<size_t> got; tm.visit_triangles(q, [&](auto i) { got.insert((size_t)i); }); size_t hits = 0;
    for (size_t t = 0; t < nt; ++t) { bool ov = true; for (int k = 0; k < 3; ++k) { scalar lo = 1e30f, hi = -1e30f; for (int i = 0; i < 3; ++i) { lo = std::min(lo, m.v[m.idx[t * 3 + i]][k]); hi = std::max(hi, m.v[m.idx[t * 3 + i]][k]); } ov &= lo <= q.max[k] && hi >= q.min[k]; } hits += ov; REQUIRE(got.count(t) == (ov ? 1u : 0u), "triangle %zu overlaps=%d visited %zu times", t, (int)ov, got.count(t)); } c.nontrivial(hits > 0 && hits < nt);
    size_t all = 0; tm.visit_all([&](auto i, const triangle_vertices &tv) { ++all; for (int k = 0; k < 3; ++k) REQUIRE(tv[k] == m.v[m.idx[i * 3 + k]]); }); REQUIRE(all == nt, "visit_all visited %zu of %zu", all, nt);
    vector3 p0 = gen::vec(c, 6), p1 = gen::vec(c, 6); size_t tt = c.draw(nt); if (c.chance(2, 3)) { R u = c.unit(), w = c.unit() * (1 - u); V a = tov(m.v[m.idx[tt * 3]]), b = tov(m.v[m.idx[tt * 3 + 1]]), d = tov(m.v[m.idx[tt * 3 + 2]]); V x = a + (b - a) * u + (d - a) * w; p1 = orc::toe(tov(p0) + (x - tov(p0)) * (R)c.uniform(1.01, 2)); } if (length(p1 - p0) < 0.1) return; std::multiset<size_t> rays; tm.raycast(p0, p1, [&](auto i) { rays.insert((size_t)i); });
    for (size_t t = 0; t < nt; ++t) { REQUIRE(rays.count(t) <= 1, "triangle visited twice by the ray"); V a = tov(m.v[m.idx[t * 3]]), n = orc::unit(gen::tri_area2(m, t)), D = tov(p1) - tov(p0); R dn = orc::dot(D, n); if (std::abs(dn) < 1e-2L) continue; R s = orc::dot(a - tov(p0), n) / dn; if (s < 1e-3L || s > 1 - 1e-3L) continue; V x = tov(p0) + D * s; R in = 1e30L; for (int i = 0; i < 3; ++i) { V e0 = tov(m.v[m.idx[t * 3 + i]]), e = tov(m.v[m.idx[t * 3 + (i + 1) % 3]]) - e0; in = std::min(in, orc::dot(x - e0, orc::cross(n, e)) / orc::len(e)); } if (in > 2e-3L) REQUIRE(rays.count(t) == 1, "the ray hits triangle %zu at %Lg but it is not visited", t, s); }
}

PBT(interpolation, 20000, 400000, "values differ among the vertices") {
    auto m = gen::trimesh(c, 3); if (degenerate(m)) c.discard(); triangle_mesh tm; gen::fill(tm, m); REQUIRE(!tm.has_per_vertex_friction() && !tm.has_per_vertex_restitution() && !tm.has_per_vertex_material_id()); std::vector<scalar> fr, re; for (size_t i = 0; i < m.v.size(); ++i) { fr.push_back((scalar)c.uniform(0, 2)); re.push_back((scalar)c.uniform(0, 1)); } tm.insert_friction_coefficients(fr.begin(), fr.end()); tm.insert_restitution_coefficients(re.begin(), re.end()); tm.initialize(); REQUIRE(tm.has_per_vertex_friction() && tm.has_per_vertex_restitution()); size_t nt = m.idx.size() / 3, t = c.draw(nt); R mag = mag_of(m);
    R u = c.unit(), w = c.unit() * (1 - u); if (c.chance(1, 4)) w = 0; R bc[3] = {1 - u - w, u, w}; V p{}; R wf = 0, wr = 0; for (int i = 0; i < 3; ++i) { auto vi = m.idx[t * 3 + i]; p = p + tov(m.v[vi]) * bc[i]; wf += bc[i] * fr[vi]; wr += bc[i] * re[vi]; } vector3 pt = orc::toe(p); c.note("triangle %zu barycentric (%Lg,%Lg,%Lg)", t, bc[0], bc[1], bc[2]); R area = orc::len(gen::tri_area2(m, t)), tol = 512 * EPS * mag * mag / area * (1 + mag); if (tol > 0.05L) c.discard(); c.nontrivial();
    auto b = tm.barycentric_coordinates(t, pt); for (int i = 0; i < 3; ++i) REQUIRE(std::abs(b[i] - bc[i]) <= tol, "coordinate %d is %g, want %Lg", i, (double)b[i], bc[i]); REQUIRE(std::abs(b.x + b.y + b.z - 1) <= 8 * EPS * (1 + tol / EPS)); REQUIRE(std::abs(tm.get_face_friction(t, pt) - wf) <= 4 * tol, "friction %g, want %Lg", (double)tm.get_face_friction(t, pt), wf); REQUIRE(std::abs(tm.get_face_restitution(t, pt) - wr) <= 4 * tol, "restitution %g, want %Lg", (double)tm.get_face_restitution(t, pt), wr); vector3 val = gen::vec(c, 5); R wv = bc[0] * val.x + bc[1] * val.y + bc[2] * val.z; REQUIRE(std::abs(tm.interpolate_triangle(t, pt, val) - wv) <= 20 * tol, "interpolated %g want %Lg", (double)tm.interpolate_triangle(t, pt, val), wv);
    size_t e = tm.get_face_edge_index(t, c.draw(3)); auto vi = tm.get_edge_vertex_indices(e); R s = c.unit(); V ep = tov(m.v[vi[0]]) + (tov(m.v[vi[1]]) - tov(m.v[vi[0]])) * s; R ef = fr[vi[0]] + (R)((R)fr[vi[1]] - fr[vi[0]]) * s, er = re[vi[0]] + (R)((R)re[vi[1]] - re[vi[0]]) * s; R et = 64 * EPS * mag / orc::dist(tov(m.v[vi[0]]), tov(m.v[vi[1]])) * 4; REQUIRE(std::abs(tm.get_edge_friction(e, (scalar)s) - ef) <= et + 16 * EPS, "edge friction by fraction"); REQUIRE(std::abs(tm.get_edge_restitution(e, (scalar)s) - er) <= et + 16 * EPS, "edge restitution by fraction"); REQUIRE(std::abs(tm.get_edge_friction(e, orc::toe(ep)) - ef) <= et, "friction at %Lg of edge: %g, want %Lg", s, (double)tm.get_edge_friction(e, orc::toe(ep)), ef); REQUIRE(std::abs(tm.get_edge_restitution(e, orc::toe(ep)) - er) <= et, "restitution at %Lg of edge: %g, want %Lg", s, (double)tm.get_edge_restitution(e, orc::toe(ep)), er); size_t v = c.draw(m.v.size()); REQUIRE(tm.get_vertex_friction(v) == fr[v] && tm.get_vertex_restitution(v) == re[v]);
}

// Material ids of the vertices have no setter: an archive that only looks for their list assigns them.
struct set_ids { using is_input = std::true_type; using is_output = std::false_type; std::vector<material::id_type> ids; int found = 0; template<typename T> void operator()(T &t) { if constexpr (std::is_same_v<T, std::vector<material::id_type>>) { t = ids; ++found; } } template<typename... Ts> void operator()(Ts &...t) { ((*this)(t), ...); } };
PBT(material_ids, 20000, 300000, "ids differ among the vertices") {
    auto m = gen::trimesh(c, 3); if (degenerate(m)) c.discard(); triangle_mesh tm; gen::fill(tm, m); tm.initialize(); set_ids s; for (size_t i = 0; i < m.v.size(); ++i) s.ids.push_back((material::id_type)c.draw(2000)); serialize(s, tm); REQUIRE(s.found == 1, "mesh does not store material ids of vertices"); REQUIRE(tm.has_per_vertex_material_id()); for (size_t i = 0; i < m.v.size(); ++i) REQUIRE(tm.get_vertex_material_id(i) == s.ids[i], "id of vertex %zu", i);
    size_t t = c.draw(m.idx.size() / 3); R u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; } R w[3] = {1 - u - v, u, v}; V p{}; for (int i = 0; i < 3; ++i) p = p + tov(m.v[m.idx[t * 3 + i]]) * w[i]; R mag = mag_of(m), L = 1e30L, A = orc::len(gen::tri_area2(m, t)); for (int i = 0; i < 3; ++i) L = std::min(L, orc::dist(tov(m.v[m.idx[t * 3 + i]]), tov(m.v[m.idx[t * 3 + (i + 1) % 3]]))); R tol = 512 * EPS * mag * mag / A * (1 + mag); if (tol > 0.05L) c.discard(); c.note("triangle=%zu weights=%Lg,%Lg,%Lg", t, w[0], w[1], w[2]); c.nontrivial(s.ids[m.idx[t * 3]] != s.ids[m.idx[t * 3 + 1]]);
    auto f = tm.get_face_material_id(t, orc::toe(p)); for (int i = 0; i < 3; ++i) { REQUIRE(f[i].id == s.ids[m.idx[t * 3 + i]], "id %d of triangle %zu", i, t); REQUIRE(std::abs(f[i].fraction - w[i]) <= tol, "fraction %d is %g, want %Lg", i, (double)f[i].fraction, w[i]); }
    size_t e = tm.get_face_edge_index(t, c.draw(3)); auto vi = tm.get_edge_vertex_indices(e); R q = c.unit(); auto g = tm.get_edge_material_id(e, (scalar)q); auto h = tm.get_edge_material_id(e, orc::toe(tov(m.v[vi[0]]) + (tov(m.v[vi[1]]) - tov(m.v[vi[0]])) * q)); R et = 64 * EPS * mag / orc::dist(tov(m.v[vi[0]]), tov(m.v[vi[1]])) * 8; for (int i = 0; i < 2; ++i) { R want = i ? q : 1 - q; REQUIRE(g[i].id == s.ids[vi[i]] && h[i].id == s.ids[vi[i]], "ids of an edge"); REQUIRE(std::abs(g[i].fraction - want) < 8 * EPS && std::abs(h[i].fraction - want) <= et, "fraction along an edge is %g and %g, want %Lg", (double)g[i].fraction, (double)h[i].fraction, want); }
}
