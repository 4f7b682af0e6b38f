// P39: derived data of convex meshes, and polyhedra and compounds loaded from OBJ. Oracle: the generated solid.
#include "harness/polygen.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/shapes/polyhedron_shape.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/util/shape_io.hpp"
#include "edyn/util/shape_util.hpp"
#include "edyn/sys/update_rotated_meshes.hpp"
#include "edyn/config/constants.hpp"
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace edyn; using pbt::Case; using orc::R; using orc::V; using orc::Q; using orc::tov; using orc::EPS;

// Puts vertices on some edges, into both faces which share the edge.
static size_t subdivide(Case &c, gen::Poly &p) { size_t n = c.size(0, 3), done = 0; for (size_t k = 0; k < n; ++k) { auto &f = p.f[c.draw(p.f.size())]; size_t i = c.draw(f.size()); uint32_t a = f[i], b = f[(i + 1) % f.size()]; R t = c.boolean() ? 0.5L : (R)c.uniform(0.2, 0.8); V m = tov(p.v[a]) * (1 - t) + tov(p.v[b]) * t; uint32_t x = (uint32_t)p.v.size(); p.v.push_back(orc::toe(m)); for (auto &g : p.f) for (size_t j = 0; j < g.size(); ++j) { uint32_t u = g[j], w = g[(j + 1) % g.size()]; if ((u == a && w == b) || (u == b && w == a)) { g.insert(g.begin() + (long)j + 1, x); break; } } ++done; } for (auto &f : p.f) { size_t r = c.draw(f.size()); std::rotate(f.begin(), f.begin() + (long)r, f.end()); } return done; }
static R extent(const gen::Poly &p, V cen) { R e = 0; for (auto &v : p.v) e = std::max(e, orc::len(tov(v) - cen)); return e; }
// Everything derived from the vertices and faces; `tol` is the error of a vertex.
static void topology(Case &c, const convex_mesh &m, const gen::Poly &p, V shift, R tol) {
    REQUIRE(m.vertices.size() == p.v.size(), "%zu vertices of %zu", m.vertices.size(), p.v.size()); for (size_t i = 0; i < p.v.size(); ++i) REQUIRE(orc::len(tov(m.vertices[i]) - (tov(p.v[i]) - shift)) <= tol, "vertex %zu", i);
    std::vector<uint32_t> wi, wf; p.flatten(wi, wf); REQUIRE(m.indices == wi && m.faces == wf, "faces were changed"); REQUIRE(m.num_faces() == p.f.size() && m.normals.size() == p.f.size(), "%zu normals of %zu", m.normals.size(), p.f.size());
    // Normals.
    for (size_t f = 0; f < p.f.size(); ++f) { V n{}; auto &x = p.f[f]; R size = 0; for (size_t j = 1; j + 1 < x.size(); ++j) { V a = tov(p.v[x[j]]) - tov(p.v[x[0]]), b = tov(p.v[x[j + 1]]) - tov(p.v[x[0]]); n = n + orc::cross(a, b); size = std::max(size, std::max(orc::len(a), orc::len(b))); } R l = orc::len(n); R err = 0.001L + 8 * tol * size / l; if (err > 0.3L) continue; REQUIRE(orc::len(tov(m.normals[f]) - n / l) <= err, "normal of face %zu with %zu vertices is " VF ", want %Lg %Lg %Lg", f, x.size(), VA(m.normals[f]), n.x / l, n.y / l, n.z / l); }
    // Edges: each once, along the first of its faces.
    std::map<std::pair<uint32_t, uint32_t>, std::vector<uint32_t>> ef; for (size_t f = 0; f < p.f.size(); ++f) for (size_t j = 0; j < p.f[f].size(); ++j) { uint32_t a = p.f[f][j], b = p.f[f][(j + 1) % p.f[f].size()]; ef[{std::min(a, b), std::max(a, b)}].push_back((uint32_t)f); }
    REQUIRE(m.num_edges() == ef.size(), "%zu edges of %zu", m.num_edges(), ef.size()); REQUIRE(m.edge_vertices.size() == 2 * ef.size() && m.edge_normals.size() == 2 * ef.size() && m.edge_faces.size() == 2 * ef.size(), "arrays of edges"); std::map<std::pair<uint32_t, uint32_t>, int> seen; std::map<uint32_t, std::set<uint32_t>> nb;
    for (size_t e = 0; e < m.num_edges(); ++e) { auto v = m.get_edge_vertices(e); auto f = m.get_edge_faces(e); std::pair<uint32_t, uint32_t> k{std::min(v[0], v[1]), std::max(v[0], v[1])}; auto it = ef.find(k); REQUIRE(it != ef.end() && ++seen[k] == 1, "edge %zu between %u and %u", e, v[0], v[1]); nb[v[0]].insert(v[1]); nb[v[1]].insert(v[0]); auto &w = it->second; REQUIRE(w.size() == 2 && ((f[0] == w[0] && f[1] == w[1]) || (f[0] == w[1] && f[1] == w[0])), "faces of edge %zu", e);
        auto &x = p.f[f[0]]; bool along = false; for (size_t j = 0; j < x.size(); ++j) along |= x[j] == v[0] && x[(j + 1) % x.size()] == v[1]; REQUIRE(along, "edge %zu does not run along its first face", e); auto ev = m.get_edge(e); auto en = m.get_edge_face_normals(e); for (int i = 0; i < 2; ++i) { REQUIRE(ev[i] == m.vertices[v[i]] && m.edge_vertices[e * 2 + i] == ev[i], "vertices of edge %zu", e); REQUIRE(en[i] == m.normals[f[i]] && m.edge_normals[e * 2 + i] == en[i], "normals of edge %zu", e); } REQUIRE(m.get_edge_direction(e) == ev[1] - ev[0], "direction of edge %zu", e); }
    // Neighbours.
    REQUIRE(m.neighbors_start.size() == p.v.size() + 1, "%zu starts of neighbours for %zu vertices", m.neighbors_start.size(), p.v.size()); REQUIRE(m.neighbor_indices.size() == 2 * ef.size(), "%zu neighbours, %zu edges", m.neighbor_indices.size(), ef.size()); for (uint32_t v = 0; v < p.v.size(); ++v) { std::multiset<uint32_t> g; for (uint32_t i = m.neighbors_start[v]; i < m.neighbors_start[v + 1]; ++i) g.insert(m.neighbor_indices[i]); std::multiset<uint32_t> w(nb[v].begin(), nb[v].end()); REQUIRE(g == w, "neighbours of vertex %u", v); }
    // Relevant directions represent all of them.
    const R T = convex_mesh_relevant_direction_tolerance; REQUIRE(m.relevant_normals.size() == m.relevant_faces.size(), "relevant normals"); for (size_t i = 0; i < m.relevant_faces.size(); ++i) { REQUIRE(m.relevant_faces[i] < m.num_faces() && m.relevant_normals[i] == m.normals[m.relevant_faces[i]], "relevant face %zu", i); for (size_t j = 0; j < i; ++j) REQUIRE(m.relevant_faces[i] != m.relevant_faces[j] && orc::dot(tov(m.relevant_normals[i]), tov(m.relevant_normals[j])) < 1 - T + 64 * EPS, "relevant faces %zu and %zu are the same", i, j); }
    for (size_t f = 0; f < m.num_faces(); ++f) { bool ok = false; for (auto r : m.relevant_faces) ok |= orc::dot(tov(m.normals[f]), tov(m.normals[r])) >= 1 - T - 64 * EPS; REQUIRE(ok, "no relevant face for face %zu", f); }
    auto ed = [&](size_t e) { return orc::unit(tov(m.get_edge_direction(e))); }; for (size_t i = 0; i < m.relevant_edges.size(); ++i) { REQUIRE(m.relevant_edges[i] < m.num_edges()); for (size_t j = 0; j < i; ++j) REQUIRE(m.relevant_edges[i] != m.relevant_edges[j] && std::abs(orc::dot(ed(m.relevant_edges[i]), ed(m.relevant_edges[j]))) < 1 - T + 64 * EPS, "relevant edges %zu and %zu are parallel", i, j); } for (size_t e = 0; e < m.num_edges(); ++e) { bool ok = false; for (auto r : m.relevant_edges) ok |= std::abs(orc::dot(ed(e), ed(r))) >= 1 - T - 64 * EPS; REQUIRE(ok, "no relevant edge for edge %zu", e); }
}
static void scale(Case &c, gen::Poly &p) { if (c.chance(1, 3)) { scalar s = gen::pos(c, 0.02, 1); for (auto &v : p.v) v *= s; } }
PBT(derived, 12000, 250000, "faces with more than three vertices or subdivided edges") {
    auto p = gen::poly(c); scale(c, p); size_t sub = subdivide(c, p); R vol; V cen; gen::solid(p, vol, cen); R mag = orc::len(cen) + extent(p, cen); bool big = false; for (auto &f : p.f) big |= f.size() > 3; c.nontrivial(big); c.label_if(sub > 0, "subdivided"); c.note("%s with %zu vertices, %zu of them on edges, volume %Lg", p.kind, p.v.size(), sub, vol); if (mag > 300 * extent(p, cen)) c.discard();
    convex_mesh m; m.vertices = p.v; p.flatten(m.indices, m.faces); bool shift = c.boolean(); R tol = 64 * EPS * mag * (1 + 10 * (shift ? mag / extent(p, cen) : 0)); if (shift) { /* the centroid of a flat solid far away is inaccurate */ R r = extent(p, cen); if (vol < 0.02L * r * r * r || mag > 8 * r) c.discard(); tol = 2000 * EPS * mag; m.initialize(); } else m.update_calculated_properties(); topology(c, m, p, shift ? cen : V{}, tol); REQUIRE(m.validate(), "a convex mesh is not valid");
}
PBT(updated, 6000, 120000, "every case") { // vertices or faces changed and everything derived again
    auto a = gen::poly(c), b = gen::poly(c); subdivide(c, a); subdivide(c, b); c.note("%s with %zu vertices, then %s with %zu", a.kind, a.v.size(), b.kind, b.v.size()); c.nontrivial(); convex_mesh m; m.vertices = a.v; a.flatten(m.indices, m.faces); m.update_calculated_properties(); topology(c, m, a, V{}, 0); if (c.boolean()) { m.update_calculated_properties(); topology(c, m, a, V{}, 0); }
    if (c.boolean()) { b = a; Q q = orc::toq(gen::orient(c)); for (auto &v : b.v) v = orc::toe(orc::rot(q, tov(v))); c.label("turned"); } m.vertices = b.v; m.indices.clear(); m.faces.clear(); b.flatten(m.indices, m.faces); m.update_calculated_properties(); topology(c, m, b, V{}, 0);
}
PBT(rotated, 6000, 120000, "every case") {
    auto p = gen::poly(c); convex_mesh m; m.vertices = p.v; p.flatten(m.indices, m.faces); m.update_calculated_properties(); auto q = gen::orient(c), q0 = gen::orient(c); c.nontrivial(); rotated_mesh r = make_rotated_mesh(m, c.boolean() ? q : q0); update_rotated_mesh(r, m, q); Q oq = orc::toq(q); c.note("%s with %zu vertices turned by " QF, p.kind, p.v.size(), QA(q));
    auto same = [&](const std::vector<vector3> &x, const std::vector<vector3> &y, const char *what) { REQUIRE(x.size() == y.size(), "%s: %zu of %zu", what, x.size(), y.size()); for (size_t i = 0; i < x.size(); ++i) REQUIRE(orc::len(tov(x[i]) - orc::rot(oq, tov(y[i]))) <= 64 * EPS * (1 + orc::len(tov(y[i]))), "%s %zu", what, i); }; same(r.vertices, m.vertices, "vertices"); same(r.normals, m.normals, "normals"); same(r.relevant_normals, m.relevant_normals, "relevant normals"); same(r.edge_vertices, m.edge_vertices, "edge vertices"); same(r.edge_normals, m.edge_normals, "edge normals");
    for (size_t e = 0; e < m.num_edges(); ++e) { auto v = m.get_rotated_edge(r, e); REQUIRE(v[0] == r.edge_vertices[2 * e] && v[1] == r.edge_vertices[2 * e + 1] && m.get_rotated_edge_direction(r, e) == v[1] - v[0], "edge %zu", e); auto ev = r.get_edge_vertices(e); auto en = r.get_edge_normals(e); REQUIRE(ev[0] == v[0] && ev[1] == v[1] && en[0] == r.edge_normals[2 * e] && en[1] == r.edge_normals[2 * e + 1], "edge %zu", e); }
}
struct Doc { std::vector<gen::Poly> p; std::string text; };
static Doc document(Case &c) { Doc d; size_t n = c.size(1, 4), base = 1; char b[128]; for (size_t k = 0; k < n; ++k) { auto p = gen::poly(c, 3); if (c.chance(1, 3)) subdivide(c, p); if (k || c.boolean()) d.text += "o part" + std::to_string(k) + "\n"; if (c.chance(1, 3)) d.text += "# comment\nvn 0 1 0\n"; for (auto &v : p.v) { snprintf(b, sizeof b, "v %.17g %.17g %.17g\n", (double)v.x, (double)v.y, (double)v.z); d.text += b; } if (c.chance(1, 3)) d.text += "s off\nusemtl m\n"; bool slash = c.boolean(); for (auto &f : p.f) { d.text += "f"; for (auto i : f) { d.text += " " + std::to_string(base + i); if (slash) d.text += "/1/2"; } d.text += "\n"; } base += p.v.size(); d.p.push_back(p); } return d; }
struct TempFile { std::string path; TempFile(const std::string &t) { char b[] = "/tmp/pbt_cvx_XXXXXX"; int fd = mkstemp(b); path = b; if (fd >= 0) { (void)!write(fd, t.data(), t.size()); close(fd); } } ~TempFile() { unlink(path.c_str()); } };
PBT(from_obj, 5000, 100000, "several objects and a transform") {
    auto d = document(c); vector3 pos = vector3_zero, sc = vector3_one; quaternion orn = quaternion_identity; if (c.boolean()) pos = gen::vec(c, 3); if (c.boolean()) orn = gen::orient(c); if (c.boolean()) { scalar u = gen::pos(c, 0.3, 3); sc = {u, u, u}; if (c.boolean()) sc.y = gen::pos(c, 0.3, 3); }
    c.note("%zu polyhedra, pos " VF " orn " QF " scale " VF, d.p.size(), VA(pos), QA(orn), VA(sc)); c.nontrivial(d.p.size() > 1 && !(pos == vector3_zero)); std::vector<polyhedron_with_center> got; compound_shape comp; bool file = c.chance(1, 5); { std::stringstream s(d.text), s2(d.text); if (file) { TempFile f(d.text); got = load_convex_polyhedrons_from_obj(f.path, pos, orn, sc); comp = load_compound_shape_from_obj(f.path, pos, orn, sc); } else { got = load_convex_polyhedrons_from_obj(s, pos, orn, sc); comp = load_compound_shape_from_obj(s2, pos, orn, sc); } }
    REQUIRE(got.size() == d.p.size() && comp.nodes.size() == d.p.size(), "%zu polyhedra and %zu nodes of %zu", got.size(), comp.nodes.size(), d.p.size()); Q q = orc::toq(orn);
    for (size_t k = 0; k < got.size(); ++k) { gen::Poly w = d.p[k]; std::vector<V> wv; V sum{}; for (auto &v : w.v) { V x{(R)v.x * sc.x, (R)v.y * sc.y, (R)v.z * sc.z}; wv.push_back(orc::rot(q, x) + tov(pos)); v = orc::toe(wv.back()); } R vol; V cen; gen::solid(w, vol, cen); R r = extent(w, cen), mag = orc::len(cen) + r; if (vol < 0.02L * r * r * r || mag > 8 * r) { c.label("inaccurate centroid"); continue; } R tol = 3000 * EPS * mag; REQUIRE(orc::len(tov(got[k].center) - cen) <= tol, "center of polyhedron %zu is " VF ", want %Lg %Lg %Lg", k, VA(got[k].center), cen.x, cen.y, cen.z); topology(c, *got[k].shape.mesh, w, cen, tol);
        auto &nd = comp.nodes[k]; REQUIRE(orc::len(tov(nd.position) - cen) <= tol && nd.orientation == quaternion_identity, "position of node %zu", k); auto *ps = std::get_if<polyhedron_shape>(&nd.shape_var); REQUIRE(ps != nullptr); topology(c, *ps->mesh, w, cen, tol); V lo = wv[0], hi = wv[0]; for (auto &v : wv) { lo = {std::min(lo.x, v.x), std::min(lo.y, v.y), std::min(lo.z, v.z)}; hi = {std::max(hi.x, v.x), std::max(hi.y, v.y), std::max(hi.z, v.z)}; } REQUIRE(orc::len(tov(nd.aabb.min) - lo) <= 3 * tol && orc::len(tov(nd.aabb.max) - hi) <= 3 * tol, "bounds of node %zu", k);
        // The tree finds the node, by any box which meets its bounds.
        V at = lo + V{(hi.x - lo.x) * (R)c.unit(), (hi.y - lo.y) * (R)c.unit(), (hi.z - lo.z) * (R)c.unit()}; vector3 a3 = orc::toe(at); vector3 h = vector3_one * (scalar)(0.01 + 10 * (double)tol); int n = 0; comp.visit({a3 - h, a3 + h}, [&](auto &&, auto idx) { n += idx == k; }); REQUIRE(n == 1, "node %zu was visited %d times", k, n); }
    REQUIRE(load_convex_polyhedrons_from_obj("/nonexistent_dir/x.obj", pos, orn, sc).empty() && load_compound_shape_from_obj("/nonexistent_dir/x.obj", pos, orn, sc).nodes.empty(), "a missing file has content");
}
