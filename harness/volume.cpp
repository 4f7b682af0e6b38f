// P09: volumes, centroids and generated meshes. Oracle: closed formulas and tetrahedral decomposition in long double.
#include "harness/polygen.hpp"
#include "edyn/math/shape_volume.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/sphere_shape.hpp"
#include "edyn/shapes/polyhedron_shape.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/util/shape_util.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::near; using orc::EPS; using orc::PI;

PBT(primitive_volume, 60000, 1000000, "dimensions all differ") {
    scalar r = gen::pos(c, 0.01, 20), l = gen::pos(c, 0.01, 20); vector3 e{gen::pos(c, 0.01, 20), gen::pos(c, 0.01, 20), gen::pos(c, 0.01, 20)}; c.note("radius=%g length=%g extents=" VF, (double)r, (double)l, VA(e)); c.nontrivial(r != l && e.x != e.y && e.y != e.z);
    auto ax = (coordinate_axis)c.draw(3); R cyl = PI * r * r * l, sph = PI * r * r * r * 4 / 3, bx = (R)e.x * e.y * e.z;
    REQUIRE(near(cylinder_volume(r, l), cyl, 0)); REQUIRE(near(sphere_volume(r), sph, 0)); REQUIRE(near(box_volume(e), bx, 0));
    cylinder_shape cs{r, l, ax}; capsule_shape ks{r, l, ax}; sphere_shape ss{r}; box_shape bs{e};
    REQUIRE(near(shape_volume(cs), 2 * cyl, 0), "cylinder %g want %Lg", (double)shape_volume(cs), 2 * cyl); REQUIRE(near(shape_volume(ks), 2 * cyl + sph, 0), "capsule"); REQUIRE(near(shape_volume(ss), sph, 0), "sphere"); REQUIRE(near(shape_volume(bs), 8 * bx, 0), "box");
    compound_shape cp; size_t n = c.size(0, 5); R want = 0; for (size_t i = 0; i < n; ++i) { vector3 p = gen::vec(c); quaternion q = gen::orient(c); switch (c.draw(4)) { case 0: cp.add_shape(cs, p, q); want += 2 * cyl; break; case 1: cp.add_shape(ks, p, q); want += 2 * cyl + sph; break; case 2: cp.add_shape(ss, p, q); want += sph; break; default: cp.add_shape(bs, p, q); want += 8 * bx; } } REQUIRE(near(shape_volume(cp), want, 0), "compound of %zu shapes: %g want %Lg", n, (double)shape_volume(cp), want);
}

PBT(polyhedron_volume_centroid, 60000, 1500000, "solid away from the origin with a face of four or more sides, or eight or more faces") {
    auto p = gen::poly(c, 8); R vol; V cen; gen::solid(p, vol, cen); bool quad = false; for (auto &x : p.f) quad |= x.size() > 3; c.nontrivial(orc::len(cen) > 0.1L && (quad || p.f.size() >= 8)); c.label(p.kind); c.note("%s vertices=%zu faces=%zu v0=" VF, p.kind, p.v.size(), p.f.size(), VA(p.v[0]));
    auto m = std::make_shared<convex_mesh>(); m->vertices = p.v; p.flatten(m->indices, m->faces);
    // Bound on rounding: the sums have terms of these sizes.
    R b0 = 0, b1 = 0, mag = 0; for (auto &v : p.v) mag = std::max(mag, orc::len(tov(v))); for (auto &x : p.f) for (size_t j = 1; j + 1 < x.size(); ++j) { V e0 = tov(p.v[x[j]]) - tov(p.v[x[0]]), e1 = tov(p.v[x[j + 1]]) - tov(p.v[x[j]]); R a = orc::len(e0) * orc::len(e1) + mag * (orc::len(e0) + orc::len(e1)) * 0.5L; b0 += mag * a; b1 += 12 * mag * mag * a; }
    R tol = 8 * EPS * b0 / 6, got = mesh_volume(*m); REQUIRE(std::abs(got - vol) <= tol, "volume %Lg, want %Lg (tolerance %Lg)", got, vol, tol); polyhedron_shape ps(m); REQUIRE(shape_volume(ps) == mesh_volume(*m));
    if (tol > vol * 0.1L) return; V g = tov(mesh_centroid(m->vertices, m->indices, m->faces)); R ct = 8 * EPS * b1 / (48 * vol) + mag * tol / vol * 2; REQUIRE(orc::dist(g, cen) <= 2 * ct, "centroid " VF " want " VF " tolerance %Lg", VA(g), VA(cen), ct);
    compound_shape cp; cp.add_shape(ps, vector3_zero, quaternion_identity); cp.add_shape(sphere_shape{1}, vector3_one, quaternion_identity); REQUIRE(std::abs(shape_volume(cp) - (vol + 4 * PI / 3)) <= tol + 32 * EPS * (vol + 5), "compound with polyhedron");
}

PBT(generated_meshes, 20000, 300000, "grid of at least 3x2 vertices") {
    vector3 h{gen::pos(c, 0.05, 5), gen::pos(c, 0.05, 5), gen::pos(c, 0.05, 5)}; std::vector<vector3> v; std::vector<uint32_t> idx, faces; make_box_mesh(h, v, idx, faces); c.note("half extents " VF, VA(h));
    REQUIRE(v.size() == 8 && idx.size() == 24 && faces.size() == 12); std::set<int> corners; for (auto &x : v) { for (int k = 0; k < 3; ++k) REQUIRE(std::abs(x[k]) == h[k], "vertex off the box"); corners.insert((x.x > 0) + 2 * (x.y > 0) + 4 * (x.z > 0)); } REQUIRE(corners.size() == 8, "corner missing"); std::set<int> sides;
    for (size_t f = 0; f < 6; ++f) { REQUIRE(faces[f * 2] == f * 4 && faces[f * 2 + 1] == 4, "face table"); V n{}, ctr{}; for (int k = 0; k < 4; ++k) { REQUIRE(idx[f * 4 + k] < 8); V a = tov(v[idx[f * 4 + k]]), b = tov(v[idx[f * 4 + (k + 1) % 4]]); n = n + orc::cross(a, b); ctr = ctr + a / 4; int diff = 0; for (int i = 0; i < 3; ++i) diff += a[i] != b[i]; REQUIRE(diff == 1, "consecutive vertices of a face must share an edge"); } REQUIRE(orc::dot(n, ctr) > 0, "face %zu is not counter-clockwise seen from outside", f); int ax = std::abs(ctr.x) > 1e-6L ? 0 : std::abs(ctr.y) > 1e-6L ? 1 : 2; sides.insert(ax * 2 + (ctr[ax] > 0)); } REQUIRE(sides.size() == 6, "a side is missing");
    convex_mesh m; m.vertices = v; m.indices = idx; m.faces = faces; REQUIRE(near(mesh_volume(m), 8 * (R)h.x * h.y * h.z, 0, 64));
    scalar ex = gen::pos(c, 0.1, 50), ez = gen::pos(c, 0.1, 50); size_t nx = c.size(2, 12), nz = c.size(2, 12); std::vector<vector3> pv; std::vector<uint32_t> pi; make_plane_mesh(ex, ez, nx, nz, pv, pi); c.nontrivial(nx > 2); REQUIRE(pv.size() == nx * nz && pi.size() == (nx - 1) * (nz - 1) * 6); R area = 0; for (size_t t = 0; t < pi.size(); t += 3) { for (int k = 0; k < 3; ++k) REQUIRE(pi[t + k] < pv.size()); V n = orc::cross(tov(pv[pi[t + 1]]) - tov(pv[pi[t]]), tov(pv[pi[t + 2]]) - tov(pv[pi[t]])); REQUIRE(n.y > 0, "triangle %zu does not face up", t / 3); area += n.y / 2; } REQUIRE(std::abs(area - (R)ex * ez) <= 1024 * EPS * (R)ex * ez, "area %Lg want %Lg", area, (R)ex * ez);
    R lx = 1e9, hx = -1e9, lz = 1e9, hz = -1e9; for (auto &x : pv) { REQUIRE(x.y == 0); lx = std::min<R>(lx, x.x); hx = std::max<R>(hx, x.x); lz = std::min<R>(lz, x.z); hz = std::max<R>(hz, x.z); } REQUIRE(std::abs(lx + ex / 2) < 64 * EPS * ex && std::abs(hx - ex / 2) < 64 * EPS * ex && std::abs(lz + ez / 2) < 64 * EPS * ez && std::abs(hz - ez / 2) < 64 * EPS * ez, "extents");
}
