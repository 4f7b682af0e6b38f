// P06: support functions. Oracle: brute-force maximum over the shape's own definition, in long double.
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/util/shape_util.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::toq; using orc::near; using orc::EPS;

static vector3 he(pbt::Case &c) { vector3 h; h.x = gen::pos(c, 0.05, 4); h.y = gen::pos(c, 0.05, 4); h.z = gen::pos(c, 0.05, 4); if (c.chance(1, 6)) h.y = h.x; return h; }
static vector3 anydir(pbt::Case &c) { vector3 d = gen::dir(c); if (c.chance(1, 3)) { int k = (int)c.draw(3); V v = tov(d); v[k] *= (R)c.uniform(0, 0.02); if (orc::len(v) < 0.1L) { v[(k + 1) % 3] = 1; } d = orc::toe(orc::unit(v)); } return d; }

PBT(box_support, 80000, 2000000, "direction is oblique to the box") {
    box_shape sh{he(c)}; vector3 pos = gen::vec(c, 10); auto orn = gen::orient(c); vector3 d = anydir(c); scalar scale = c.chance(1, 4) ? gen::pos(c, 0.1, 10) : 1; d = d * scale;
    c.note("half_extents=" VF " pos=" VF " orn=" QF " dir=" VF, VA(sh.half_extents), VA(pos), QA(orn), VA(d)); V h = tov(sh.half_extents), D = tov(d), L = orc::rot(orc::conj(toq(orn)), D); R dl = orc::len(D), mag = dl * (orc::len(h) + orc::len(tov(pos)));
    c.nontrivial(std::min(std::abs(L.x), std::min(std::abs(L.y), std::abs(L.z))) > 1e-3L * dl);
    auto best = [&](V l) { return std::abs(l.x) * h.x + std::abs(l.y) * h.y + std::abs(l.z) * h.z; };
    auto p = sh.support_point(d); REQUIRE(near(orc::dot(tov(p), D), best(D), dl * orc::len(h)), "object space support projects to %Lg, maximum is %Lg", orc::dot(tov(p), D), best(D)); for (int i = 0; i < 3; ++i) REQUIRE(std::abs(p[i]) == sh.half_extents[i], "support point is not a vertex: " VF, VA(p)); REQUIRE(support_point_box(sh.half_extents, d) == p);
    auto check = [&](vector3 q, vector3 base, const char *what) { V rel = orc::rot(orc::conj(toq(orn)), tov(q) - tov(base)); R slack = 64 * EPS * (orc::len(h) + orc::len(tov(base))); for (int i = 0; i < 3; ++i) REQUIRE(std::abs(rel[i]) <= h[i] + slack, "%s lies outside the box: " VF, what, VA(q)); REQUIRE(near(orc::dot(tov(q) - tov(base), D), best(L), mag, 64), "%s projects to %Lg, maximum is %Lg", what, orc::dot(tov(q) - tov(base), D), best(L)); };
    check(sh.support_point(orn, d), vector3_zero, "rotated support point"); check(sh.support_point(pos, orn, d), pos, "world support point");
    REQUIRE(near(sh.support_projection(pos, orn, d), orc::dot(tov(pos), D) + best(L), mag, 64), "projection %g, want %Lg", (double)sh.support_projection(pos, orn, d), orc::dot(tov(pos), D) + best(L));
}

PBT(cylinder_support, 80000, 2000000, "direction is oblique to the axis") {
    cylinder_shape sh{gen::pos(c, 0.05, 4), gen::pos(c, 0.05, 4), (coordinate_axis)c.draw(3)}; vector3 pos = gen::vec(c, 10); auto orn = gen::orient(c); vector3 d = anydir(c); int ax = (int)sh.axis;
    if (c.chance(1, 8)) { V e{}; e[ax] = c.boolean() ? 1 : -1; d = orc::toe(orc::rot(toq(orn), e)); } bool obj = c.chance(1, 4); if (obj) orn = quaternion_identity;
    c.note("r=%g hl=%g axis=%d pos=" VF " orn=" QF " dir=" VF, sh.radius, sh.half_length, ax, VA(pos), QA(orn), VA(d)); V e{}; e[ax] = 1; V n = orc::rot(toq(orn), e), D = tov(d); R along = orc::dot(D, n), perp = orc::len(D - n * along), size = (R)sh.radius + sh.half_length, mag = size + orc::len(tov(pos)); c.nontrivial(perp > 1e-3L && std::abs(along) > 1e-3L);
    R best = std::abs(along) * sh.half_length + perp * sh.radius, tol = 64 * EPS * mag + (perp < 2 * std::sqrt(EPS) ? perp * 2 * sh.radius : 0) + (std::abs(along) < 64 * EPS ? 64 * EPS * sh.half_length : 0); 
    auto check = [&](vector3 q, vector3 base) { V rel = tov(q) - tov(base); R a = orc::dot(rel, n), p = orc::len(rel - n * a); REQUIRE(std::abs(a) <= sh.half_length + 64 * EPS * mag && p <= sh.radius + 64 * EPS * mag, "support point outside the cylinder (axial %Lg, radial %Lg)", a, p); REQUIRE(std::abs(orc::dot(rel, D) - best) <= tol, "support point projects to %Lg, maximum is %Lg", orc::dot(rel, D), best); };
    if (obj) check(cylinder_support_point(sh.radius, sh.half_length, sh.axis, d), vector3_zero); check(cylinder_support_point(sh.radius, sh.half_length, sh.axis, orn, d), vector3_zero); check(sh.support_point(pos, orn, d), pos); check(cylinder_support_point(sh.radius, sh.half_length, sh.axis, pos, orn, d), pos);
    R want = orc::dot(tov(pos), D) + best; REQUIRE(std::abs(sh.support_projection(pos, orn, d) - want) <= tol, "projection %g want %Lg", (double)sh.support_projection(pos, orn, d), want); REQUIRE(std::abs(cylinder_support_projection(sh.radius, sh.half_length, sh.axis, pos, orn, d) - want) <= tol);
    auto vs = sh.get_vertices(pos, orn); REQUIRE(near(vs[0], tov(pos) + n * (R)sh.half_length, mag, 64) && near(vs[1], tov(pos) - n * (R)sh.half_length, mag, 64), "cap centres");
    // circle: the rim of a cap
    auto q = support_point_circle(pos, orn, sh.radius, sh.axis, d); V rel = tov(q) - tov(pos); REQUIRE(std::abs(orc::dot(rel, n)) <= 64 * EPS * mag && std::abs(orc::len(rel) - sh.radius) <= 64 * EPS * mag, "support point is off the circle"); REQUIRE(std::abs(orc::dot(rel, D) - perp * sh.radius) <= tol, "circle support projects to %Lg, maximum is %Lg", orc::dot(rel, D), perp * sh.radius);
}

PBT(cylinder_feature_class, 80000, 2000000, "direction near the axis or near the side plane") {
    cylinder_shape sh{gen::pos(c, 0.1, 3), gen::pos(c, 0.1, 3), (coordinate_axis)c.draw(3)}; int ax = (int)sh.axis; R th = 0.001L + (R)c.unit() * 0.02L; scalar thr = (scalar)th; auto orn = gen::orient(c); R ang; // angle from the axis
    switch (c.draw(3)) { case 0: ang = th / (2 * sh.radius) * (R)c.uniform(0, 2); break; case 1: ang = orc::PI / 2 + th / (2 * sh.half_length) * (R)c.uniform(-2, 2); break; default: ang = (R)c.uniform(0, 3.14159265); } if (c.boolean()) ang = orc::PI - ang; R az = (R)c.uniform(0, 6.2831853);
    V l{}; l[ax] = std::cos(ang); l[(ax + 1) % 3] = std::sin(ang) * std::cos(az); l[(ax + 2) % 3] = std::sin(ang) * std::sin(az); vector3 ld = orc::toe(l), wd = orc::toe(orc::rot(toq(orn), l)); c.note("r=%g hl=%g axis=%d threshold=%g dir=" VF " orn=" QF, sh.radius, sh.half_length, ax, thr, VA(ld), QA(orn));
    R cap = 2 * (R)sh.radius * std::abs(std::sin(ang)), side = 2 * (R)sh.half_length * std::abs(std::cos(ang)), m = 64 * EPS * (sh.radius + sh.half_length); if (std::abs(cap - th) < m || std::abs(side - th) < m) c.discard();
    cylinder_feature want = cap < th ? cylinder_feature::face : side < th ? cylinder_feature::side_edge : cylinder_feature::cap_edge; c.label(want == cylinder_feature::face ? "face" : want == cylinder_feature::side_edge ? "side edge" : "cap edge"); c.nontrivial(cap < 2 * th || side < 2 * th);
    for (int k = 0; k < 2; ++k) { cylinder_feature f{}; size_t idx = 0; if (k) sh.support_feature(gen::vector3{1, 2, 3}, orn, wd, f, idx, thr); else sh.support_feature(ld, f, idx, thr); REQUIRE(f == want, "feature %d, want %d", (int)f, (int)want); if (f != cylinder_feature::side_edge) REQUIRE(idx == (std::cos(ang) > 0 ? 0u : 1u), "cap index %zu, direction %s the axis", idx, std::cos(ang) > 0 ? "along" : "against"); }
}

PBT(box_feature_class, 80000, 2000000, "more than one vertex within the threshold") {
    box_shape sh{he(c)}; V h = tov(sh.half_extents); R th = 0.001L + (R)c.unit() * 0.02L; scalar thr = (scalar)th; auto orn = gen::orient(c); vector3 pos = gen::vec(c, 5), apos = gen::vec(c, 5); vector3 ld; 
    if (c.chance(3, 4)) { V l{}; int k = (int)c.draw(3); l[k] = c.boolean() ? 1 : -1; int kind = (int)c.draw(3); if (kind) { int j = (k + 1 + (int)c.draw(2)) % 3; l[j] = c.chance(1, 2) ? (R)c.uniform(-1, 1) : (R)c.uniform(-1, 1) * th / h[j]; if (kind == 2) { int i = 3 - k - j; l[i] = (R)c.uniform(-1, 1) * th / h[i]; } } ld = orc::toe(orc::unit(l)); } else ld = gen::dir(c);
    V l = tov(ld); vector3 wd = orc::toe(orc::rot(toq(orn), l)); c.note("half_extents=" VF " threshold=%g dir=" VF, VA(sh.half_extents), thr, VA(ld)); R best = 0; for (int i = 0; i < 3; ++i) best += std::abs(l[i]) * h[i];
    box_feature f{}; size_t idx = 99; scalar proj = 0; sh.support_feature(ld, f, idx, proj, thr); R m = 64 * EPS * (orc::len(h) + 1); REQUIRE(std::abs(proj - best) <= m, "projection %g, maximum %Lg", (double)proj, best);
    REQUIRE(idx < get_box_num_features(f), "feature index %zu out of range", idx); size_t nv = get_box_feature_num_vertices(f); std::vector<V> fv; if (f == box_feature::vertex) fv.push_back(tov(sh.get_vertex(idx))); else if (f == box_feature::edge) for (auto &v : sh.get_edge(idx)) fv.push_back(tov(v)); else for (auto &v : sh.get_face(idx)) fv.push_back(tov(v)); REQUIRE(fv.size() == nv);
    bool hasmax = false; for (auto &v : fv) { R p = orc::dot(v, l); REQUIRE(p > best - th - m, "a vertex of the reported feature is %Lg behind the support plane (threshold %g)", best - p, (double)thr); hasmax |= p >= best - m; } REQUIRE(hasmax, "the reported feature does not contain the support vertex");
    // The face in front: exact classification by the number of its vertices within the threshold, unless ambiguous.
    int k = 0; bool amb = false; for (int i = 1; i < 3; ++i) if (std::abs(l[i]) > std::abs(l[k])) k = i; for (int i = 0; i < 3; ++i) if (i != k && std::abs(std::abs(l[i]) - std::abs(l[k])) < 1e-4L) amb = true;
    if (!amb) { R a = 2 * std::abs(l[(k + 1) % 3]) * h[(k + 1) % 3], b = 2 * std::abs(l[(k + 2) % 3]) * h[(k + 2) % 3]; for (R x : {a, b, a + b}) if (std::abs(x - th) < m) amb = true; if (!amb) { int cnt = 1 + (a < th) + (b < th) + (a + b < th); box_feature want = cnt == 1 ? box_feature::vertex : cnt == 4 ? box_feature::face : box_feature::edge; c.nontrivial(cnt > 1); c.label(cnt == 1 ? "vertex" : cnt == 4 ? "face" : cnt == 3 ? "edge of three" : "edge"); REQUIRE(f == want, "feature %d, want %d", (int)f, (int)want); if (cnt == 4) REQUIRE(idx == sh.support_face_index(ld)); 
            box_feature f2{}; size_t i2 = 99; scalar p2 = 0; sh.support_feature(pos, orn, apos, wd, f2, i2, p2, thr); R wm = 128 * EPS * (orc::len(h) + orc::len(tov(pos)) + orc::len(tov(apos)) + 1); bool near_amb = false; for (R x : {a, b, a + b}) if (std::abs(x - th) < wm) near_amb = true; if (!near_amb) REQUIRE(f2 == f && (i2 == idx || a < wm || b < wm || std::abs(a - b) < wm), "world space feature %d/%zu, object space %d/%zu", (int)f2, i2, (int)f, idx); R wp = best + orc::dot(tov(pos) - tov(apos), tov(wd)); REQUIRE(std::abs(p2 - wp) <= wm, "projection on axis %g, want %Lg", (double)p2, wp); box_feature f3{}; size_t i3 = 99; sh.support_feature(pos, orn, wd, f3, i3, thr); REQUIRE(f3 == f2 && i3 == i2); } }
}

PBT(point_cloud, 40000, 800000, "at least four points") {
    size_t n = c.size(1, 20); std::vector<vector3> pts; for (size_t i = 0; i < n; ++i) { pts.push_back(gen::vec(c, 6)); } if (c.boolean()) for (auto &p : pts) { p.x = -std::abs(p.x) - 1; p.y = -std::abs(p.y) - 1; p.z = -std::abs(p.z) - 1; } vector3 d = anydir(c); c.note("n=%zu first=" VF " dir=" VF, n, VA(pts[0]), VA(d)); c.nontrivial(n >= 4);
    R best = -1e30L, mag = 0; for (auto &p : pts) { best = std::max(best, orc::dot(tov(p), tov(d))); mag = std::max(mag, orc::len(tov(p))); } auto q = point_cloud_support_point(pts, d); bool in = false; for (auto &p : pts) in |= p == q; REQUIRE(in, "support point is not in the set"); REQUIRE(near(orc::dot(tov(q), tov(d)), best, mag), "support projects to %Lg, maximum %Lg", orc::dot(tov(q), tov(d)), best); REQUIRE(near(point_cloud_support_projection(pts, d), best, mag)); REQUIRE(near(point_cloud_support_projection(pts.begin(), pts.end(), d), best, mag)); REQUIRE(point_cloud_support_point(pts.begin(), pts.end(), d) == q);
    std::array<vector3, 5> arr; for (auto &a : arr) a = pts[c.draw(n)]; size_t idx = 99; scalar pr = 0; support_point_vertices(arr, d, idx, pr); R b2 = -1e30L; for (auto &a : arr) b2 = std::max(b2, orc::dot(tov(a), tov(d))); REQUIRE(idx < 5 && near(pr, b2, mag) && near(orc::dot(tov(arr[idx]), tov(d)), b2, mag), "index %zu projection %g, maximum %Lg", idx, (double)pr, b2);
    // capsule: hull of two balls
    scalar r = gen::pos(c, 0.05, 3); R want = std::max(orc::dot(tov(arr[0]), tov(d)), orc::dot(tov(arr[1]), tov(d))) + r; REQUIRE(near(capsule_support_projection(arr[0], arr[1], r, d), want, mag + r)); REQUIRE(near(capsule_support_projection(std::array<vector3, 2>{arr[0], arr[1]}, r, d), want, mag + r));
}

// Convex position: points on an ellipsoid with neighbours from a latitude/longitude grid.
PBT(polyhedron_hill_climb, 15000, 300000, "climb takes at least two steps") {
    size_t rings = c.size(1, 6), segs = c.size(3, 9); V ax{(R)gen::pos(c, 0.3, 3), (R)gen::pos(c, 0.3, 3), (R)gen::pos(c, 0.3, 3)}; V o = tov(gen::vec(c, 3)); std::vector<vector3> v; std::vector<std::vector<uint32_t>> nb; auto add = [&](R th, R ph) { V p{std::sin(th) * std::cos(ph) * ax.x, std::cos(th) * ax.y, std::sin(th) * std::sin(ph) * ax.z}; v.push_back(orc::toe(p + o)); };
    add(0, 0); for (size_t i = 1; i <= rings; ++i) for (size_t j = 0; j < segs; ++j) add(orc::PI * i / (rings + 1), 2 * orc::PI * j / segs); add(orc::PI, 0); nb.resize(v.size()); auto id = [&](size_t i, size_t j) { return (uint32_t)(1 + (i - 1) * segs + j % segs); }; uint32_t last = (uint32_t)v.size() - 1; auto edge = [&](uint32_t a, uint32_t b) { nb[a].push_back(b); nb[b].push_back(a); };
    for (size_t j = 0; j < segs; ++j) { edge(0, id(1, j)); edge(last, id(rings, j)); for (size_t i = 1; i <= rings; ++i) { edge(id(i, j), id(i, j + 1)); if (i < rings) edge(id(i, j), id(i + 1, j)); } }
    // relabel so that the climb starts anywhere
    std::vector<uint32_t> perm(v.size()); for (size_t i = 0; i < perm.size(); ++i) perm[i] = (uint32_t)i; for (size_t i = perm.size() - 1; i > 0; --i) std::swap(perm[i], perm[c.draw(i + 1)]); std::vector<vector3> pv(v.size()); std::vector<std::vector<uint32_t>> pn(v.size()); for (size_t i = 0; i < v.size(); ++i) { pv[perm[i]] = v[i]; for (auto x : nb[i]) pn[perm[i]].push_back(perm[x]); }
    std::vector<uint32_t> start{0}, ind; for (auto &l : pn) { for (auto x : l) ind.push_back(x); start.push_back((uint32_t)ind.size()); } vector3 d = anydir(c); c.note("rings=%zu segs=%zu dir=" VF, rings, segs, VA(d)); R best = -1e30L; size_t bi = 0; for (size_t i = 0; i < pv.size(); ++i) { R p = orc::dot(tov(pv[i]), tov(d)); if (p > best) { best = p; bi = i; } } bool adj = bi == 0; for (auto x : pn[0]) adj |= x == bi; c.nontrivial(!adj);
    auto g = polyhedron_support_projection(pv, start, ind, d); REQUIRE(std::abs(g - best) <= 256 * EPS * (orc::len(o) + orc::len(ax)), "hill climbing found %g, maximum %Lg", (double)g, best);
}

PBT(triangle_support, 80000, 2000000, "an edge or the face is within the threshold") {
    triangle_vertices t; vector3 d = anydir(c); for (auto &v : t) v = gen::vec(c, 4); R th = 0.001L + (R)c.unit() * 0.02L; scalar thr = (scalar)th; vector3 ap = gen::vec(c, 4); 
    if (c.chance(2, 3)) { int k = (int)c.draw(2); for (int i = 1; i <= 1 + k; ++i) { V v = tov(t[i]); R off = orc::dot(v - tov(t[0]), tov(d)) - (R)c.uniform(-1.5, 1.5) * th; t[i] = orc::toe(v - tov(d) * off); } if (c.boolean()) std::swap(t[0], t[2]); if (c.boolean()) std::swap(t[1], t[2]); }
    c.note("tri=" VF VF VF " dir=" VF " threshold=%g axis_pos=" VF, VA(t[0]), VA(t[1]), VA(t[2]), VA(d), thr, VA(ap)); R p[3], best = -1e30L, mag = orc::len(tov(ap)); for (int i = 0; i < 3; ++i) { p[i] = orc::dot(tov(t[i]) - tov(ap), tov(d)); best = std::max(best, p[i]); mag += orc::len(tov(t[i])); } R m = 16 * EPS * (mag + 1);
    triangle_feature f{}; size_t idx = 0; scalar pr = 0; get_triangle_support_feature(t, ap, d, f, idx, pr, thr); REQUIRE(std::abs(pr - best) <= m, "projection %g, maximum %Lg", (double)pr, best); REQUIRE(idx < 3 || f == triangle_feature::face, "index out of range"); std::vector<int> fv; if (f == triangle_feature::vertex) fv = {(int)idx}; else if (f == triangle_feature::edge) fv = {(int)idx, (int)(idx + 1) % 3}; else fv = {0, 1, 2};
    REQUIRE(get_triangle_feature_num_vertices(f) == fv.size()); REQUIRE(get_triangle_feature_num_edges(f) == (fv.size() == 1 ? 0u : fv.size() == 2 ? 1u : 3u)); for (int i : fv) REQUIRE(p[i] > best - 2 * th - m, "vertex %d of the feature is %Lg behind (threshold %g)", i, best - p[i], (double)thr);
    bool amb = false; std::vector<int> want; for (int i = 0; i < 3; ++i) { for (int j = 0; j < i; ++j) { R x = std::abs(p[i] - p[j]); if (x > th / 2 && x < th + m) amb = true; } if (best - p[i] < th) want.push_back(i); } if (!amb) { c.nontrivial(want.size() > 1); c.label(want.size() == 1 ? "vertex" : want.size() == 2 ? "edge" : "face"); std::sort(fv.begin(), fv.end()); REQUIRE(fv == want, "feature has %zu vertices, %zu are within the threshold", fv.size(), want.size()); }
    auto q = get_triangle_support_point(t, d); R b = -1e30L; for (auto &v : t) b = std::max(b, orc::dot(tov(v), tov(d))); REQUIRE((q == t[0] || q == t[1] || q == t[2]) && near(orc::dot(tov(q), tov(d)), b, mag)); REQUIRE(near(get_triangle_support_projection(t, d), b, mag));
    auto bb = get_triangle_aabb(t); for (int i = 0; i < 3; ++i) { REQUIRE(bb.min[i] == std::min(t[0][i], std::min(t[1][i], t[2][i])) && bb.max[i] == std::max(t[0][i], std::max(t[1][i], t[2][i])), "bounds"); } auto e = get_triangle_edges(t); for (int i = 0; i < 3; ++i) REQUIRE(near(e[i], tov(t[(i + 1) % 3]) - tov(t[i]), mag));
}
