// P08: convex polygons in the plane. Oracle: long double half-plane tests and point-segment distances.
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/util/shape_util.hpp"
#include <set>
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::EPS;
struct P2 { R x, y; }; static P2 t2(const vector2 &v) { return {(R)v.x, (R)v.y}; } static R crs(P2 a, P2 b, P2 p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); } static R dst(P2 a, P2 b) { return std::hypot(a.x - b.x, a.y - b.y); }
static R segd(P2 a, P2 b, P2 p, P2 &q) { R l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = l > 0 ? orc::clampr(((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l, 0, 1) : 0; q = {a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t}; return dst(p, q); }
// Convex polygon, counter-clockwise, of 3..8 vertices: distinct angles on an ellipse, moved; or an acute sliver triangle.
static std::vector<vector2> convex(pbt::Case &c) { std::vector<vector2> v; if (c.chance(1, 3)) { R w = c.uniform(0.05, 1), h = c.uniform(1, 4), a = c.uniform(0, 6.2831853); P2 t[3] = {{-w, 0}, {w, 0}, {(R)c.uniform(-1, 1), h}}; P2 o{(R)c.real(3), (R)c.real(3)}; for (auto &p : t) v.push_back({(scalar)(o.x + p.x * std::cos(a) - p.y * std::sin(a)), (scalar)(o.y + p.x * std::sin(a) + p.y * std::cos(a))}); size_t k = c.draw(3); std::rotate(v.begin(), v.begin() + k, v.end()); return v; }
    size_t n = c.size(3, 8); R st = c.uniform(0, 6.2831853), rx = c.uniform(0.5, 4), ry = c.uniform(0.5, 4); P2 o{(R)c.real(3), (R)c.real(3)}; std::vector<R> w; R sum = 0; for (size_t i = 0; i < n; ++i) { w.push_back((R)c.uniform(0.3, 1)); sum += w.back(); } R a = st; for (size_t i = 0; i < n; ++i) { v.push_back({(scalar)(o.x + rx * std::cos(a)), (scalar)(o.y + ry * std::sin(a))}); a += 2 * orc::PI * w[i] / sum; } return v; }
static vector2 query(pbt::Case &c, const std::vector<vector2> &v) { size_t n = v.size(), i = c.draw(n); P2 a = t2(v[i]), b = t2(v[(i + 1) % n]); switch (c.draw(4)) { case 0: return gen::vec2(c, 6); case 1: { P2 m{0, 0}; for (auto &p : v) { m.x += p.x / (R)n; m.y += p.y / (R)n; } R s = c.uniform(0, 1.6); return {(scalar)(m.x + (a.x - m.x) * s), (scalar)(m.y + (a.y - m.y) * s)}; } case 2: { R t = c.uniform(-0.3, 1.3), o = c.uniform(-1, 1), l = dst(a, b); return {(scalar)(a.x + (b.x - a.x) * t + (b.y - a.y) / l * o), (scalar)(a.y + (b.y - a.y) * t - (b.x - a.x) / l * o)}; } default: { R an = c.uniform(0, 6.2831853), o = c.uniform(0, 2); return {(scalar)(a.x + std::cos(an) * o), (scalar)(a.y + std::sin(an) * o)}; } } }
static const char *show(const std::vector<vector2> &v) { static std::string s; s.clear(); for (auto &p : v) { char b[64]; snprintf(b, sizeof b, "(%.9g,%.9g)", (double)p.x, (double)p.y); s += b; } return s.c_str(); }

PBT(inside_polygon, 80000, 2000000, "query point within 1 unit of the boundary") {
    auto v = convex(c); auto p = query(c, v); c.note("poly=%s p=(%.9g,%.9g)", show(v), p.x, p.y); R depth = 1e30L; size_t n = v.size(); for (size_t i = 0; i < n; ++i) { P2 a = t2(v[i]), b = t2(v[(i + 1) % n]); depth = std::min(depth, crs(a, b, t2(p)) / dst(a, b)); } c.nontrivial(std::abs(depth) < 1); R m = 256 * EPS; if (std::abs(depth) < m * 8) return; c.label(depth > 0 ? "inside" : "outside"); REQUIRE(point_inside_convex_polygon(v, p) == (depth > 0), "reported %d, depth %Lg", (int)point_inside_convex_polygon(v, p), depth);
    // The same polygon as the base of a prism in space.
    auto orn = gen::orient(c); vector3 pos = gen::vec(c, 4); auto W = [&](vector2 q, R y) { return orc::toe(tov(pos) + orc::rot(orc::toq(orn), {(R)q.x, y, -(R)q.y})); }; vector3 nrm = orc::toe(orc::rot(orc::toq(orn), {0, 1, 0})); std::vector<vector3> w; for (auto &q : v) w.push_back(W(q, 0)); R up = c.real(5); vector3 pt = W(p, up); R wm = 4 * EPS / 0.05L + 64 * EPS * 20 * (1 + std::abs(up)); if (std::abs(depth) < wm * 4) return; std::vector<vector3> sh; std::vector<size_t> idx(n); size_t rot = c.draw(n); for (size_t i = 0; i < n; ++i) { sh.push_back(w[(i + rot) % n]); } for (size_t i = 0; i < n; ++i) idx[i] = (i + n - rot) % n; bool g = point_in_polygonal_prism(sh, idx, nrm, pt); REQUIRE(g == (depth > 0), "prism: reported %d, depth %Lg", (int)g, depth);
    if (n == 4) { REQUIRE(point_in_polygonal_prism(std::array<vector3, 4>{w[0], w[1], w[2], w[3]}, nrm, pt) == (depth > 0), "prism over four vertices"); } if (n == 3) { REQUIRE(point_in_polygonal_prism(std::array<vector3, 3>{w[0], w[1], w[2]}, nrm, pt) == (depth > 0), "prism over three vertices"); REQUIRE(point_in_triangle({w[0], w[1], w[2]}, nrm, pt) == (depth > 0), "point in triangle"); REQUIRE(point_in_triangle({w[0], w[2], w[1]}, nrm, pt) == (depth > 0), "point in triangle of the other winding"); REQUIRE(point_in_triangle({w[0], w[1], w[2]}, -nrm, pt) == (depth > 0)); }
}

PBT(closest_on_polygon, 80000, 2000000, "point outside, closest to a vertex or an edge") {
    auto v = convex(c); auto p = query(c, v); size_t n = v.size(), rot = c.draw(n); std::vector<vector2> pool(v.size() + 2, vector2{99, 99}); std::vector<size_t> idx(n); for (size_t i = 0; i < n; ++i) { size_t at = (i * 1 + rot) % n + 1; pool[at] = v[i]; idx[i] = at; } c.note("poly=%s p=(%.9g,%.9g)", show(v), p.x, p.y);
    R depth = 1e30L, best = 1e30L; bool atv = false; for (size_t i = 0; i < n; ++i) { P2 a = t2(v[i]), b = t2(v[(i + 1) % n]), q; depth = std::min(depth, crs(a, b, t2(p)) / dst(a, b)); R d = segd(a, b, t2(p), q); if (d < best) { best = d; atv = dst(q, a) < 1e-9L || dst(q, b) < 1e-9L; } } R m = 512 * EPS; if (std::abs(depth) < m) return; vector2 cl{77, 77}; bool g = closest_point_convex_polygon(pool, idx, p, cl); support_polygon sp; sp.plane_vertices = pool; sp.hull = idx; vector2 cl2{77, 77}; REQUIRE(closest_point_polygon(sp, p, cl2) == g); REQUIRE(g == (depth < 0), "reported %s, depth %Lg", g ? "outside" : "inside", depth); if (!g) { c.label("inside"); return; } c.nontrivial(); c.label(atv ? "vertex region" : "edge region"); REQUIRE(cl2.x == cl.x && cl2.y == cl.y);
    R off = 1e30L; for (size_t i = 0; i < n; ++i) { P2 q; off = std::min(off, segd(t2(v[i]), t2(v[(i + 1) % n]), t2(cl), q)); } REQUIRE(off <= 64 * EPS * 10, "result (%g,%g) is %Lg off the boundary", (double)cl.x, (double)cl.y, off); REQUIRE(dst(t2(cl), t2(p)) <= best + 256 * EPS * 10, "result is %Lg away, the closest point of the boundary is %Lg away", dst(t2(cl), t2(p)), best);
}

PBT(winding, 60000, 1000000, "triangle is not degenerate") {
    vector2 a = gen::vec2(c, 5), b = gen::vec2(c, 5), d = gen::vec2(c, 5); c.note("(%g,%g)(%g,%g)(%g,%g)", a.x, a.y, b.x, b.y, d.x, d.y); R s = crs(t2(a), t2(b), t2(d)), m = 64 * EPS * 100; if (std::abs(s) < m) return; c.nontrivial(); REQUIRE(is_triangle_ccw(a, b, d) == (s > 0)); REQUIRE(is_triangle_ccw(b, a, d) == (s < 0)); auto x = a, y = b, z = d; bool sw = sort_triangle_ccw(x, y, z); REQUIRE(sw == (s < 0), "swapped %d, signed area %Lg", (int)sw, s / 2); REQUIRE(crs(t2(x), t2(y), t2(z)) > 0, "not counter-clockwise after sorting"); std::multiset<std::pair<scalar, scalar>> A{{a.x, a.y}, {b.x, b.y}, {d.x, d.y}}, B{{x.x, x.y}, {y.x, y.y}, {z.x, z.y}}; REQUIRE(A == B, "vertices changed");
}

static void check_hull(pbt::Case &c, const std::vector<vector2> &pts, const std::vector<size_t> &hull, R tol, R mag) {
    size_t n = pts.size(); REQUIRE(!hull.empty() && hull.size() <= n, "hull of %zu points has %zu", n, hull.size()); std::set<size_t> u(hull.begin(), hull.end()); REQUIRE(u.size() == hull.size(), "hull repeats a vertex"); for (auto i : hull) REQUIRE(i < n, "index out of range"); R noise = 64 * EPS * (mag + 1) * (mag + 1);
    if (hull.size() >= 3) { R area = 0; for (size_t i = 0; i < hull.size(); ++i) { P2 a = t2(pts[hull[i]]), b = t2(pts[hull[(i + 1) % hull.size()]]), d = t2(pts[hull[(i + 2) % hull.size()]]); area += a.x * b.y - a.y * b.x; REQUIRE(crs(a, b, d) >= -noise, "hull is not convex at vertex %zu: turn %Lg", i, crs(a, b, d)); } REQUIRE(area >= -noise * 4, "hull is clockwise: area %Lg", area / 2);
        for (size_t i = 0; i < hull.size(); ++i) { P2 a = t2(pts[hull[i]]), b = t2(pts[hull[(i + 1) % hull.size()]]); R L = dst(a, b); for (auto &p : pts) REQUIRE(crs(a, b, t2(p)) >= -(tol * std::max<R>(1, L) + noise), "a point lies %Lg outside hull edge %zu", -crs(a, b, t2(p)) / L, i); } }
    else { P2 a = t2(pts[hull[0]]), b = t2(pts[hull.back()]); R L = dst(a, b); for (auto &p : pts) { P2 q; R d = segd(a, b, t2(p), q); REQUIRE(d * std::max<R>(L, tol) <= 2 * tol * std::max<R>(1, L) + noise * 2 + (n <= 3 ? tol : 0) || d <= 2 * tol, "a point lies %Lg from the hull, which is a segment of length %Lg", d, L); } }
}

PBT(convex_hull, 60000, 1500000, "at least five points, hull of three or more") {
    size_t n = c.size(1, 16); std::vector<vector2> pts; int kind = (int)c.draw(5); P2 o{(R)c.real(4), (R)c.real(4)}; R an = c.uniform(0, 6.2831853); vector2 seg = gen::vec2(c, 4); for (size_t i = 0; i < n; ++i) switch (kind) { case 0: pts.push_back({(scalar)c.integer(-4, 4) / 2, (scalar)c.integer(-4, 4) / 2}); break; case 1: { R t = c.real(3); pts.push_back({(scalar)(o.x + std::cos(an) * t), (scalar)(o.y + std::sin(an) * t)}); break; } case 2: { R t = an + c.uniform(0, 6.2831853); pts.push_back({(scalar)(o.x + 2 * std::cos(t)), (scalar)(o.y + 3 * std::sin(t))}); break; } case 3: pts.push_back({(scalar)o.x, (scalar)c.real(3)}); break; default: pts.push_back(gen::vec2(c, 5)); }
    scalar tol = c.chance(1, 4) ? (scalar)c.uniform(1e-4, 0.02) : (scalar)0.001; c.note("points=%s tolerance=%g", show(pts), tol); R mag = 0; for (auto &p : pts) mag = std::max(mag, std::max<R>(std::abs(p.x), std::abs(p.y))); R ex = 0; for (auto &a : pts) ex = std::max(ex, dst(t2(a), t2(pts[0]))); if (n > 1 && ex < 2 * tol) c.discard(); auto hull = calculate_convex_hull(pts, tol); c.nontrivial(n >= 5 && hull.size() >= 3); c.label(kind == 1 ? "collinear" : kind == 3 ? "vertical" : "general");
    if (n == 2) { REQUIRE(hull.size() == 2); return; } if (n == 3) { REQUIRE(hull.size() == 3); R s = crs(t2(pts[hull[0]]), t2(pts[hull[1]]), t2(pts[hull[2]])); REQUIRE(s >= -64 * EPS * (1 + mag) * (1 + mag), "triangle is clockwise"); return; } check_hull(c, pts, hull, (R)tol, mag);
    // No corner of the true hull may be missing by more than the tolerance (covered above); the hull must have at least its distinct extreme points when well spread.
}

PBT(support_polygon_of_cloud, 40000, 800000, "support polygon has three or more vertices") {
    // A face of k vertices on a tilted plane plus points behind it.
    auto base = convex(c); auto orn = gen::orient(c); V n = orc::rot(orc::toq(orn), {0, 1, 0}), o = tov(gen::vec(c, 3)); std::vector<V> pts; size_t nf = c.size(1, base.size()); bool pos_side = c.boolean(); R tol = 0.005L; for (size_t i = 0; i < nf; ++i) pts.push_back(o + orc::rot(orc::toq(orn), {(R)base[i].x, -(R)c.uniform(0, 0.4) * tol, (R)base[i].y})); size_t nb = c.size(0, 6); for (size_t i = 0; i < nb; ++i) pts.push_back(o + orc::rot(orc::toq(orn), {(R)c.real(3), -(tol * 2 + (R)c.uniform(0, 4)), (R)c.real(3)})); for (size_t i = pts.size() - 1; i > 0; --i) std::swap(pts[i], pts[c.draw(i + 1)]);
    vector3 offset = c.boolean() ? gen::vec(c, 3) : vector3_zero; std::vector<vector3> in; for (auto &p : pts) in.push_back(orc::toe(p - tov(offset))); vector3 dir = orc::toe(pos_side ? -n : n); V D = tov(dir); R proj = pos_side ? 1e30L : -1e30L; for (auto &p : in) { R x = orc::dot(tov(p) + tov(offset), D); proj = pos_side ? std::min(proj, x) : std::max(proj, x); } scalar pr = (scalar)proj; c.note("face=%zu behind=%zu side=%d dir=" VF " offset=" VF, nf, nb, (int)pos_side, VA(dir), VA(offset));
    auto sp = point_cloud_support_polygon(in.begin(), in.end(), offset, dir, pr, pos_side, (scalar)tol); c.nontrivial(nf >= 3); REQUIRE(sp.vertices.size() == nf && sp.plane_vertices.size() == nf, "%zu vertices within the tolerance, reported %zu", nf, sp.vertices.size()); R m = 64 * EPS * 40; for (auto &v : sp.vertices) { bool found = false; for (auto &p : in) if (orc::dist(tov(p) + tov(offset), tov(v)) < m) found = true; REQUIRE(found, "vertex " VF " is not a vertex of the cloud", VA(v)); R x = orc::dot(tov(v), D); REQUIRE(pos_side ? x < proj + tol + m : x > proj - tol - m, "vertex beyond the tolerance"); }
    REQUIRE(orc::dist(tov(sp.origin), D * proj) < m, "origin"); for (size_t i = 0; i < nf; ++i) { V back = tov(to_world_space(to_vector3_xz(sp.plane_vertices[i]), sp.origin, sp.basis)); V want = tov(sp.vertices[i]) - D * (orc::dot(tov(sp.vertices[i]), D) - proj); REQUIRE(orc::dist(back, want) < m * 4, "plane coordinates of vertex %zu do not map back to it", i); } if (nf >= 4) check_hull(c, sp.plane_vertices, sp.hull, 0.001L, 8); else REQUIRE(sp.hull.size() == nf, "hull of %zu vertices has %zu", nf, sp.hull.size());
}
