// P26: bounding boxes and moments of inertia. Oracle: support extents and integrals over slices and tetrahedra, in extended precision.
#include "harness/cvx.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/dynamics/moment_of_inertia.hpp"
#include "edyn/math/shape_volume.hpp"
#include <array>
using namespace edyn; using cvx::Shape; using pbt::Case; using cvx::D; using orc::R; using orc::V; using orc::tov; using orc::EPS; using orc::PI; using orc::M;

static R slack(const Shape &s) { return s.k == cvx::CYLINDER ? 2.5L * std::sqrt(EPS) * s.r : 0; } // cylinders nearly along a direction have their support point at the center of the cap
static D unitd(int i) { return {i == 0 ? 1. : 0., i == 1 ? 1. : 0., i == 2 ? 1. : 0.}; }
static void same_box(Case &c, const AABB &g, V lo, V hi, R mag, const char *what, R extra = 0) { for (int i = 0; i < 3; ++i) REQUIRE(std::abs(g.min[i] - lo[i]) <= 40 * EPS * mag + extra && std::abs(g.max[i] - hi[i]) <= 40 * EPS * mag + extra, "%s: on axis %d got %.9g to %.9g, expected %.9g to %.9g", what, i, (double)g.min[i], (double)g.max[i], (double)lo[i], (double)hi[i]); }
static compound_shape compound(Case &c, std::vector<Shape> &ch) { compound_shape cp; size_t n = c.size(1, 5); for (size_t i = 0; i < n; ++i) { ch.push_back(cvx::make(c, (int)c.draw(5))); auto &s = ch.back(); s.place(gen::vec(c, 5), gen::orient(c)); s.with([&](auto &sh) { if constexpr (!std::is_same_v<std::decay_t<decltype(sh)>, plane_shape>) cp.add_shape(sh, s.p, s.q); }); } return cp; }

PBT(convex_aabb, 40000, 1000000, "shape is not aligned with the axes") {
    Shape s = cvx::make(c, (int)c.draw(5)); s.place(gen::vec(c, 20), gen::orient(c)); c.note("%s at " VF " q " QF, s.desc.c_str(), VA(s.p), QA(s.q)); c.label(cvx::name(s.k)); c.nontrivial(s.k != cvx::SPHERE && std::abs(s.q.w) < 0.999f); AABB g, w; s.with([&](auto &sh) { g = shape_aabb(sh, s.p, s.q); w = shape_aabb(shapes_variant_t{sh}, s.p, s.q); });
    V lo, hi; for (int i = 0; i < 3; ++i) { lo[i] = s.lo(unitd(i)); hi[i] = s.hi(unitd(i)); } R mag = s.size * 2 + orc::maxabs(tov(s.p)); same_box(c, g, lo, hi, mag, "box of shape", slack(s)); REQUIRE(g.min == w.min && g.max == w.max, "box of variant differs");
    if (s.k == cvx::POLY) { AABB l = point_cloud_aabb(s.poly.mesh->vertices), it = point_cloud_aabb(s.poly.mesh->vertices.begin(), s.poly.mesh->vertices.end()); V a{1e30L, 1e30L, 1e30L}, b = -a; for (auto &x : s.v) for (int i = 0; i < 3; ++i) { R v = i == 0 ? x.x : i == 1 ? x.y : x.z; a[i] = std::min(a[i], v); b[i] = std::max(b[i], v); } same_box(c, l, a, b, mag, "box of points"); same_box(c, it, a, b, mag, "box of a range of points"); }
}
PBT(plane_aabb_encloses, 20000, 300000, "point is near the surface of the plane") {
    plane_shape p; p.normal = c.boolean() ? gen::dir(c) : vector3{0, 0, 0}; if (p.normal == vector3_zero) { int i = (int)c.draw(3); p.normal[(size_t)i] = c.boolean() ? 1 : -1; c.label("along an axis"); } p.constant = gen::s(c, 100); vector3 x = gen::vec(c, c.boolean() ? 10 : 10000); scalar over = dot(x, p.normal) - p.constant; R xm = orc::maxabs(tov(x)); if (over > 0) x = x - p.normal * (over + (scalar)c.uniform(0, 1)); c.note("plane " VF " %g point " VF, VA(p.normal), (double)p.constant, VA(x)); c.nontrivial(over > 0);
    AABB b = shape_aabb(p, vector3_zero, quaternion_identity); scalar e = (scalar)(32 * EPS * (1 + xm + std::abs(p.constant))); AABB g{b.min - vector3{e, e, e}, b.max + vector3{e, e, e}}; REQUIRE(g.contains(x), "point below the plane is outside of box " VF " to " VF, VA(b.min), VA(b.max));
}
PBT(compound_aabb, 15000, 300000, "two or more children") {
    std::vector<Shape> ch; compound_shape cp = compound(c, ch); cp.finish(); vector3 p = gen::vec(c, 10); quaternion q = gen::orient(c); c.nontrivial(ch.size() > 1); c.note("%zu children at " VF " q " QF " first %s", ch.size(), VA(p), QA(q), ch[0].desc.c_str()); AABB g = shape_aabb(cp, p, q); R mag = 30 + orc::maxabs(tov(p)), e = 60 * EPS * mag; auto Qd = orc::toq(q); V lo{1e30L, 1e30L, 1e30L}, hi = -lo;
    REQUIRE(cp.nodes.size() == ch.size(), "number of nodes");
    for (size_t k = 0; k < ch.size(); ++k) { auto &s = ch[k]; V cl, chh; for (int i = 0; i < 3; ++i) { cl[i] = s.lo(unitd(i)); chh[i] = s.hi(unitd(i)); } same_box(c, cp.nodes[k].aabb, cl, chh, 20, "box of a child", slack(s)); // exact extents of the child must be enclosed; extents of its rotated box not exceeded
        for (int i = 0; i < 3; ++i) { V ax{}; ax[i] = 1; V al = orc::rot(orc::conj(Qd), ax); D n{(double)al.x, (double)al.y, (double)al.z}; R a = s.lo(n) + p[i], b = s.hi(n) + p[i]; REQUIRE(g.min[i] <= a + e + 3 * slack(s) && g.max[i] >= b - e - 3 * slack(s), "child %zu reaches %.9g to %.9g on axis %d, out of the box", k, (double)a, (double)b, i); R x0 = 0, x1 = 0; for (int j = 0; j < 3; ++j) { R u = al[j] * cl[j], v = al[j] * chh[j]; x0 += std::min(u, v); x1 += std::max(u, v); } lo[i] = std::min(lo[i], x0 + p[i]); hi[i] = std::max(hi[i], x1 + p[i]); } }
    for (int i = 0; i < 3; ++i) REQUIRE(g.min[i] >= lo[i] - e && g.max[i] <= hi[i] + e, "box from %.9g to %.9g on axis %d is larger than the boxes of the children, %.9g to %.9g", (double)g.min[i], (double)g.max[i], i, (double)lo[i], (double)hi[i]);
    // The tree of children finds each child whose box is touched.
    AABB probe; vector3 a = gen::vec(c, 6), h{gen::pos(c, 0.01, 4), gen::pos(c, 0.01, 4), gen::pos(c, 0.01, 4)}; probe = {a - h, a + h}; std::vector<int> seen(ch.size()), want(ch.size()); cp.visit(probe, [&](auto &, size_t k) { REQUIRE(k < ch.size(), "child %zu does not exist", k); ++seen[k]; }); for (size_t k = 0; k < ch.size(); ++k) { want[k] = intersect(cp.nodes[k].aabb, probe); REQUIRE(seen[k] == want[k], "child %zu visited %d times, expected %d", k, seen[k], want[k]); }
}
PBT(aabb_transforms, 40000, 1000000, "rotated about a general axis") {
    vector3 a = gen::vec(c), h{gen::pos(c, 0.01, 5), gen::pos(c, 0.01, 5), gen::pos(c, 0.01, 5)}, p = gen::vec(c); quaternion q = gen::orient(c); AABB b{a - h, a + h}; c.note("box " VF " to " VF " at " VF " q " QF, VA(b.min), VA(b.max), VA(p), QA(q)); c.nontrivial(q.x * q.y * q.z != 0); auto Qd = orc::toq(q); R mag = 60;
    V lo{1e30L, 1e30L, 1e30L}, hi = -lo, lo2 = lo, hi2 = hi; for (int i = 0; i < 8; ++i) { V k{(R)(i & 1 ? b.max.x : b.min.x), (R)(i & 2 ? b.max.y : b.min.y), (R)(i & 4 ? b.max.z : b.min.z)}; V w = orc::rot(Qd, k) + tov(p), o = orc::rot(orc::conj(Qd), k - tov(p)); for (int j = 0; j < 3; ++j) { lo[j] = std::min(lo[j], w[j]); hi[j] = std::max(hi[j], w[j]); lo2[j] = std::min(lo2[j], o[j]); hi2[j] = std::max(hi2[j], o[j]); } }
    same_box(c, aabb_to_world_space(b, p, q), lo, hi, mag, "to world space"); same_box(c, aabb_to_object_space(b, p, q), lo2, hi2, mag, "to object space");
    // Set operations on boxes.
    vector3 a2 = gen::vec(c), h2{gen::pos(c, 0.01, 8), gen::pos(c, 0.01, 8), gen::pos(c, 0.01, 8)}; AABB d{a2 - h2, a2 + h2}; bool in = true, sub = true, pin = true; for (size_t i = 0; i < 3; ++i) { in &= b.min[i] <= d.max[i] && d.min[i] <= b.max[i]; sub &= d.min[i] <= b.min[i] && b.max[i] <= d.max[i]; pin &= d.min[i] <= a[i] && a[i] <= d.max[i]; }
    REQUIRE(intersect(b, d) == in && intersect(d, b) == in, "intersect(" VF " " VF ", " VF " " VF ") is not %d", VA(b.min), VA(b.max), VA(d.min), VA(d.max), (int)in); REQUIRE(d.contains(b) == sub, "contains box"); REQUIRE(d.contains(a) == pin, "contains point"); AABB u = enclosing_aabb(b, d); for (size_t i = 0; i < 3; ++i) REQUIRE(u.min[i] == std::min(b.min[i], d.min[i]) && u.max[i] == std::max(b.max[i], d.max[i]), "enclosing box on axis %zu", i);
    V sz = tov(b.max) - tov(b.min); REQUIRE(orc::near(b.size(), sz, 30) && orc::near(b.center(), (tov(b.max) + tov(b.min)) / 2, 30), "size or center"); REQUIRE(orc::near(b.area(), 2 * (sz.x * sz.y + sz.y * sz.z + sz.z * sz.x), 30 * orc::maxabs(sz) * 6), "area"); AABB ins = b.inset(h2); REQUIRE(orc::near(ins.min, tov(b.min) + tov(h2), 30) && orc::near(ins.max, tov(b.max) - tov(h2), 30), "inset");
}

// Inertia of solids of revolution, from discs: radius as a function of position along the axis.
template<typename F> static void revolve(F rad2, R x0, R x1, R &vol, R &ax, R &tr) { // Gauss-Legendre, exact for polynomials of degree 9
    static const R n[5] = {0, 0.5384693101056830910363144L, -0.5384693101056830910363144L, 0.9061798459386639927976269L, -0.9061798459386639927976269L}, w[5] = {0.5688888888888888888888889L, 0.4786286704993664680412915L, 0.4786286704993664680412915L, 0.2369268850561890875142640L, 0.2369268850561890875142640L};
    for (int i = 0; i < 5; ++i) { R x = (x0 + x1) / 2 + (x1 - x0) / 2 * n[i], r2 = rad2(x), k = w[i] * (x1 - x0) / 2 * PI; vol += k * r2; ax += k * r2 * r2 / 2; tr += k * (r2 * r2 / 4 + r2 * x * x); }
}
static V placed(int axis, R ax, R tr) { V v{tr, tr, tr}; v[axis] = ax; return v; }
static M tetra_inertia(const std::vector<V> &v, const std::vector<std::vector<uint32_t>> &f, R mass, R &bound) { // about the origin
    R vol = 0, S[3][3] = {}; bound = 0; for (auto &x : f) for (size_t j = 1; j + 1 < x.size(); ++j) { V a = v[x[0]], b = v[x[j]], d = v[x[j + 1]]; R t = orc::dot(a, orc::cross(b, d)) / 6; vol += t; bound += std::abs(t) + orc::len(a) * orc::len(b) * orc::len(d) / 6; V s = a + b + d; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) S[p][q] += t / 20 * (a[p] * a[q] + b[p] * b[q] + d[p] * d[q] + s[p] * s[q]); }
    R k = mass / vol; bound /= vol; R tr = S[0][0] + S[1][1] + S[2][2]; M m; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) m.r[p][q] = k * ((p == q ? tr : 0) - S[p][q]); return m;
}
static M of(const Shape &s, const std::vector<std::vector<uint32_t>> *faces, R mass, R &bound) {
    bound = 1; V d{}; switch (s.k) {
    case cvx::BOX: { V e{2 * (R)s.e.x, 2 * (R)s.e.y, 2 * (R)s.e.z}; d = V{e.y * e.y + e.z * e.z, e.z * e.z + e.x * e.x, e.x * e.x + e.y * e.y} * (mass / 12); break; }
    case cvx::POLY: { std::vector<V> v; for (auto &x : s.v) v.push_back({x.x, x.y, x.z}); return tetra_inertia(v, *faces, mass, bound); }
    default: { R r = s.r, h = s.k == cvx::SPHERE ? 0 : s.h, vol = 0, ax = 0, tr = 0; if (s.k != cvx::SPHERE) revolve([&](R) { return r * r; }, -h, h, vol, ax, tr); if (s.k != cvx::CYLINDER) { revolve([&](R x) { return r * r - (x - h) * (x - h); }, h, h + r, vol, ax, tr); revolve([&](R x) { return r * r - (x + h) * (x + h); }, -h - r, -h, vol, ax, tr); } d = placed(s.axis, ax, tr) * (mass / vol); } }
    M m; for (int i = 0; i < 3; ++i) m.r[i][i] = d[i]; return m;
}
static void same_tensor(Case &c, const matrix3x3 &g, const M &w, R tol, const char *what) { R n = 0; for (int i = 0; i < 3; ++i) n = std::max(n, orc::maxabs(w.r[i])); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) REQUIRE(std::abs(g[i][j] - w.r[i][(int)j]) <= tol * n, "%s: element %zu,%zu is %.9g, expected %.9g", what, i, j, (double)g[i][j], (double)w.r[i][(int)j]); }
static std::vector<std::vector<uint32_t>> faces_of(const Shape &s) { std::vector<std::vector<uint32_t>> f; if (s.k == cvx::POLY) { auto &m = *s.poly.mesh; for (size_t i = 0; i + 1 < m.faces.size(); i += 2) { f.emplace_back(); for (size_t j = 0; j < m.faces[i + 1]; ++j) f.back().push_back(m.indices[m.faces[i] + j]); } } return f; }
static void plausible(Case &c, const matrix3x3 &m) { R d[3] = {m[0][0], m[1][1], m[2][2]}, t = 1e-3L * (d[0] + d[1] + d[2]); for (size_t i = 0; i < 3; ++i) { REQUIRE(d[i] > 0, "moment about axis %zu is %.9g", i, (double)d[i]); REQUIRE(d[i] <= d[(i + 1) % 3] + d[(i + 2) % 3] + t, "moment about axis %zu is greater than the sum of the others", i); for (size_t j = 0; j < 3; ++j) REQUIRE(m[i][j] == m[j][i], "tensor is not symmetric"); } }

PBT(shape_inertia, 40000, 1000000, "moments about the axes differ") {
    Shape s = cvx::make(c, (int)c.draw(5)); scalar m = gen::pos(c, 0.01, 1000); c.note("%s mass %g", s.desc.c_str(), (double)m); c.label(cvx::name(s.k)); matrix3x3 g, w; s.with([&](auto &sh) { g = moment_of_inertia(sh, m); w = moment_of_inertia(shapes_variant_t{sh}, m); }); c.nontrivial(g[0][0] != g[1][1] || g[1][1] != g[2][2]);
    auto f = faces_of(s); R b; M want = of(s, &f, m, b); if (b > 1e4L) return; same_tensor(c, g, want, 60 * EPS * b, "inertia"); plausible(c, g); for (size_t i = 0; i < 3; ++i) REQUIRE(g[i] == w[i], "inertia of variant differs");
}
PBT(hollow_inertia, 20000, 300000, "walls of general thickness") {
    scalar m = gen::pos(c, 0.01, 100), l = gen::pos(c, 0.01, 10), ro = gen::pos(c, 0.1, 5), ri = ro * (scalar)(c.boolean() ? c.uniform(0, 1) : c.boolean() ? 0 : 1); int a = (int)c.draw(3); c.note("mass %g length %g radii %g %g axis %d", (double)m, (double)l, (double)ri, (double)ro, a); c.nontrivial(ri > 0 && ri < ro);
    // The limit of outer minus inner solid; closed form of shells otherwise.
    R vo = 0, ao = 0, to = 0, vi = 0, ai = 0, ti = 0; R h = (R)l / 2; revolve([&](R) { return (R)ro * ro; }, -h, h, vo, ao, to); revolve([&](R) { return (R)ri * ri; }, -h, h, vi, ai, ti); V want; if (vo - vi > 1e-6L * vo) want = placed(a, ao - ai, to - ti) * (m / (vo - vi)); else want = placed(a, (R)m * ro * ro, m * ((R)ro * ro / 2 + (R)l * l / 12));
    vector3 g = moment_of_inertia_hollow_cylinder(m, l, ri, ro, (coordinate_axis)a); REQUIRE(orc::len(tov(g) - want) <= 1e-4L * orc::len(want), "hollow cylinder " VF " expected " VF, VA(g), VA(want)); REQUIRE(orc::near(moment_of_inertia_hollow_sphere(m, ro), (R)m * ro * ro * 2 / 3, 0), "hollow sphere"); REQUIRE(orc::near(moment_of_inertia_solid_sphere(m, ro), (R)m * ro * ro * 2 / 5, 0), "solid sphere");
}
static M shifted(const M &i, R m, V d) { M o = i; R dd = orc::len2(d); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) o.r[a][b] += m * ((a == b ? dd : 0) - d[a] * d[b]); return o; }
static M rotated(const M &i, orc::Q q) { M o; V col[3]; for (int a = 0; a < 3; ++a) { V e{}; e[a] = 1; col[a] = orc::rot(q, i * orc::rot(orc::conj(q), e)); } for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) o.r[a][b] = col[b][a]; return o; }
PBT(compound_inertia, 20000, 400000, "two or more children off the center") {
    std::vector<Shape> ch; compound_shape cp = compound(c, ch); cp.finish(); scalar m = gen::pos(c, 0.01, 100); c.nontrivial(ch.size() > 1); c.note("%zu children, first %s at " VF " q " QF " mass %g", ch.size(), ch[0].desc.c_str(), VA(ch[0].p), QA(ch[0].q), (double)m); std::vector<R> vol; R tot = 0, b = 1;
    for (auto &s : ch) { R v; if (s.k == cvx::POLY) { v = 0; for (auto &f : faces_of(s)) for (size_t j = 1; j + 1 < f.size(); ++j) { D x = s.v[f[0]], y = s.v[f[j]], z = s.v[f[j + 1]]; v += cvx::dot(x, cvx::cross(y, z)) / 6; } } else if (s.k == cvx::BOX) v = 8 * (R)s.e.x * s.e.y * s.e.z; else v = (s.k == cvx::SPHERE ? 0 : 2 * PI * s.r * s.r * s.h) + (s.k == cvx::CYLINDER ? 0 : PI * s.r * s.r * s.r * 4 / 3); vol.push_back(v); tot += v; }
    M want; for (size_t k = 0; k < ch.size(); ++k) { auto f = faces_of(ch[k]); R bk, mk = m * vol[k] / tot; M i = of(ch[k], &f, mk, bk); b = std::max(b, bk); i = shifted(rotated(i, orc::toq(ch[k].q)), mk, tov(ch[k].p)); for (int a = 0; a < 3; ++a) want.r[a] = want.r[a] + i.r[a]; } if (b > 1e4L) return;
    matrix3x3 g = moment_of_inertia(cp, m); same_tensor(c, g, want, 100 * EPS * b, "inertia of compound"); plausible(c, g);
}
PBT(shift_inertia, 20000, 300000, "offset is not along an axis") {
    matrix3x3 i = diagonal_matrix(vector3{gen::pos(c), gen::pos(c), gen::pos(c)}); i[0][1] = i[1][0] = gen::s(c, 0.1); scalar m = gen::pos(c, 0.01, 100); vector3 d = gen::vec(c, 5); c.note("mass %g offset " VF, (double)m, VA(d)); c.nontrivial(d.x * d.y * d.z != 0); M w; for (size_t a = 0; a < 3; ++a) w.r[a] = tov(i[a]); same_tensor(c, shift_moment_of_inertia(i, m, d), shifted(w, m, tov(d)), 32 * EPS, "shifted inertia");
}
