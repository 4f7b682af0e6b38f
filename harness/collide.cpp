// Contact points of pairs of convex shapes against the reference separation.
#include "harness/cvx.hpp"
#include "edyn/collision/collide.hpp"
#include "edyn/util/aabb_util.hpp"
using namespace cvx; using pbt::Case; using edyn::scalar; using edyn::collision_result;
static collision_result run(const Shape &a, const Shape &b, scalar thr) {
    collision_result res; edyn::collision_context ctx; ctx.posA = a.p; ctx.ornA = a.q; ctx.posB = b.p; ctx.ornB = b.q; ctx.threshold = thr;
    a.with([&](auto &sa) { b.with([&](auto &sb) {
        ctx.aabbA = edyn::shape_aabb(sa, a.p, a.q); ctx.aabbB = edyn::shape_aabb(sb, b.p, b.q);
        edyn::collide(sa, sb, ctx, res); }); });
    return res;
}
static edyn::quaternion qmul(const edyn::quaternion &a, const edyn::quaternion &b) { Q r = orc::toq(a) * orc::toq(b); R l = orc::len(r); return {(scalar)(r.x / l), (scalar)(r.y / l), (scalar)(r.z / l), (scalar)(r.w / l)}; }
static void pose(Case &c, Shape &a, Shape &b, scalar thr) {
    // B anywhere, A next to it: aligned, tilted slightly, or free; gap along a direction from deep to beyond the threshold.
    if (a.k == PLANE) { std::swap(a, b); pose(c, a, b, thr); std::swap(a, b); return; }
    if (b.k == PLANE) b.place({0, 0, 0}, edyn::quaternion_identity);
    else b.place(gen::vec(c, 5), gen::orient(c));
    edyn::quaternion qa;
    switch (c.draw(4)) { case 0: { qa = b.q; for (int i = 0; i < 2; ++i) { edyn::quaternion t{0, 0, 0, 1}; static const scalar h = (scalar)std::sqrt(0.5); int ax = (int)c.draw(4); if (ax < 3) { t.w = h; (ax == 0 ? t.x : ax == 1 ? t.y : t.z) = h; } qa = qmul(qa, t); } c.label("aligned"); if (c.boolean()) { auto d = gen::dir(c); double an = c.boolean() ? 0.02 : 0.0005; edyn::quaternion t{(scalar)(d.x * an), (scalar)(d.y * an), (scalar)(d.z * an), (scalar)std::sqrt(1 - an * an)}; qa = qmul(qa, t); } break; }
    default: qa = gen::orient(c); }
    a.place({0, 0, 0}, qa);
    double sz = std::min(a.size, b.k == PLANE ? a.size : b.size);
    double gap = c.chance(1, 3) ? c.uniform(-2, 2) * thr : c.chance(1, 4) ? c.uniform(-1, 0) * sz : c.uniform(-0.2, 0.02) * sz;
    D u = b.k == PLANE ? b.fn[0] : unit(tod(gen::dir(c))); if (c.boolean() && b.fn.size() && b.k != PLANE) u = b.dirw(b.fn[c.draw(b.fn.size())]) * (c.boolean() ? 1 : -1); else if (c.chance(1, 4) && b.k != PLANE) { u = b.dirw(b.ax()); }
    D lat = tod(gen::vec(c, 1)) * (c.boolean() ? 0.5 * b.size : std::max(a.size, b.size)); lat = lat - u * dot(lat, u);
    double bh = b.k == PLANE ? b.h : b.hi(u); double al = a.lo(u);
    a.place(toe(u * (bh + gap - al) + (b.k == PLANE ? D{0, 0, 0} : lat + (b.pos - u * dot(b.pos, u)))), qa);
    c.note("A: %s at " VF " q " QF "; B: %s at " VF " q " QF "; threshold %g", a.desc.c_str(), VA(a.p), QA(a.q), b.desc.c_str(), VA(b.p), QA(b.q), (double)thr);
}

// Greatest separation over all directions and the direction attaining it; planes are half spaces.
static double separation(const Shape &a, const Shape &b, D &dir, const std::vector<D> &ex) { if (b.k == PLANE) { dir = b.fn[0]; return a.lo(dir) - b.h; } if (a.k == PLANE) { dir = -a.fn[0]; return b.lo(a.fn[0]) - a.h; } return best_sep(a, b, dir, ex); }
static double sepdir(const Shape &a, const Shape &b, D n) { if (b.k == PLANE) return dot(n, b.fn[0]) > 0.999 ? a.lo(n) - b.h : -1e9; if (a.k == PLANE) return dot(n, a.fn[0]) < -0.999 ? b.lo(-n) - a.h : -1e9; return sep(a, b, n); }
constexpr double FT = 0.005; // features are recognised within this distance

static bool robust_miss(const Shape &a0, const Shape &b, scalar thr) { // missing also in most perturbed placements
    uint64_t st = 0x9E3779B97F4A7C15ull; auto rnd = [&] { return (double)(pbt::splitmix(st) >> 11) / 9007199254740992.0 * 2 - 1; }; int miss = 0, n = 12;
    for (int i = 0; i < n; ++i) { Shape a = a0; Shape bb = b; Shape &m = a.k == PLANE ? bb : a; Shape &o = a.k == PLANE ? a : bb; double f = 0.03; D t = D{rnd(), rnd(), rnd()} * (f * std::max(m.size, o.k == PLANE ? m.size : o.size)); edyn::quaternion q{(scalar)(rnd() * f), (scalar)(rnd() * f), (scalar)(rnd() * f), 1}; m.place(m.p + toe(t), qmul(m.q, q)); if (run(a, bb, thr).num_points == 0) ++miss; }
    return miss >= 9;
}
static bool mirrored(edyn::contact_normal_attachment a, edyn::contact_normal_attachment b) { using T = edyn::contact_normal_attachment; return b == (a == T::normal_on_A ? T::normal_on_B : a == T::normal_on_B ? T::normal_on_A : T::none); }
static void contacts(Case &c, int ka, int kb) {
    scalar thr = (scalar)(c.boolean() ? 0.02 : 0.04); Shape a = make(c, ka), b = make(c, kb); pose(c, a, b, thr); auto res = run(a, b, thr); std::vector<D> ex; for (size_t i = 0; i < res.num_points && i < edyn::max_contacts; ++i) ex.push_back(tod(res.point[i].normal));
    REQUIRE(res.num_points <= edyn::max_contacts, "%zu points", res.num_points);
    for (size_t i = 0; i < res.num_points; ++i) { auto &p = res.point[i]; REQUIRE(orc::finite(p.normal) && orc::finite(p.pivotA) && orc::finite(p.pivotB) && std::isfinite(p.distance), "point %zu is not finite: normal " VF " pivots " VF " " VF " distance %g", i, VA(p.normal), VA(p.pivotA), VA(p.pivotB), (double)p.distance); }
    // Spheres, capsules and planes are exact; boxes and polyhedra are exact up to feature recognition; cylinders (but against spheres and planes) and spheres against polyhedra are approximate.
    auto is = [&](int x) { return ka == x || kb == x; }; bool plane = is(PLANE), approx = (is(CYLINDER) && !plane && !is(SPHERE)) || (is(SPHERE) && is(POLY)), exact = plane || (!is(BOX) && !is(POLY) && !approx), flat = a.flat() || b.flat();
    { auto rs = run(b, a, thr); REQUIRE(rs.num_points == res.num_points || ka == kb, "%zu points but %zu after exchanging the shapes", res.num_points, rs.num_points); // overloads with exchanged shapes mirror each other
      if (ka != kb) for (size_t i = 0; i < res.num_points; ++i) { auto &p = res.point[i], &q = rs.point[i]; double e = 1e-3 * (1 + std::max(len(tod(p.pivotA)), len(tod(p.pivotB)))); REQUIRE(len(tod(p.pivotA) - tod(q.pivotB)) < e && len(tod(p.pivotB) - tod(q.pivotA)) < e && len(tod(p.normal) + tod(q.normal)) < 1e-3 && std::abs(p.distance - q.distance) < e && mirrored(p.normal_attachment, q.normal_attachment), "point %zu is not mirrored when exchanging the shapes", i); } }
    D dir; double d = separation(a, b, dir, ex), sz = std::max(a.k == PLANE ? 0 : a.size, b.k == PLANE ? 0 : b.size), mag = 1 + sz + len(a.pos) + len(b.pos) + (b.k == PLANE ? std::abs(b.h) : 0) + (a.k == PLANE ? std::abs(a.h) : 0), eps = 200 * (double)orc::EPS * mag; // rounding
    bool hit = res.num_points > 0; c.nontrivial(hit); c.label_if(hit && d < 0, "penetrating"); c.label_if(hit && d >= 0, "near"); c.label(std::string("points ") + char('0' + res.num_points));
    bool cc = ka == CYLINDER && kb == CYLINDER, sp = is(SPHERE) && is(POLY); c.label_if(flat, "nearly coplanar faces");
    double etol = cc || (is(CYLINDER) && is(POLY)) ? 0.25 * sz : approx ? 0.12 * sz : exact ? eps + 1e-3 * (ka == CAPSULE && kb == CAPSULE) : FT + eps + (is(POLY) ? 0.02 * sz : 0) + 0.5 * std::max(d, 0.), ptol = exact ? FT + eps : FT + eps + 0.08 * sz;
    bool shallow = plane || (exact && d > -0.9 * (radius(a) + radius(b))) || d > -0.5 * std::min(inradius(a), inradius(b)); c.label_if(hit && !shallow, "deep");
    if (shallow) {
        if (!hit && !approx && d < (exact ? (double)thr - eps : -0.1 * sz) && !flat) REQUIRE(!robust_miss(a, b, thr), "no contact though the shapes are %.9g apart (also when perturbed)", d);
        if (d > thr + etol) REQUIRE(!hit, "contact though the shapes are %.9g apart", d);
    }
    if (!hit) return; double md = 1e9;
    for (size_t i = 0; i < res.num_points; ++i) { auto &p = res.point[i]; D n = tod(p.normal); md = std::min(md, (double)p.distance);
        REQUIRE(std::abs(len(n) - 1) < 20 * (double)orc::EPS, "normal " VF " is not a unit vector", VA(p.normal));
        double s = sepdir(a, b, n); if (shallow && !sp) REQUIRE(d - s < etol, "along normal " VF " of point %zu the separation is %.9g, but the best is %.9g along " VF, VA(p.normal), i, s, d, dir.x, dir.y, dir.z);
        D pa = a.toworld(tod(p.pivotA)), pb = b.toworld(tod(p.pivotB)); double pd = dot(pa - pb, n); REQUIRE(std::abs(pd - p.distance) < (exact ? etol : 2 * FT + eps), "distance of point %zu is %.9g, but its pivots are %.9g apart", i, (double)p.distance, pd);
        double lat = len((pa - pb) - n * pd); if (shallow && (!approx || sp)) REQUIRE(lat < (is(POLY) ? FT + eps + 0.2 * sz : ptol), "the pivots of point %zu are %.9g apart across the normal: they are not the same place", i, lat);
        if ((!approx || sp) && shallow && !flat) for (int w = 0; w < 2; ++w) { auto &sh = w ? b : a; double sd = sh.sdf(tod(w ? p.pivotB : p.pivotA)); REQUIRE(sd < ptol && (sd > -ptol || (plane && is(CAPSULE))), "pivot %c of point %zu is %.9g off the surface", "AB"[w], i, sd); }
    }
    if (shallow) REQUIRE(md > d - etol - FT && (sp || md < d + etol + FT), "smallest distance reported is %.9g but the shapes are %.9g apart", md, d);
}
#define PAIR(n, ka, kb) PBT(n, 2500, 100000, "a contact was reported") { contacts(c, ka, kb); }
PAIR(sphere_sphere, SPHERE, SPHERE)
PAIR(sphere_capsule, SPHERE, CAPSULE)
PAIR(sphere_cylinder, SPHERE, CYLINDER)
PAIR(sphere_box, SPHERE, BOX)
PAIR(sphere_polyhedron, SPHERE, POLY)
PAIR(sphere_plane, SPHERE, PLANE)
PAIR(capsule_sphere, CAPSULE, SPHERE)
PAIR(capsule_capsule, CAPSULE, CAPSULE)
PAIR(capsule_cylinder, CAPSULE, CYLINDER)
PAIR(capsule_box, CAPSULE, BOX)
PAIR(capsule_polyhedron, CAPSULE, POLY)
PAIR(capsule_plane, CAPSULE, PLANE)
PAIR(cylinder_sphere, CYLINDER, SPHERE)
PAIR(cylinder_capsule, CYLINDER, CAPSULE)
PAIR(cylinder_cylinder, CYLINDER, CYLINDER)
PAIR(cylinder_box, CYLINDER, BOX)
PAIR(cylinder_polyhedron, CYLINDER, POLY)
PAIR(cylinder_plane, CYLINDER, PLANE)
PAIR(box_sphere, BOX, SPHERE)
PAIR(box_capsule, BOX, CAPSULE)
PAIR(box_cylinder, BOX, CYLINDER)
PAIR(box_box, BOX, BOX)
PAIR(box_polyhedron, BOX, POLY)
PAIR(box_plane, BOX, PLANE)
PAIR(polyhedron_sphere, POLY, SPHERE)
PAIR(polyhedron_capsule, POLY, CAPSULE)
PAIR(polyhedron_cylinder, POLY, CYLINDER)
PAIR(polyhedron_box, POLY, BOX)
PAIR(polyhedron_polyhedron, POLY, POLY)
PAIR(polyhedron_plane, POLY, PLANE)
PAIR(plane_sphere, PLANE, SPHERE)
PAIR(plane_capsule, PLANE, CAPSULE)
PAIR(plane_cylinder, PLANE, CYLINDER)
PAIR(plane_box, PLANE, BOX)
PAIR(plane_polyhedron, PLANE, POLY)
