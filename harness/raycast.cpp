// Ray casts against a single shape: first intersection of the segment with the exact solid.
#include "harness/cvx.hpp"
#include "harness/meshgen.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/util/aabb_util.hpp"
using namespace cvx; using pbt::Case; using edyn::scalar; using edyn::raycast_context; using edyn::shape_raycast_result;
using orc::V; using orc::tov; using orc::Q;
struct Hit { bool hit = false, unsure = false, inside = false; R t = 0; V n{}; };
// A line against a set of half spaces n.x <= d (in the space of the shape) and quadrics; tolerance e is a distance.
struct Line { R in = -1e30L, out = 1e30L; V n{}; bool miss = false, unsure = false; };
static void half(Line &l, V p, V d, V n, R c, R e) {
    R a = orc::dot(n, d), b = c - orc::dot(n, p), dl = orc::len(d); if (std::abs(a) < 2e-3L * dl) { if (b < -e - std::abs(a) * 2) l.miss = true; else if (b < e + std::abs(a) * 2) l.unsure = true; if (std::abs(a) > 1e-18L) { R t = b / a; if (a < 0 ? t > -0.5L : t < 1.5L) l.unsure |= !(a < 0 ? t < l.in : t > l.out) ; } return; }
    R t = b / a, te = e / std::abs(a); if (a < 0) { if (std::abs(t - l.in) < 2 * te) l.unsure |= true, l.in = std::max(l.in, t); else if (t > l.in) { l.in = t; l.n = n; } } else l.out = std::min(l.out, t); if (std::abs(l.in - l.out) < 4 * te) l.unsure = true; if (l.in > l.out) l.miss = true;
}
static Line infcyl(V p, V d, V ax, R r, R e) { // infinite cylinder around an axis through the origin
    Line l; V pp = p - ax * orc::dot(p, ax), dd = d - ax * orc::dot(d, ax); R a = orc::len2(dd), b = orc::dot(pp, dd), c = orc::len2(pp) - r * r; if (a < 1e-5L * orc::len2(d)) { if (std::abs(orc::len(pp) - r) < e + 4 * std::sqrt(a)) l.unsure = true; else if (c > 0) l.miss = true; if (a > 0) { R q = b * b - a * c; if (q > 0) { R o = (-b + std::sqrt(q)) / a, i = (-b - std::sqrt(q)) / a; if (o < 1.5L || i > -0.5L) l.unsure = true; } } return l; }
    R m = b * b - a * c, cl = std::sqrt(orc::len2(pp - dd * (b / a))); if (std::abs(cl - r) < 2 * e) l.unsure = true; if (m < 0) { l.miss = true; return l; } R s = std::sqrt(m); l.in = (-b - s) / a; l.out = (-b + s) / a; if (std::sqrt(std::max<R>(0, r * r - cl * cl)) < 0.05L * r) l.unsure = true; V x = pp + dd * l.in; l.n = orc::unit(x); return l;
}
static Line ball(V p, V d, R r, R e) { Line l; R a = orc::len2(d), b = orc::dot(p, d), c = orc::len2(p) - r * r, m = b * b - a * c, cl = orc::len(p - d * (b / a)); if (std::abs(cl - r) < 2 * e) l.unsure = true; if (m < 0) { l.miss = true; return l; } R s = std::sqrt(m); l.in = (-b - s) / a; l.out = (-b + s) / a; if (std::sqrt(std::max<R>(0, r * r - cl * cl)) < 0.05L * r) l.unsure = true; l.n = orc::unit(p + d * l.in); return l; }
static V dv(D d) { return {d.x, d.y, d.z}; }
static Hit expect(const Shape &s, const edyn::vector3 &p0, const edyn::vector3 &p1) {
    Q q = orc::toq(s.q); V p = orc::rot(orc::conj(q), tov(p0) - tov(s.p)), e1 = orc::rot(orc::conj(q), tov(p1) - tov(s.p)), d = e1 - p; R mag = orc::maxabs(tov(p0)) + orc::maxabs(tov(p1)) + orc::maxabs(tov(s.p)) + s.size; R e = 64 * orc::EPS * mag; Line l; V ax = dv(s.ax());
    switch (s.k) {
    case SPHERE: l = ball(p, d, s.r, e); break;
    case BOX: for (int i = 0; i < 3; ++i) { V n{}; n[i] = 1; R h = i == 0 ? s.e.x : i == 1 ? s.e.y : s.e.z; half(l, p, d, n, h, e); half(l, p, d, -n, h, e); } break;
    case POLY: for (size_t i = 0; i < s.fn.size(); ++i) half(l, p, d, dv(s.fn[i]), orc::dot(dv(s.fn[i]), dv(s.v[s.fv[i]])), e * 4); break;
    case CYLINDER: l = infcyl(p, d, ax, s.r, e * 4); if (!l.miss || l.unsure) { half(l, p, d, ax, s.h, e * 4); half(l, p, d, -ax, s.h, e * 4); } break;
    case CAPSULE: { Line a = infcyl(p, d, ax, s.r, e * 4); if (!a.miss) { half(a, p, d, ax, s.h, e * 4); half(a, p, d, -ax, s.h, e * 4); } Line b = ball(p - ax * s.h, d, s.r, e * 4), c = ball(p + ax * s.h, d, s.r, e * 4); l.miss = true; l.in = 1e30L; l.out = -1e30L; for (auto &x : {a, b, c}) if (!x.miss) { l.miss = false; if (x.in < l.in) { l.in = x.in; } l.out = std::max(l.out, x.out); }
        for (auto &x : {a, b, c}) if (x.unsure && (x.miss || x.in < l.in + 0.05L)) l.unsure = true; if (!l.miss) { V x = p + d * l.in; R t = orc::clampr(orc::dot(x, ax), -s.h, s.h); l.n = orc::unit(x - ax * t); } break; }
    default: { V n = dv(s.fn[0]), w = tov(p1) - tov(p0); R a = orc::dot(n, w), b = s.h - orc::dot(n, tov(p0)); if (std::abs(a) < 1e-3L || std::abs(b) < 4 * e || std::abs(b - a) < 4 * e) l.unsure = true; else { l.in = b / a; l.out = 1e30L; l.n = n; } }
    }
    Hit h; h.unsure = l.unsure; R te = e * 8 / orc::len(d); if (!l.miss) { if (std::abs(l.in) < te || std::abs(l.in - 1) < te || std::abs(l.out) < te) h.unsure = true; h.inside = s.k != PLANE && l.in < 0 && l.out > 0; h.hit = l.in >= 0 && l.in <= 1; h.t = l.in; h.n = s.k == PLANE ? l.n : orc::rot(q, l.n); } return h;
}
static void ray(Case &c, const Shape &s, edyn::vector3 &p0, edyn::vector3 &p1) { // from around the shape, aimed at it more often than not
    auto local = [&](double m) { edyn::vector3 v = gen::vec(c, m); return s.k == PLANE ? toe(s.fn[0] * s.h) + v : toe(s.toworld(tod(v))); };
    p0 = local(c.boolean() ? 3 * s.size : 8); if (c.chance(1, 4)) { D a = s.k == PLANE ? s.fn[0] : s.dirw(c.boolean() ? s.ax() : D{0, 1, 0}); p1 = p0 + toe(a) * (scalar)c.uniform(-8, 8); c.label("along an axis"); } else { edyn::vector3 t = local(s.size); scalar k = (scalar)(c.boolean() ? c.uniform(1, 2) : c.uniform(-1, 1.2)); p1 = p0 + (t - p0) * k; }
    if (edyn::distance(p0, p1) < 0.05) c.discard();
}
static Shape placed(Case &c, int k) { Shape s = make(c, k); if (k == PLANE) s.place({0, 0, 0}, edyn::quaternion_identity); else s.place(gen::vec(c, 5), gen::orient(c)); return s; }
static shape_raycast_result cast(const Shape &s, const raycast_context &ctx) { shape_raycast_result r; s.with([&](auto &sh) { r = shape_raycast(sh, ctx); }); return r; }
static void verify(Case &c, const Hit &h, const shape_raycast_result &r, const edyn::vector3 &p0, const edyn::vector3 &p1, R mag) {
    bool got = r.fraction != EDYN_SCALAR_MAX; R L = edyn::distance(p0, p1), te = 2e4L * orc::EPS * mag / L; if (got) { REQUIRE(std::isfinite(r.fraction) && (h.inside || orc::finite(r.normal)), "fraction %g normal " VF, (double)r.fraction, VA(r.normal)); REQUIRE(r.fraction >= 0 && r.fraction <= 1, "fraction %.9g is not within the segment", (double)r.fraction); REQUIRE(h.inside || std::abs(orc::len(tov(r.normal)) - 1) < 1e-3L, "normal " VF " is not a unit vector", VA(r.normal)); }
    if (h.unsure) { c.label("grazing"); return; }
    if (h.inside) { c.label("starts inside"); REQUIRE(got && r.fraction == 0, "segment starts inside but hit=%d at %.9g", (int)got, (double)r.fraction); return; }
    c.nontrivial(h.hit); c.label(h.hit ? "hit" : "miss"); REQUIRE(got == h.hit, "segment hits: %d (line at %.9g), hit reported: %d (at %.9g)", (int)h.hit, (double)h.t, (int)got, (double)r.fraction); if (!h.hit) return;
    REQUIRE(std::abs(r.fraction - h.t) < te * 4, "fraction %.9g, expected %.9g", (double)r.fraction, (double)h.t);
    REQUIRE(orc::len(tov(r.normal) - h.n) < 0.02L, "normal " VF ", expected " VF, VA(r.normal), VA(h.n));
}
static void single(Case &c, int k) {
    Shape s = placed(c, k); raycast_context ctx; ctx.pos = s.p; ctx.orn = s.q; ray(c, s, ctx.p0, ctx.p1); c.note("%s at " VF " q " QF " ray " VF " to " VF, s.desc.c_str(), VA(s.p), QA(s.q), VA(ctx.p0), VA(ctx.p1));
    verify(c, expect(s, ctx.p0, ctx.p1), cast(s, ctx), ctx.p0, ctx.p1, 1 + orc::maxabs(tov(ctx.p0)) + orc::maxabs(tov(ctx.p1)));
}
PBT(ray_sphere_shape, 40000, 1000000, "the segment enters the shape") { single(c, SPHERE); }
PBT(ray_capsule_shape, 40000, 1000000, "the segment enters the shape") { single(c, CAPSULE); }
PBT(ray_cylinder_shape, 40000, 1000000, "the segment enters the shape") { single(c, CYLINDER); }
PBT(ray_box_shape, 40000, 1000000, "the segment enters the shape") { single(c, BOX); }
PBT(ray_polyhedron_shape, 20000, 500000, "the segment enters the shape") { single(c, POLY); }
PBT(ray_plane_shape, 40000, 1000000, "the segment crosses the plane") { single(c, PLANE); }
PBT(ray_compound_shape, 8000, 200000, "the segment enters a child") {
    edyn::compound_shape cs; size_t n = c.size(1, 5); std::vector<Shape> ch; for (size_t i = 0; i < n; ++i) { Shape s = make(c, (int)c.draw(5)); s.place(gen::vec(c, 3), gen::orient(c)); switch (s.k) { case SPHERE: cs.add_shape(s.sphere, s.p, s.q); break; case CAPSULE: cs.add_shape(s.capsule, s.p, s.q); break; case CYLINDER: cs.add_shape(s.cylinder, s.p, s.q); break; case BOX: cs.add_shape(s.box, s.p, s.q); break; default: cs.add_shape(s.poly, s.p, s.q); } ch.push_back(s); } cs.finish();
    raycast_context ctx; ctx.pos = gen::vec(c, 5); ctx.orn = gen::orient(c); Q q = orc::toq(ctx.orn); auto world = [&](edyn::vector3 l) { return orc::toe(orc::rot(q, tov(l)) + tov(ctx.pos)); }; edyn::vector3 l0, l1; ray(c, ch[c.draw(n)], l0, l1); ctx.p0 = world(l0); ctx.p1 = world(l1);
    for (auto &s : ch) c.note("%s at " VF " q " QF "; ", s.desc.c_str(), VA(s.p), QA(s.q)); c.note("compound at " VF " q " QF " ray " VF " to " VF, VA(ctx.pos), QA(ctx.orn), VA(ctx.p0), VA(ctx.p1));
    auto r = shape_raycast(cs, ctx); Hit best; size_t who = 0; bool tie = false; for (size_t i = 0; i < n; ++i) { Hit h = expect(ch[i], l0, l1); if (h.unsure) best.unsure = true; if (h.inside) best.inside = true; if (h.hit) { if (best.hit && std::abs(h.t - best.t) < 1e-3L) tie = true; else if (!best.hit || h.t < best.t) tie = false; if (!best.hit || h.t < best.t) { best.hit = true; best.t = h.t; best.n = orc::rot(q, h.n); who = i; } } }
    if (tie) { c.label("tie"); return; } verify(c, best, r, ctx.p0, ctx.p1, 4 + orc::maxabs(tov(ctx.p0)) + orc::maxabs(tov(ctx.p1)) + orc::maxabs(tov(ctx.pos))); if (best.unsure || best.inside || !best.hit) return;
    REQUIRE(std::holds_alternative<edyn::compound_raycast_info>(r.info_var), "no information about the child"); auto &info = std::get<edyn::compound_raycast_info>(r.info_var); REQUIRE(info.child_index == who, "child %zu was reported but child %zu is hit", info.child_index, who);
}
PBT(ray_features, 40000, 1000000, "the segment enters the shape") { // the feature reported is the one at the intersection
    Shape s = placed(c, c.pick<int>({BOX, CYLINDER, CAPSULE, POLY})); raycast_context ctx; ctx.pos = s.p; ctx.orn = s.q; ray(c, s, ctx.p0, ctx.p1); Hit h = expect(s, ctx.p0, ctx.p1); if (h.unsure || h.inside || !h.hit) return; auto r = cast(s, ctx); if (r.fraction == EDYN_SCALAR_MAX) return; c.nontrivial(); c.note("%s at " VF " q " QF " ray " VF " to " VF, s.desc.c_str(), VA(s.p), QA(s.q), VA(ctx.p0), VA(ctx.p1));
    V x = tov(ctx.p0) + (tov(ctx.p1) - tov(ctx.p0)) * h.t; D xl = s.tolocal({(double)x.x, (double)x.y, (double)x.z});
    if (s.k == BOX) { auto *i = std::get_if<edyn::box_raycast_info>(&r.info_var); REQUIRE(i && i->face_index < 6, "no face"); V n = tov(s.box.get_face_normal(i->face_index, s.q)); REQUIRE(orc::dot(n, h.n) > 0.99L, "face %zu with normal " VF " but the surface normal is " VF, i->face_index, VA(n), VA(h.n)); }
    else if (s.k == POLY) { auto *i = std::get_if<edyn::polyhedron_raycast_info>(&r.info_var); REQUIRE(i && i->face_index < s.poly.mesh->num_faces(), "no face"); V n = orc::rot(orc::toq(s.q), tov(s.poly.mesh->normals[i->face_index])); REQUIRE(orc::dot(n, h.n) > 0.99L, "face %zu with normal " VF " but the surface normal is " VF, i->face_index, VA(n), VA(h.n)); }
    else { double ax = cvx::dot(xl, s.ax()); if (std::abs(std::abs(ax) - s.h) < 1e-3 && s.k == CAPSULE) return;
        if (s.k == CYLINDER) { bool face = std::abs(orc::dot(h.n, tov(toe(s.dirw(s.ax()))))) > 0.99L; auto *i = std::get_if<edyn::cylinder_raycast_info>(&r.info_var); REQUIRE(i && (i->feature == (face ? edyn::cylinder_feature::face : edyn::cylinder_feature::side_edge)), "wrong feature: face is expected=%d", (int)face); if (face) REQUIRE(i->face_index == (ax > 0 ? 0u : 1u), "wrong cap %zu", i->face_index); }
        else { bool hemi = std::abs(ax) > s.h; auto *i = std::get_if<edyn::capsule_raycast_info>(&r.info_var); REQUIRE(i && i->feature == (hemi ? edyn::capsule_feature::hemisphere : edyn::capsule_feature::side), "wrong feature: hemisphere is expected=%d", (int)hemi); if (hemi) REQUIRE(i->hemisphere_index == (ax > 0 ? 0u : 1u), "wrong hemisphere %zu", i->hemisphere_index); } }
}
PBT(ray_mesh_shape, 6000, 150000, "the segment crosses a triangle") {
    auto m = gen::trimesh(c); auto tm = std::make_shared<edyn::triangle_mesh>(); gen::fill(*tm, m); tm->initialize(); edyn::mesh_shape ms; ms.trimesh = tm; size_t nt = m.idx.size() / 3; edyn::vector3 lo = m.v[m.idx[0]], hi = lo; for (auto i : m.idx) { lo = edyn::min(lo, m.v[i]); hi = edyn::max(hi, m.v[i]); }
    raycast_context ctx; ctx.pos = {0, 0, 0}; ctx.orn = edyn::quaternion_identity; size_t k = c.draw(nt); auto tr = [&](size_t t, int j) { return tov(m.v[m.idx[t * 3 + j]]); }; R a = c.uniform(0.05, 0.95), b = c.uniform(0.05, 0.95) * (1 - a); V target = tr(k, 0) * a + tr(k, 1) * b + tr(k, 2) * (1 - a - b); ctx.p0 = orc::toe(target) + gen::vec(c, 6); ctx.p1 = orc::toe(target + (target - tov(ctx.p0)) * (R)c.uniform(-0.8, 1)); if (edyn::distance(ctx.p0, ctx.p1) < 0.1) c.discard();
    c.note("%zu triangles, ray " VF " to " VF, nt, VA(ctx.p0), VA(ctx.p1)); auto r = shape_raycast(ms, ctx); V p = tov(ctx.p0), d = tov(ctx.p1) - p; bool hit = false, unsure = false; R best = 2; std::vector<size_t> who; R mag = 1 + orc::maxabs(p) + orc::maxabs(tov(ctx.p1)), tol = 1e3L * orc::EPS * mag;
    for (size_t t = 0; t < nt; ++t) { V A = tr(t, 0), e1 = tr(t, 1) - A, e2 = tr(t, 2) - A, n = orc::cross(e1, e2); R ar = orc::len(n); if (ar < 1e-3L) { unsure = true; continue; } n = n / ar; R den = orc::dot(n, d); if (std::abs(den) < 0.01L * orc::len(d)) { unsure |= std::abs(orc::dot(n, A - p)) < 0.05L * orc::len(d) + 0.01L; continue; } R q = orc::dot(n, A - p) / den; V x = p + d * q; R m0 = 1e9L; for (int j = 0; j < 3; ++j) { V u = tr(t, j), w = tr(t, (j + 1) % 3); m0 = std::min(m0, orc::dot(orc::cross(n, orc::unit(w - u)), x - u)); } R te = tol / std::abs(den); if (m0 > -tol * 40 && q > -te && q < 1 + te) { if (m0 < tol * 40 || q < te || q > 1 - te) unsure = true; if (hit && std::abs(q - best) < 4 * te + 1e-3L) { unsure = true; } if (q < best) { best = q; hit = true; who = {t}; } } }
    bool got = r.fraction != EDYN_SCALAR_MAX; if (got) REQUIRE(r.fraction >= 0 && r.fraction <= 1, "fraction %.9g is not within the segment", (double)r.fraction); if (unsure) { c.label("grazing"); return; } c.nontrivial(hit); c.label(hit ? "hit" : "miss"); REQUIRE(got == hit, "segment hits: %d (at %.9g), hit reported: %d (at %.9g)", (int)hit, (double)best, (int)got, (double)r.fraction); if (!hit) return; REQUIRE(std::abs(r.fraction - best) < 1e-3L, "fraction %.9g, expected %.9g", (double)r.fraction, (double)best);
    auto *i = std::get_if<edyn::mesh_raycast_info>(&r.info_var); REQUIRE(i && i->triangle_index < nt, "no triangle"); auto gv = tm->get_triangle_vertices(i->triangle_index); for (int j = 0; j < 3; ++j) { bool f = false; for (int l = 0; l < 3; ++l) f |= gv[j] == m.v[m.idx[who[0] * 3 + l]]; REQUIRE(f, "a different triangle was reported"); }
    V n = orc::unit(orc::cross(tr(who[0], 1) - tr(who[0], 0), tr(who[0], 2) - tr(who[0], 0))); REQUIRE(orc::len(n - tov(r.normal)) < 0.01L, "normal " VF " expected " VF, VA(r.normal), VA(n));
}
