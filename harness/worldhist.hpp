// Histories of operations over a world, shared by P29 (islands) and P30 (contact pairs). Oracle: exhaustive pair tests and connected components recomputed from the state that the public interface shows.
#pragma once
#include "harness/world.hpp"
#include "edyn/collision/query_aabb.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/util/contact_manifold_util.hpp"
#include "edyn/util/exclude_collision.hpp"
using namespace edyn; using namespace wld; using pbt::Case;
using K = rigidbody_kind;
struct Body { E e; K kind; bool shaped; bool moved = false; };
struct Joint { E e; E a, b; };
struct Filter { uint64_t group = ~0ull, mask = ~0ull; };
struct Hist { World w; std::map<E, Filter> filter; std::set<std::pair<E, E>> excl; bool (*rule)(E, E) = nullptr; std::vector<Body> b; std::vector<Joint> j; std::vector<E> bare; int nb = 0; bool mats = false; std::map<std::pair<int, int>, material_base> mix; };
// Which bodies may collide, as a model: groups against masks both ways, pairs excluded, and the rule of the application.
static bool allowed(const Hist &h, E a, E b) { auto f = [&](E e) { auto it = h.filter.find(e); return it == h.filter.end() ? Filter{} : it->second; }; Filter x = f(a), y = f(b); return a != b && (x.group & y.mask) && (y.group & x.mask) && !h.excl.count(std::minmax(a, b)) && (!h.rule || h.rule(a, b)); }
static bool odd_rule(E a, E b) { return (id(a) * 7 + id(b) * 7) % 3 != 1; }
static bool app_should_collide(const entt::registry &r, E a, E b) { return odd_rule(a, b) && should_collide_default(r, a, b); }
static bool dyn(Hist &h, E e) { return h.w.reg.all_of<procedural_tag>(e); }
static bool asleep(entt::registry &r, E e) { return r.all_of<sleeping_tag>(e); }
static double gap(const AABB &a, const AABB &b) { double g = -1e9; for (size_t i = 0; i < 3; ++i) g = std::max(g, std::max((double)a.min[i] - b.max[i], (double)b.min[i] - a.max[i])); return g; }

static void add_body(Case &c, Hist &h) {
    rigidbody_def d; d.kind = c.draw(5) < 3 ? K::rb_dynamic : c.boolean() ? K::rb_kinematic : K::rb_static; d.position = gen::vec(c, 2.5); d.orientation = gen::orient(c); bool shaped = !c.chance(1, 8);
    if (shaped) d.shape = d.kind == K::rb_static && c.boolean() ? ground(c) : solid(c); else d.inertia = matrix3x3_identity; if (d.kind == K::rb_static && shaped && (std::holds_alternative<plane_shape>(*d.shape) || std::holds_alternative<mesh_shape>(*d.shape))) { d.position = vector3_zero; d.orientation = quaternion_identity; }
    if (d.kind != K::rb_static && c.boolean()) { d.linvel = gen::vec(c, 3); d.angvel = gen::vec(c, 3); } if (c.chance(1, 3)) d.gravity = vector3_zero; if (c.chance(1, 10)) d.material.reset(); d.mass = gen::pos(c, 0.2, 5); d.sleeping_disabled = c.chance(1, 12);
    if (c.chance(1, 5)) { d.collision_group = c.draw(4); d.collision_mask = c.chance(1, 4) ? ~0ull : c.draw(4); if (c.chance(1, 4)) { d.collision_group <<= 40; d.collision_mask <<= 40; } } if (d.material && c.chance(1, 4)) d.material->restitution = (scalar)c.unit();
    if (h.mats && d.material) { d.material->friction = (scalar)c.unit(); if (c.boolean()) d.material->roll_friction = (scalar)(c.unit() * 0.1); if (c.boolean()) d.material->spin_friction = (scalar)(c.unit() * 0.1); if (c.boolean()) d.material->id = (material::id_type)c.draw(3); }
    if (d.kind == K::rb_dynamic && c.chance(1, 8)) d.center_of_mass = gen::vec(c, 0.2);
    E e; if (!h.bare.empty() && c.chance(1, 2)) { e = h.bare.back(); h.bare.pop_back(); make_rigidbody(e, h.w.reg, d); } else e = make_rigidbody(h.w.reg, d); h.filter[e] = {d.collision_group, d.collision_mask}; h.b.push_back({e, d.kind, shaped}); c.note("body %u %s%s", id(e), kname(d.kind), shaped ? "" : " amorphous");
}
static void forget(Hist &h, E e) { h.filter.erase(e); for (auto it = h.excl.begin(); it != h.excl.end();) it = it->first == e || it->second == e ? h.excl.erase(it) : std::next(it); h.b.erase(std::find_if(h.b.begin(), h.b.end(), [&](Body &x) { return x.e == e; })); h.j.erase(std::remove_if(h.j.begin(), h.j.end(), [&](Joint &x) { return x.a == e || x.b == e; }), h.j.end()); }

// State before a step which decides what contact pairs must exist after it.
struct Snap { std::map<E, AABB> box; std::set<E> awake; std::set<std::pair<E, E>> pairs, had; };
static Snap snapshot(Hist &h) { Snap s; auto &r = h.w.reg; for (auto [e, m] : r.view<contact_manifold>().each()) s.had.insert(std::minmax(m.body[0], m.body[1]));
    for (auto &b : h.b) { if (r.all_of<AABB>(b.e)) s.box[b.e] = r.get<AABB>(b.e); if (!asleep(r, b.e)) s.awake.insert(b.e); }
    for (auto &x : h.b) for (auto &y : h.b) if (x.e < y.e && s.box.count(x.e) && s.box.count(y.e)) { bool pa = dyn(h, x.e) && s.awake.count(x.e), pb = dyn(h, y.e) && s.awake.count(y.e); if (!allowed(h, x.e, y.e)) continue; if (!dyn(h, x.e) && !dyn(h, y.e)) continue; double g = gap(s.box[x.e], s.box[y.e]); if ((pa || pb) && g < (double)contact_breaking_threshold - 1e-4) s.pairs.insert({x.e, y.e}); }
    return s; }
static void check_pairs(Case &c, Hist &h, const Snap &s) { auto &r = h.w.reg; std::set<std::pair<E, E>> have; auto &map = r.ctx().get<contact_manifold_map>();
    for (auto [e, m, st] : r.view<contact_manifold, contact_manifold_state>().each()) { auto p = std::minmax(m.body[0], m.body[1]); REQUIRE(have.insert({p.first, p.second}).second, "two manifolds for bodies %u and %u", id(p.first), id(p.second));
        REQUIRE(r.valid(m.body[0]) && r.valid(m.body[1]) && r.all_of<rigidbody_tag>(m.body[0]) && r.all_of<rigidbody_tag>(m.body[1]), "manifold %u refers to a body that is gone", id(e)); REQUIRE(dyn(h, m.body[0]) || dyn(h, m.body[1]), "manifold between bodies %u and %u which do not react", id(m.body[0]), id(m.body[1]));
        REQUIRE(map.contains(m.body[0], m.body[1]) && map.contains(m.body[1], m.body[0]) && map.get(m.body[0], m.body[1]) == e && map.get(m.body[1], m.body[0]) == e, "manifold of bodies %u and %u is not found by pair", id(p.first), id(p.second));
        REQUIRE(s.had.count({p.first, p.second}) || allowed(h, p.first, p.second), "bodies %u and %u may not collide but have a manifold", id(p.first), id(p.second)); c.label_if(!h.excl.empty(), "exclusions");
        size_t n = 0; for (E q = st.contact_entity; q != entt::null; q = r.get<contact_point_list>(q).next) { REQUIRE((r.valid(q) && r.all_of<contact_point, contact_point_list>(q)), "contact point %u of manifold %u is gone", id(q), id(e)); REQUIRE(r.all_of<contact_started_tag>(q), "contact point %u is not marked as started after the step", id(q)); REQUIRE(r.get<contact_point_list>(q).parent == e, "contact point %u has another manifold", id(q)); REQUIRE(++n <= max_contacts, "more than %zu contact points", (size_t)max_contacts); }
        size_t each = 0; contact_manifold_each_point(r, e, [&](E q) { each += r.get<contact_point_list>(q).parent == e; }); REQUIRE(each == n, "%zu of %zu points are visited", each, n); REQUIRE(manifold_exists(r, p.first, p.second) && manifold_exists(r, entity_pair{p.second, p.first}) && get_manifold_entity(r, p.first, p.second) == e && get_manifold_entity(r, entity_pair{p.second, p.first}) == e, "manifold of bodies %u and %u is not found", id(p.first), id(p.second)); REQUIRE(n == st.num_points, "manifold counts %d points but lists %zu", (int)st.num_points, n);
        if (s.box.count(p.first) && s.box.count(p.second) && !asleep(r, e)) { double g = gap(s.box.at(p.first), s.box.at(p.second)); if (s.awake.count(p.first) && s.awake.count(p.second)) REQUIRE(g < 1.5 * contact_breaking_threshold * 1.3, "manifold of bodies %u and %u, %g apart, was not removed", id(p.first), id(p.second), g); }
    }
    for (auto [e, l] : r.view<contact_point_list>().each()) REQUIRE(r.valid(l.parent) && r.all_of<contact_manifold_state>(l.parent), "contact point %u outlives its manifold", id(e));
    for (auto &p : s.pairs) if (r.valid(p.first) && r.valid(p.second)) REQUIRE(have.count(p), "bodies %u and %u touch (gap %g) but there is no manifold", id(p.first), id(p.second), gap(s.box.at(p.first), s.box.at(p.second)));
    for (auto &x : h.b) for (auto &y : h.b) if (x.e < y.e) REQUIRE(map.contains(x.e, y.e) == (have.count({x.e, y.e}) > 0) && manifold_exists(r, y.e, x.e) == (have.count({x.e, y.e}) > 0), "map of manifolds disagrees about bodies %u and %u", id(x.e), id(y.e));
    c.label_if(!have.empty(), "manifolds"); }
static void dump(Hist &h) { if (!getenv("DUMP")) return; auto &r = h.w.reg; for (auto [e, i] : r.view<island>().each()) { fprintf(stderr, "island %u nodes", id(e)); for (E x : i.nodes) fprintf(stderr, " %u", id(x)); fprintf(stderr, " edges"); for (E x : i.edges) fprintf(stderr, " %u", id(x)); fprintf(stderr, "\n"); } for (auto [e, i] : r.view<island_resident>().each()) fprintf(stderr, "%u resides in %u\n", id(e), id(i.island_entity)); for (auto [e, m] : r.view<contact_manifold>().each()) fprintf(stderr, "manifold %u: %u %u\n", id(e), id(m.body[0]), id(m.body[1])); }
static void check_islands(Case &c, Hist &h) { dump(h); auto &r = h.w.reg; std::map<E, E> root; for (auto &b : h.b) if (dyn(h, b.e)) root[b.e] = b.e;
    std::function<E(E)> find = [&](E e) { return root[e] == e ? e : root[e] = find(root[e]); }; struct Edge { E e, a, b; }; std::vector<Edge> edges; for (auto &j : h.j) edges.push_back({j.e, j.a, j.b}); for (auto [e, m] : r.view<contact_manifold>().each()) edges.push_back({e, m.body[0], m.body[1]}); for (auto [e, l] : r.view<contact_point_list>().each()) if (auto *m = r.valid(l.parent) ? r.try_get<contact_manifold>(l.parent) : nullptr) edges.push_back({e, m->body[0], m->body[1]});
    for (auto &x : edges) if (dyn(h, x.a) && dyn(h, x.b)) root[find(x.a)] = find(x.b);
    std::map<E, std::set<E>> nodes, links; for (auto &b : h.b) if (dyn(h, b.e)) nodes[find(b.e)].insert(b.e); for (auto &x : edges) for (E e : {x.a, x.b}) if (dyn(h, e)) { E o = find(e); links[o].insert(x.e); nodes[o].insert(x.a); nodes[o].insert(x.b); }
    std::map<E, E> isle; for (auto &[o, set] : nodes) { E is = entt::null; for (E e : set) if (dyn(h, e)) { REQUIRE(r.all_of<island_resident>(e) && !r.all_of<multi_island_resident>(e), "dynamic body %u is not an island resident", id(e)); E i = r.get<island_resident>(e).island_entity; REQUIRE(i != entt::null && r.valid(i) && r.all_of<island>(i), "dynamic body %u is in no island", id(e)); if (is == entt::null) is = i; REQUIRE(is == i, "connected bodies %u and others are in different islands", id(e)); } isle[o] = is; }
    std::set<E> used; for (auto &[o, i] : isle) { REQUIRE(used.insert(i).second, "unconnected bodies share island %u", id(i)); auto &is = r.get<island>(i); std::set<E> n(is.nodes.begin(), is.nodes.end()), l(is.edges.begin(), is.edges.end());
        for (E e : nodes[o]) REQUIRE(n.count(e), "island %u lacks body %u", id(i), id(e)); for (E e : n) REQUIRE(nodes[o].count(e), "island %u has node %u which is not connected to it", id(i), id(e)); for (E e : links[o]) REQUIRE(l.count(e), "island %u lacks edge %u", id(i), id(e)); for (E e : l) REQUIRE(links[o].count(e), "island %u has edge %u (%s) which does not belong to it", id(i), id(e), !r.valid(e) ? "gone" : r.all_of<contact_manifold>(e) ? "a manifold" : r.all_of<constraint_tag>(e) ? "a constraint" : "neither manifold nor joint");
        bool sl = asleep(r, i); c.label_if(sl, "island asleep"); for (E e : links[o]) { REQUIRE(r.get<island_resident>(e).island_entity == i, "edge %u refers to another island", id(e)); REQUIRE(asleep(r, e) == sl, "edge %u is %s unlike its island", id(e), sl ? "awake" : "asleep"); } for (E e : nodes[o]) if (dyn(h, e)) REQUIRE(asleep(r, e) == sl, "body %u is %s unlike its island", id(e), sl ? "awake" : "asleep");
        if (sl) for (E e : nodes[o]) if (dyn(h, e)) REQUIRE(r.get<linvel>(e) == vector3_zero && r.get<angvel>(e) == vector3_zero, "sleeping body %u moves", id(e)); }
    for (E i : r.view<island>()) REQUIRE(used.count(i), "island %u has no body", id(i));
    for (auto &b : h.b) if (!dyn(h, b.e)) { REQUIRE(r.all_of<multi_island_resident>(b.e) && !r.all_of<island_resident>(b.e), "%s body %u is an island resident", kname(b.kind), id(b.e)); std::set<E> want, got; for (auto &[o, s] : nodes) if (s.count(b.e)) want.insert(isle[o]); auto &m = r.get<multi_island_resident>(b.e); got.insert(m.island_entities.begin(), m.island_entities.end()); REQUIRE(got == want, "%s body %u refers to %zu islands instead of %zu (or to others)", kname(b.kind), id(b.e), got.size(), want.size()); REQUIRE(!asleep(r, b.e), "%s body %u sleeps", kname(b.kind), id(b.e)); }
    c.label_if(isle.size() > 1, "many islands"); for (auto &[o, s] : links) c.label_if(s.size() > 1, "island with edges"); }
static void check_state(Case &c, Hist &h, const std::map<E, std::pair<vector3, quaternion>> &fixed) { auto &r = h.w.reg;
    for (auto &b : h.b) { auto p = r.get<position>(b.e); auto q = r.get<orientation>(b.e); REQUIRE(orc::finite(p) && std::abs((double)length_sqr(q) - 1) < 1e-4, "body %u is at " VF " " QF, id(b.e), VA(p), QA(q)); if (auto *v = r.try_get<linvel>(b.e)) REQUIRE(orc::finite(*v) && orc::finite(r.get<angvel>(b.e)), "velocity of body %u is not finite", id(b.e));
        auto it = fixed.find(b.e); if (it != fixed.end() && b.kind == K::rb_static) REQUIRE(it->second.first == p && (double)length_sqr(it->second.second - q) < 1e-12, "static body %u moved from " VF " " QF " to " VF " " QF, id(b.e), VA(it->second.first), QA(it->second.second), VA(p), QA(q));
        REQUIRE(r.all_of<AABB>(b.e) == b.shaped, "body %u %s bounding box", id(b.e), b.shaped ? "lacks a" : "has a");
        if (b.shaped) { vector3 o = r.all_of<origin>(b.e) ? (vector3)r.get<origin>(b.e) : (vector3)p; if (r.all_of<center_of_mass>(b.e)) { vector3 w = to_world_space(-r.get<center_of_mass>(b.e), p, q); REQUIRE(length(w - o) < 1e-4 * (1 + (double)length(w)), "origin of body %u is at " VF " instead of " VF, id(b.e), VA(o), VA(w)); }
            AABB want; visit_shape(r, b.e, [&](auto &&sh) { want = shape_aabb(sh, o, q); }); auto &got = r.get<AABB>(b.e); double tol = 1e-4 * (1 + (double)length(p)); if (length(want.max - want.min) < 1e6) REQUIRE(length(got.min - want.min) < tol && length(got.max - want.max) < tol, "bounding box of %s body %u is " VF "-" VF " instead of " VF "-" VF, kname(b.kind), id(b.e), VA(got.min), VA(got.max), VA(want.min), VA(want.max)); } } }

// Queries of the whole scene, against all bodies one by one. `fresh`: nothing was changed since the last step.
static void check_queries(Case &c, Hist &h, bool fresh) { auto &r = h.w.reg; int n = (int)c.size(1, 3);
    for (int k = 0; k < n; ++k) { vector3 p0 = gen::vec(c, 4), p1 = gen::vec(c, 4); std::vector<E> skip; if (!h.b.empty() && c.chance(2, 3)) { auto &b = h.b[c.draw(h.b.size())]; if (r.all_of<AABB>(b.e)) { AABB bb = r.get<AABB>(b.e); vector3 m; for (size_t i = 0; i < 3; ++i) { scalar lo = std::max(bb.min[i], (scalar)-50), hi = std::min(bb.max[i], (scalar)50); scalar u = (scalar)c.uniform(0, 1); m[i] = lo + (hi - lo) * u; } vector3 d = gen::dir(c); p0 = m - d * (scalar)c.uniform(0, 4); p1 = m + d * (scalar)c.uniform(0, 4); } }
        if (length(p1 - p0) < 0.01) continue; for (auto &b : h.b) if (c.chance(1, 8)) skip.push_back(b.e);
        auto got = raycast(r, p0, p1, skip); scalar best = EDYN_SCALAR_MAX; E who = entt::null; std::map<E, shape_raycast_result> all;
        for (auto &b : h.b) if (r.all_of<AABB>(b.e) && std::find(skip.begin(), skip.end(), b.e) == skip.end()) { vector3 o = r.all_of<origin>(b.e) ? (vector3)r.get<origin>(b.e) : (vector3)r.get<position>(b.e); quaternion q = r.get<orientation>(b.e); shape_raycast_result x; visit_shape(r, b.e, [&](auto &&sh) { x = shape_raycast(sh, raycast_context{o, q, p0, p1}); }); all[b.e] = x; if (x.fraction < best) { best = x.fraction; who = b.e; } }
        if (got.entity != entt::null) REQUIRE((r.valid(got.entity) && all.count(got.entity)), "ray hits %u which %s", id(got.entity), r.valid(got.entity) ? "is ignored" : "is gone");
        if (fresh) { REQUIRE(got.fraction == best, "ray " VF " to " VF " hits at %.9g, body %u (" VF ") is at %.9g", VA(p0), VA(p1), got.fraction, id(who), VA(who == entt::null ? vector3_zero : (vector3)r.get<position>(who)), best); REQUIRE((got.entity == entt::null) == (who == entt::null)); c.label_if(who != entt::null, "ray hits"); }
        if (got.entity != entt::null) { auto &x = all[got.entity]; REQUIRE(x.fraction == got.fraction && x.normal == got.normal && x.info_var.index() == got.info_var.index(), "ray result is not that of body %u", id(got.entity)); }
        AABB box; vector3 m = (p0 + p1) * (scalar)0.5, e{(scalar)c.uniform(0, 1.5), (scalar)c.uniform(0, 1.5), (scalar)c.uniform(0, 1.5)}; box.min = m - e; box.max = m + e; std::map<E, int> in[3];
        query_procedural_aabb(r, box, [&](E x) { ++in[0][x]; }); query_non_procedural_aabb(r, box, [&](E x) { ++in[1][x]; }); query_island_aabb(r, box, [&](E x) { ++in[2][x]; });
        for (int t = 0; t < 3; ++t) for (auto &[x, times] : in[t]) { REQUIRE(times == 1, "%u is reported %d times", id(x), times); REQUIRE(r.valid(x), "%u is gone", id(x)); bool ok = t == 2 ? r.all_of<island>(x) : r.all_of<AABB>(x) && dyn(h, x) == (t == 0); REQUIRE(ok, "%u is not %s", id(x), t == 2 ? "an island" : t ? "a body which is not dynamic" : "a dynamic body"); if (fresh && t == 0) { double g = gap(r.get<AABB>(x), box); REQUIRE(g <= 30, "%u is reported at a distance of %g", id(x), g); } }
        if (fresh) { for (auto &b : h.b) if (r.all_of<AABB>(b.e) && gap(r.get<AABB>(b.e), box) < -1e-6) { c.label("box hits"); REQUIRE(in[dyn(h, b.e) ? 0 : 1].count(b.e), "body %u is not reported", id(b.e)); } for (auto [x, i, bb] : r.view<island, island_AABB>().each()) { for (E y : i.nodes) if (!asleep(r, x) && dyn(h, y) && r.all_of<AABB>(y)) { auto &yb = r.get<AABB>(y); REQUIRE(gap(yb, box) > -1e-3 || in[2].count(x), "island %u of body %u is not reported", id(x), id(y)); } if (gap(bb, box) < -1e-6) REQUIRE(in[2].count(x), "island %u is not reported", id(x)); } }
    } }

// Coefficients of each contact point, from the materials which the bodies have now or the table of mixtures.
static void check_materials(Case &c, Hist &h) { auto &r = h.w.reg;
    for (auto [e, m, st] : r.view<contact_manifold, contact_manifold_state>().each()) { auto *a = r.try_get<material>(m.body[0]), *b = r.try_get<material>(m.body[1]); int n = 0;
        for (E q = st.contact_entity; q != entt::null && n < 8; q = r.get<contact_point_list>(q).next, ++n) { auto *k = r.try_get<contact_point_material>(q); REQUIRE(!!k == (a && b), "contact point of bodies %u and %u %s a material", id(m.body[0]), id(m.body[1]), k ? "has" : "lacks"); if (!k) continue;
            auto it = h.mix.find(std::minmax((int)a->id, (int)b->id)); bool tab = it != h.mix.end(); c.label(tab ? "from the table" : "mixed");
            auto same = [](double x, double y) { return std::abs(x - y) <= 1e-6 * (1 + std::abs(y)); };
            double f = tab ? (double)it->second.friction : std::sqrt((double)a->friction * b->friction), res = tab ? (double)it->second.restitution : (double)std::min(a->restitution, b->restitution), roll = tab ? (double)it->second.roll_friction : (double)std::max(a->roll_friction, b->roll_friction), spin = tab ? (double)it->second.spin_friction : (double)std::max(a->spin_friction, b->spin_friction);
            REQUIRE(same(k->friction, f), "friction of bodies %u and %u is %.9g instead of %.9g", id(m.body[0]), id(m.body[1]), (double)k->friction, f); REQUIRE(same(k->restitution, res), "restitution of bodies %u and %u is %.9g instead of %.9g", id(m.body[0]), id(m.body[1]), (double)k->restitution, res);
            REQUIRE(same(k->roll_friction, roll) && same(k->spin_friction, spin), "rolling and spinning friction of bodies %u and %u are %.9g, %.9g instead of %.9g, %.9g", id(m.body[0]), id(m.body[1]), (double)k->roll_friction, (double)k->spin_friction, roll, spin); } } }

enum { ISLANDS = 1, PAIRS = 2, STATE = 4, QUERIES = 8, MATERIALS = 16 };
static void history(Case &c, int what) {
    Hist h; auto &r = h.w.reg; bool changed = false, linked = false; int ops = (int)c.size(3, 30); std::map<E, std::pair<vector3, quaternion>> fixed;
    if (what & MATERIALS) { h.mats = true; int k = (int)c.draw(3); for (int x = 0; x < k; ++x) { int i = (int)c.draw(3), j = (int)c.draw(3); material_base m; m.friction = (scalar)c.unit(); m.restitution = (scalar)c.unit(); m.roll_friction = (scalar)(c.unit() * 0.1); c.note("mixture %d %d", i, j); insert_material_mixing(r, (material::id_type)i, (material::id_type)j, m); h.mix[std::minmax(i, j)] = m; } }
    if (c.chance(1, 8)) { c.note("rule of the application"); h.rule = odd_rule; set_should_collide(r, &app_should_collide); } for (int i = 0; i < 2; ++i) add_body(c, h);
    for (int i = 0; i < ops; ++i) {
        int op = (int)c.draw(20); size_t n = h.b.size(); Body *b = n ? &h.b[c.draw(n)] : nullptr;
        if (op < 3 || !b) { if (n < 9) add_body(c, h); }
        else if (op == 3) { c.note("destroy %u", id(b->e)); E e = b->e; if (c.chance(1, 3)) { c.note("(only the components)"); if (r.all_of<collision_exclusion>(e)) clear_collision_exclusion(r, e); clear_rigidbody(r, e); h.bare.push_back(e); } else r.destroy(e); fixed.erase(e); forget(h, e); changed = true; }
        else if (op < 6 && n > 1) { Body &o = h.b[c.draw(n)]; if (&o == b || (b->kind != K::rb_dynamic && o.kind != K::rb_dynamic)) continue; E e; vector3 pa = gen::vec(c, 0.5), pb = gen::vec(c, 0.5); switch (c.draw(4)) { case 0: e = make_constraint<distance_constraint>(r, b->e, o.e, [&](auto &k) { k.pivot = {pa, pb}; k.distance = 1; }); break; case 1: e = make_constraint<point_constraint>(r, b->e, o.e, [&](auto &k) { k.pivot = {pa, pb}; }); break; case 2: e = make_constraint<soft_distance_constraint>(r, b->e, o.e, [&](auto &k) { k.pivot = {pa, pb}; k.distance = 1; k.stiffness = 10; k.damping = 1; }); break; default: e = make_constraint<null_constraint>(r, b->e, o.e); } h.j.push_back({e, b->e, o.e}); c.note("joint %u between %u and %u", id(e), id(b->e), id(o.e)); linked = true; }
        else if (op == 6) { if (h.j.empty()) continue; size_t k = c.draw(h.j.size()); c.note("remove joint %u", id(h.j[k].e)); if (c.boolean()) r.destroy(h.j[k].e); else { c.note("(only the components)"); clear_constraint(r, h.j[k].e); } h.j.erase(h.j.begin() + (long)k); changed = true; }
        else if (op == 7) { K k = (K)c.draw(3); bool ok = true; for (auto &j : h.j) if (j.a == b->e || j.b == b->e) { E o = j.a == b->e ? j.b : j.a; if (k != K::rb_dynamic && !dyn(h, o)) ok = false; } if (!ok || (k != K::rb_static && b->shaped && (r.any_of<plane_shape, mesh_shape>(b->e)))) continue; c.note("make %u %s", id(b->e), kname(k)); if (k == K::rb_dynamic && !r.all_of<mass>(b->e)) { set_rigidbody_mass(r, b->e, 1); set_rigidbody_inertia(r, b->e, matrix3x3_identity); } rigidbody_set_kind(r, b->e, k); b->kind = k; fixed.erase(b->e); changed = true; }
        else if (op == 8) { c.note("reshape %u", id(b->e)); if (c.chance(1, 4)) { rigidbody_set_shape(r, b->e, {}); b->shaped = false; } else { rigidbody_set_shape(r, b->e, solid(c)); b->shaped = true; } changed = true; }
        else if (op == 9) { if (b->kind == K::rb_static) continue; vector3 p = gen::vec(c, 2.5); c.note("move %u to " VF, id(b->e), VA(p)); if (b->kind == K::rb_kinematic) set_kinematic_position(r, b->e, p, (scalar)(1.0 / 60)); else { set_rigidbody_origin(r, b->e, p); wake_up_entity(r, b->e); } b->moved = true; }
        else if (op == 10) { if (b->kind != K::rb_dynamic) continue; vector3 j = gen::vec(c, 3), l = gen::vec(c, 0.3); c.note("push %u", id(b->e)); rigidbody_apply_impulse(r, b->e, j, l); wake_up_entity(r, b->e); }
        else if (op == 11 && n > 1) { Body &o = h.b[c.draw(n)]; if (&o == b) continue; if (c.boolean()) { c.note("exclude %u and %u", id(b->e), id(o.e)); c.boolean() ? exclude_collision(r, b->e, o.e) : exclude_collision(r, entity_pair{b->e, o.e}); h.excl.insert(std::minmax(b->e, o.e)); changed = true; } else if (r.all_of<collision_exclusion>(b->e) && r.all_of<collision_exclusion>(o.e)) { c.note("include %u and %u", id(b->e), id(o.e)); if (c.chance(1, 3)) { c.note("(%u and all)", id(b->e)); clear_collision_exclusion(r, b->e); for (auto it = h.excl.begin(); it != h.excl.end();) it = it->first == b->e || it->second == b->e ? h.excl.erase(it) : std::next(it); } else { remove_collision_exclusion(r, b->e, o.e); h.excl.erase(std::minmax(b->e, o.e)); } } }
        else if (op == 12) { c.note("stop everything"); for (auto &x : h.b) if (x.kind != K::rb_static && r.all_of<linvel>(x.e)) { r.replace<linvel>(x.e, vector3_zero); r.replace<angvel>(x.e, vector3_zero); r.remove<gravity>(x.e); } }
        else if (op >= 13 && op < 17 && (what & MATERIALS)) { if (!r.all_of<material>(b->e)) continue; scalar f = (scalar)c.unit(); c.note("friction of %u is %g", id(b->e), (double)f); set_rigidbody_friction(r, b->e, f); REQUIRE(r.get<material>(b->e).friction == f); changed = true; }
        if (what & MATERIALS) check_materials(c, h);
        if ((what & QUERIES) && c.chance(1, 4) && !h.b.empty()) { auto &f = h.b[c.draw(h.b.size())]; if (f.kind != K::rb_static && r.all_of<linvel>(f.e)) { vector3 v = gen::vec(c, 60); c.note("throw %u at " VF, id(f.e), VA(v)); r.replace<linvel>(f.e, v); wake_up_entity(r, f.e); } }
        int steps = c.chance(1, 3) ? 0 : (int)c.size(1, 3); bool nap = c.chance(1, 8); if (nap) { steps = 4; c.note("rest"); }
        for (int k = 0; k < steps; ++k) { for (auto &x : h.b) if (x.kind == K::rb_static && !fixed.count(x.e)) fixed[x.e] = {r.get<position>(x.e), r.get<orientation>(x.e)}; auto s = snapshot(h); h.w.step(nap ? 1.5 : 1.0 / 60); c.note("step"); for (auto &x : h.b) x.moved = false; linked |= !r.view<contact_manifold>().empty();
            if (what & PAIRS) check_pairs(c, h, s); if (what & MATERIALS) check_materials(c, h); if (what & ISLANDS) check_islands(c, h); if (what & STATE) check_state(c, h, fixed); if (what & QUERIES) check_queries(c, h, true); }
        if ((what & QUERIES) && !steps) check_queries(c, h, false);
    }
    c.nontrivial(linked && changed);
}
