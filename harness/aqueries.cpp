// P34, asynchronous mode: each request is answered once, with what a search of all bodies one by one finds.
#include "harness/asyncworld.hpp"
using namespace edyn; using namespace asy; using pbt::Case; using K = rigidbody_kind;
struct Ray { vector3 p0, p1; std::vector<E> skip; int answers = 0; raycast_result res; bool fresh; bool echo = true; };
struct Box { AABB box; int kind; bool want[3]; int answers = 0; query_aabb_result res; bool fresh; };
struct Inbox { std::map<unsigned, Ray> rays; std::map<unsigned, Box> boxes; int unknown = 0;
    void ray(raycast_id_type i, const raycast_result &x, vector3 p0, vector3 p1) { auto it = rays.find(i); if (it == rays.end()) { ++unknown; return; } auto &r = it->second; ++r.answers; r.res = x; r.echo = p0 == r.p0 && p1 == r.p1; }
    void box(query_aabb_id_type i, const query_aabb_result &x) { auto it = boxes.find(i); if (it == boxes.end()) { ++unknown; return; } ++it->second.answers; it->second.res = x; } };
static double gap(const AABB &a, const AABB &b) { double g = -1e30; for (size_t i = 0; i < 3; ++i) g = std::max({g, (double)(a.min[i] - b.max[i]), (double)(b.min[i] - a.max[i])}); return g; }
static void ask(Case &c, Async &a, Inbox &in, std::map<E, uint64_t> &b, bool fresh) {
    auto any = [&] { auto it = b.begin(); std::advance(it, (long)c.draw(b.size())); return it->first; };
    vector3 p0 = gen::vec(c, 4), p1 = gen::vec(c, 4); if (!b.empty() && c.chance(2, 3)) { vector3 m = a.reg.get<position>(any()) + gen::vec(c, 0.4), d = gen::dir(c); p0 = m - d * (scalar)c.uniform(0, 4); p1 = m + d * (scalar)c.uniform(0, 4); } if (length(p1 - p0) < 0.01) return;
    if (c.chance(2, 3)) { Ray r{p0, p1, {}, 0, {}, fresh}; for (auto &[e, t] : b) if (c.chance(1, 8)) r.skip.push_back(e); auto i = raycast_async(a.reg, p0, p1, entt::delegate<void(raycast_id_type, const raycast_result &, vector3, vector3)>{entt::connect_arg<&Inbox::ray>, in}, r.skip); REQUIRE(in.rays.emplace(i, r).second, "request id %u is used twice", i); c.note("ray %u", i); }
    else { Box q{}; vector3 m = (p0 + p1) * (scalar)0.5, e{(scalar)c.uniform(0, 1.5), (scalar)c.uniform(0, 1.5), (scalar)c.uniform(0, 1.5)}; q.box = {m - e, m + e}; q.kind = (int)c.draw(2); for (auto &w : q.want) w = q.kind || !c.chance(1, 4); q.fresh = fresh; entt::delegate<void(query_aabb_id_type, const query_aabb_result &)> d{entt::connect_arg<&Inbox::box>, in}; auto i = q.kind ? query_aabb_of_interest_async(a.reg, q.box, d) : query_aabb_async(a.reg, q.box, d, q.want[0], q.want[1], q.want[2]); REQUIRE(in.boxes.emplace(i, q).second, "request id %u is used twice", i); c.note("box %u%s", i, q.kind ? " of interest" : ""); } }

static void check(Case &c, Async &a, Inbox &in, std::map<E, uint64_t> &b) {
    auto &m = a.reg; auto &w = *a.g.reg; std::map<uint64_t, E> far; for (auto [e, f] : w.view<marker>().each()) far[f.id] = e; std::map<E, E> to, back; for (auto &[e, t] : b) { to[e] = far.at(t); back[far.at(t)] = e; }
    REQUIRE(in.unknown == 0, "answer to no request");
    for (auto &[i, r] : in.rays) { REQUIRE(r.answers == 1, "ray %u is answered %d times", i, r.answers); REQUIRE(r.echo, "ray %u is answered for another ray", i); if (r.res.entity != entt::null) { REQUIRE(std::find(r.skip.begin(), r.skip.end(), r.res.entity) == r.skip.end(), "ray %u hits %u which is ignored", i, id(r.res.entity)); }
        if (!r.fresh) continue; scalar best = EDYN_SCALAR_MAX; std::map<E, scalar> all; for (auto &[e, f] : to) if (w.all_of<AABB>(f) && std::find(r.skip.begin(), r.skip.end(), e) == r.skip.end()) { vector3 o = w.all_of<origin>(f) ? (vector3)w.get<origin>(f) : (vector3)w.get<position>(f); quaternion q = w.get<orientation>(f); shape_raycast_result x; visit_shape(w, f, [&](auto &&sh) { x = shape_raycast(sh, raycast_context{o, q, r.p0, r.p1}); }); all[e] = x.fraction; best = std::min(best, x.fraction); }
        REQUIRE(r.res.fraction == best, "ray %u " VF " to " VF " hits at %.9g instead of %.9g", i, VA(r.p0), VA(r.p1), r.res.fraction, best); if (best < EDYN_SCALAR_MAX) { c.label("ray hits"); REQUIRE((all.count(r.res.entity) && all[r.res.entity] == best), "ray %u hits %u", i, id(r.res.entity)); } else REQUIRE((r.res.entity == entt::null), "ray %u hits %u at no point", i, id(r.res.entity)); }
    for (auto &[i, q] : in.boxes) { REQUIRE(q.answers == 1, "box %u is answered %d times", i, q.answers); std::vector<E> *l[3] = {&q.res.procedural_entities, &q.res.non_procedural_entities, &q.res.island_entities}; std::set<E> got[3]; for (int k = 0; k < 3; ++k) { for (E e : *l[k]) REQUIRE(got[k].insert(e).second, "box %u is answered with %u twice", i, id(e)); REQUIRE(q.want[k] || got[k].empty(), "box %u is answered with what was not asked", i); }
        if (!q.fresh) continue; for (int k = 0; k < 3; ++k) for (E e : got[k]) { REQUIRE(m.valid(e), "box %u is answered with %u which is gone", i, id(e)); bool edge = q.kind && k == 0 && !m.all_of<rigidbody_tag>(e) && m.all_of<graph_edge>(e); REQUIRE(edge || (k == 2 ? m.all_of<island_tag>(e) : to.count(e) && m.all_of<procedural_tag>(e) == (k == 0)), "%u is not what box %u asked", id(e), i); if (edge) REQUIRE(!m.all_of<contact_manifold>(e), "box %u is answered with a manifold", i); }
        for (auto &[e, f] : to) if (w.all_of<AABB>(f)) { bool p = w.all_of<procedural_tag>(f); bool in_it = gap(w.get<AABB>(f), q.box) < -1e-6; if (in_it && q.want[p ? 0 : 1]) { c.label("box hits"); REQUIRE(got[p ? 0 : 1].count(e), "box %u is not answered with body %u", i, id(e)); } if (in_it && p && q.want[2] && m.all_of<island_resident>(e)) REQUIRE((w.all_of<sleeping_tag>(f) || got[2].count(m.get<island_resident>(e).island_entity)), "box %u is not answered with the island of body %u", i, id(e)); if (q.kind && p) { bool there = got[2].count(m.get<island_resident>(e).island_entity) != 0; REQUIRE(there == (got[0].count(e) != 0), "box %u of interest: body %u %s but its island %s", i, id(e), there ? "is not reported" : "is reported", there ? "is" : "is not"); } if (!q.kind && !in_it) REQUIRE((!got[p ? 0 : 1].count(e) || !p || gap(w.get<AABB>(f), q.box) < 30), "box %u is answered with body %u far away", i, id(e)); }
        if (q.kind) for (auto [e, k] : m.view<distance_constraint>().each()) for (E x : k.body) if (m.all_of<island_resident>(x) && got[2].count(m.get<island_resident>(x).island_entity)) REQUIRE(got[0].count(e), "box %u of interest is not answered with joint %u", i, id(e)); }
}
static void run(Case &c, int max) {
    Async a; Inbox in; std::map<E, uint64_t> b; std::set<E> fixed; uint64_t next = 1; set_gravity(a.reg, vector3_zero); double span = max > 10 ? 8 : 3; int rounds = (int)c.size(1, 3); bool early = false, hit = false;
    auto add = [&] { rigidbody_def d; d.kind = c.draw(5) < 3 ? K::rb_dynamic : c.boolean() ? K::rb_kinematic : K::rb_static; d.position = gen::vec(c, span); d.orientation = gen::orient(c); d.shape = solid(c); d.mass = 1; if (d.kind != K::rb_static && c.boolean()) { d.linvel = gen::vec(c, 3); d.angvel = gen::vec(c, 3); } if (c.chance(1, 4)) d.center_of_mass = gen::vec(c, 0.2); E e = make_rigidbody(a.reg, d); a.reg.emplace<marker>(e, marker{next}); b[e] = next++; if (d.kind != K::rb_dynamic) fixed.insert(e); c.note("body %u %s", id(e), kname(d.kind)); };
    auto sched = [&] { int k = (int)c.draw(6); if (k == 1 || k == 3) { a.update(); c.note("update"); } if (k == 2 || k == 3) { a.work(); c.note("work"); } };
    for (int r = 0; r < rounds; ++r) {
        int n = (int)c.size(2, (uint64_t)max); for (int i = 0; i < n; ++i) { if (!b.empty() && c.chance(1, 5)) { auto it = b.begin(); std::advance(it, (long)c.draw(b.size())); c.note("destroy %u", id(it->first)); a.reg.destroy(it->first); fixed.erase(it->first); b.erase(it); } else add(); if (b.size() > 1 && c.chance(1, 5)) { auto it = b.begin(); std::advance(it, (long)c.draw(b.size() - 1)); E x = it->first, y = (++it)->first; if (!fixed.count(x) || !fixed.count(y)) { make_constraint<distance_constraint>(a.reg, x, y, [](auto &k) { k.distance = 1; }); c.note("joint"); } } if (c.chance(1, 6)) { ask(c, a, in, b, false); early = true; } if (c.chance(1, 4)) sched(); }
        a.settle(); for (int k = (int)c.size(1, 3); k > 0; --k) step_simulation(a.reg); a.settle();
        int m = (int)c.size(1, 12); for (int i = 0; i < m; ++i) { ask(c, a, in, b, true); if (c.chance(1, 4)) sched(); } a.settle(); check(c, a, in, b); for (auto &[i, x] : in.rays) hit |= x.res.entity != entt::null; in.rays.clear(); in.boxes.clear(); }
    c.label_if(early, "asked while bodies come and go"); c.nontrivial(hit);
}
PBT(requests, 1500, 40000, "some ray of the history hits a body") { run(c, 7); }
PBT(requests_large, 250, 8000, "some ray of the history hits a body") { run(c, 50); }
