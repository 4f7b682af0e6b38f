// P35: asynchronous mode. The registry of the simulation thread mirrors the user's, and the outcome is that of sequential mode, for histories of operations and interleavings of updates of both threads.
#include "harness/asyncworld.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/util/exclude_collision.hpp"
using namespace edyn; using namespace asy; using pbt::Case; using K = rigidbody_kind;
struct B { E e[2]; K kind; bool shaped; uint64_t tag; };
struct J { E e[2]; size_t a, b; int type; };
static const int AS = 0, SQ = 1; // sides
struct Twin { Async a; std::unique_ptr<World> s; std::map<uint64_t, B> b; std::vector<std::pair<std::array<E, 2>, std::array<uint64_t, 2>>> j; uint64_t next = 1; bool contacts, touched = false; entt::registry &r(int k) { return k == AS ? a.reg : s->reg; } int sides() { return s ? 2 : 1; } };
static bool same(const vector3 &a, const vector3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool same(const quaternion &a, const quaternion &b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
template<typename T> static bool bits(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
static bool same(const matrix3x3 &a, const matrix3x3 &b) { for (size_t i = 0; i < 3; ++i) if (!same(a.row[i], b.row[i])) return false; return true; }
template<typename C> static const char *nm() { static std::string s = [] { std::string p = __PRETTY_FUNCTION__; auto i = p.find("C = "); auto j = p.find_first_of(";]>", i); return p.substr(i + 4, j - i - 4); }(); return s.c_str(); }

// Both registries, at rest: every body, joint and manifold of one is in the other, with the same components.
static void check_mirror(Case &c, Twin &t) {
    auto &m = t.a.reg; auto &w = *t.a.g.reg; std::map<uint64_t, E> far; for (auto [e, f] : w.view<marker>().each()) { REQUIRE(far.emplace(f.id, e).second, "two bodies of the simulation for body %llu", (unsigned long long)f.id); }
    std::map<E, E> to; for (auto &[tag, b] : t.b) { REQUIRE(far.count(tag), "body %llu is not in the simulation", (unsigned long long)tag); to[b.e[AS]] = far[tag]; } REQUIRE(far.size() == t.b.size(), "the simulation has %zu bodies instead of %zu", far.size(), t.b.size());
    auto link = [&](auto &&comp) { using C = std::decay_t<decltype(comp)>; std::map<std::pair<E, E>, int> n; for (auto [e, x] : m.view<C>().each()) ++n[{to.count(x.body[0]) ? to[x.body[0]] : x.body[0], to.count(x.body[1]) ? to[x.body[1]] : x.body[1]}]; for (auto [e, x] : w.view<C>().each()) --n[{x.body[0], x.body[1]}]; for (auto &[p, k] : n) REQUIRE(k == 0, "%s between %u and %u of the simulation: %d %s", nm<C>(), id(p.first), id(p.second), std::abs(k), k > 0 ? "missing in the simulation" : "missing in the main registry"); };
    link(contact_manifold{}); link(null_constraint{}); std::apply([&](auto... x) { (link(x), ...); }, constraints_tuple);
    auto comps = [&](E x, E y, auto &&comp) { using C = std::decay_t<decltype(comp)>; REQUIRE(m.all_of<C>(x) == w.all_of<C>(y), "%s of body %u: %d in the main registry, %d in the simulation", nm<C>(), id(x), m.all_of<C>(x), w.all_of<C>(y)); };
    for (auto &[x, y] : to) { E e = x, f = y; std::apply([&](auto... z) { (comps(e, f, z), ...); }, std::tuple<AABB, collision_filter, collision_exclusion, inertia, inertia_inv, inertia_world_inv, gravity, angvel, linvel, mass, mass_inv, material, position, orientation, center_of_mass, origin, dynamic_tag, kinematic_tag, static_tag, procedural_tag, sleeping_tag, sleeping_disabled_tag, disabled_tag, shape_index, island_resident, rigidbody_tag, rolling_tag, roll_direction, graph_node>{}); std::apply([&](auto... z) { (comps(e, f, z), ...); }, shapes_tuple);
        REQUIRE(same(m.get<position>(e), w.get<position>(f)), "body %u is at " VF " but at " VF " in the simulation", id(e), VA(m.get<position>(e)), VA(w.get<position>(f))); REQUIRE(same(m.get<orientation>(e), w.get<orientation>(f)), "orientation of body %u differs", id(e));
        auto val = [&](auto &&comp) { using C = std::decay_t<decltype(comp)>; if (m.all_of<C>(e)) REQUIRE(same(m.get<C>(e), w.get<C>(f)), "%s of body %u differs from that of the simulation", nm<C>(), id(e)); }; val(linvel{}); val(angvel{}); val(gravity{}); val(center_of_mass{}); val(inertia{}); val(inertia_inv{});
        if (m.all_of<mass>(e)) REQUIRE(m.get<mass>(e).s == w.get<mass>(f).s && m.get<mass_inv>(e).s == w.get<mass_inv>(f).s, "mass of body %u differs", id(e));
        if (m.all_of<material>(e)) { auto &p = m.get<material>(e); auto &q = w.get<material>(f); REQUIRE(p.friction == q.friction && p.restitution == q.restitution && p.roll_friction == q.roll_friction && p.spin_friction == q.spin_friction, "material of body %u differs", id(e)); }
        if (m.all_of<shape_index>(e)) REQUIRE(m.get<shape_index>(e).value == w.get<shape_index>(f).value, "shape of body %u differs", id(e)); if (m.all_of<collision_filter>(e)) { auto &p = m.get<collision_filter>(e); auto &q = w.get<collision_filter>(f); REQUIRE(p.group == q.group && p.mask == q.mask, "collision filter of body %u differs", id(e)); }
        if (m.all_of<collision_exclusion>(e)) { std::multiset<E> p, q; auto &xs = m.get<collision_exclusion>(e); for (size_t i = 0; i < xs.num_entities(); ++i) if (to.count(xs.entity[i])) p.insert(to[xs.entity[i]]); auto &ys = w.get<collision_exclusion>(f); for (size_t i = 0; i < ys.num_entities(); ++i) if (w.valid(ys.entity[i])) q.insert(ys.entity[i]); REQUIRE(p == q, "exclusions of body %u differ", id(e)); }
    }
    // islands, and everything alive
    std::map<E, std::set<E>> im, iw; for (auto &[x, y] : to) if (m.all_of<island_resident>(x)) { E i = m.get<island_resident>(x).island_entity, k = w.get<island_resident>(y).island_entity; REQUIRE(m.valid(i) && m.all_of<island_tag>(i), "island of body %u is not in the main registry", id(x)); im[i].insert(y); iw[k].insert(y); REQUIRE(m.all_of<sleeping_tag>(i) == w.all_of<sleeping_tag>(k), "island of body %u is asleep in one registry only", id(x)); } std::set<std::set<E>> sm, sw; for (auto &[i, s] : im) sm.insert(s); for (auto &[i, s] : iw) sw.insert(s); REQUIRE(sm == sw, "islands group the bodies differently");
    auto count = [&](auto &&comp) { using C = std::decay_t<decltype(comp)>; size_t p = 0, q = 0; for ([[maybe_unused]] E e : m.view<C>()) ++p; for ([[maybe_unused]] E e : w.view<C>()) ++q; REQUIRE(p == q, "%zu of %s in the main registry, %zu in the simulation", p, nm<C>(), q); }; count(island_tag{}); count(contact_point{}); count(contact_manifold{}); count(graph_edge{}); count(graph_node{}); count(sleeping_tag{});
    c.label_if(!m.view<contact_manifold>().empty(), "manifolds"); c.label_if(!m.view<contact_point>().empty(), "contact points"); c.label_if(!m.view<sleeping_tag>().empty(), "asleep");
}
// Against the same history in sequential mode.
static void check_twin(Case &c, Twin &t, double tol) { if (!t.s) return; if (!t.a.reg.view<contact_manifold>().empty()) t.touched = true; if (t.touched) return; /* order of contacts is free */ auto &m = t.a.reg; auto &s = t.s->reg; for (auto &[tag, b] : t.b) { E e = b.e[AS], f = b.e[SQ]; auto d = m.get<position>(e) - s.get<position>(f); double sc = tol * (1 + (double)length(s.get<position>(f))); REQUIRE((double)length(d) < sc, "body %llu is at " VF " but at " VF " in sequential mode", (unsigned long long)tag, VA(m.get<position>(e)), VA(s.get<position>(f))); auto p = m.get<orientation>(e), q = s.get<orientation>(f); double dq = std::min((double)length_sqr(p - q), (double)length_sqr(p + q)); REQUIRE(dq < tol * tol, "body %llu is turned by %g from sequential mode", (unsigned long long)tag, std::sqrt(dq)); REQUIRE(m.all_of<linvel>(e) == s.all_of<linvel>(f) && m.all_of<dynamic_tag>(e) == s.all_of<dynamic_tag>(f) && m.all_of<kinematic_tag>(e) == s.all_of<kinematic_tag>(f) && m.all_of<static_tag>(e) == s.all_of<static_tag>(f), "body %llu is of another kind", (unsigned long long)tag);
        if (m.all_of<linvel>(e)) { auto dv = m.get<linvel>(e) - s.get<linvel>(f); auto dw = m.get<angvel>(e) - s.get<angvel>(f); REQUIRE((double)length(dv) < 60 * tol * (1 + (double)length(s.get<linvel>(f))), "body %llu moves by " VF " but " VF " in sequential mode", (unsigned long long)tag, VA(m.get<linvel>(e)), VA(s.get<linvel>(f))); REQUIRE((double)length(dw) < 60 * tol * (1 + (double)length(s.get<angvel>(f))), "body %llu turns by " VF " but " VF " in sequential mode", (unsigned long long)tag, VA(m.get<angvel>(e)), VA(s.get<angvel>(f))); } } (void)c; }

static void both(Twin &t, const std::function<void(int, entt::registry &)> &f) { for (int k = 0; k < t.sides(); ++k) f(k, t.r(k)); }
static void add(Case &c, Twin &t) {
    rigidbody_def d; d.kind = c.draw(5) < 3 ? K::rb_dynamic : c.boolean() ? K::rb_kinematic : K::rb_static; d.position = gen::vec(c, t.contacts ? 1.5 : 2.5); if (!t.contacts) d.position.x = (scalar)(8 * (double)t.next); d.orientation = gen::orient(c); bool shaped = !c.chance(1, 6); if (shaped) d.shape = solid(c); else d.inertia = matrix3x3_identity; d.mass = gen::pos(c, 0.2, 5);
    if (d.kind != K::rb_static && c.boolean()) { d.linvel = gen::vec(c, 3); d.angvel = gen::vec(c, 3); } if (c.boolean()) d.gravity = vector3_zero; d.sleeping_disabled = c.chance(1, 8); if (c.chance(1, 6)) { d.collision_group = c.draw(4); d.collision_mask = c.draw(4); } if (d.kind == K::rb_dynamic && c.chance(1, 4)) d.center_of_mass = gen::vec(c, 0.2); if (c.chance(1, 8)) d.material.reset(); else if (c.boolean()) d.material->restitution = (scalar)c.unit();
    B b{{}, d.kind, shaped, t.next}; both(t, [&](int k, entt::registry &r) { b.e[k] = make_rigidbody(r, d); if (k == AS) r.emplace<marker>(b.e[k], marker{t.next}); }); c.note("body %llu %s", (unsigned long long)t.next, kname(d.kind)); t.b[t.next++] = b; }
static void forget(Twin &t, uint64_t tag) { t.b.erase(tag); t.j.erase(std::remove_if(t.j.begin(), t.j.end(), [&](auto &x) { return x.second[0] == tag || x.second[1] == tag; }), t.j.end()); }

static void history(Case &c, bool twin, bool contacts) {
    Twin t; t.contacts = contacts; if (twin) t.s = std::make_unique<World>(); int ops = (int)c.size(4, 24); bool interleaved = false, checked = false;
    for (int i = 0; i < 2; ++i) add(c, t);
    for (int i = 0; i < ops; ++i) {
        size_t n = t.b.size(); B *b = nullptr; if (n) { auto it = t.b.begin(); std::advance(it, (long)c.draw(n)); b = &it->second; } int op = (int)c.draw(20); unsigned long long tg = b ? b->tag : 0;
        if (op < 3 || !b) { if (n < 8) add(c, t); }
        else if (op == 3) { c.note("destroy %llu", tg); bool clear = c.chance(1, 3); if (clear) c.note("(clear)"); both(t, [&](int k, entt::registry &r) { if (clear) { clear_rigidbody(r, b->e[k]); r.destroy(b->e[k]); } else r.destroy(b->e[k]); }); forget(t, b->tag); }
        else if (op < 6 && n > 1) { auto it = t.b.begin(); std::advance(it, (long)c.draw(n)); B &o = it->second; if (&o == b || (b->kind != K::rb_dynamic && o.kind != K::rb_dynamic)) continue; if (twin) { bool busy = false; for (auto &x : t.j) for (auto y : x.second) busy |= y == b->tag || y == o.tag; if (busy) continue; } int ty = (int)c.draw(4); vector3 pa = gen::vec(c, 0.5), pb = gen::vec(c, 0.5); std::array<E, 2> e{}; scalar len = (scalar)c.uniform(0.5, 3); both(t, [&](int k, entt::registry &r) { E x = b->e[k], y = o.e[k]; switch (ty) { case 0: e[(size_t)k] = make_constraint<distance_constraint>(r, x, y, [&](distance_constraint &q) { q.pivot = {pa, pb}; q.distance = len; }); break; case 1: e[(size_t)k] = make_constraint<soft_distance_constraint>(r, x, y, [&](soft_distance_constraint &q) { q.pivot = {pa, pb}; q.distance = len; q.stiffness = 10; q.damping = 1; }); break; case 2: e[(size_t)k] = make_constraint<null_constraint>(r, x, y); break; default: e[(size_t)k] = make_constraint<point_constraint>(r, x, y, [&](point_constraint &q) { q.pivot = {pa, pb}; }); } }); c.note("joint %d between %llu and %llu", ty, tg, (unsigned long long)o.tag); t.j.push_back({e, {b->tag, o.tag}}); }
        else if (op == 6) { if (t.j.empty()) continue; size_t k = c.draw(t.j.size()); c.note("remove joint"); bool cl = c.boolean(); auto e = t.j[k].first; both(t, [&](int s, entt::registry &r) { if (cl) clear_constraint(r, e[(size_t)s]); r.destroy(e[(size_t)s]); }); t.j.erase(t.j.begin() + (long)k); }
        else if (op == 7) { K k = (K)c.draw(3); if (k == b->kind) continue; bool ok = true; for (auto &x : t.j) for (int s = 0; s < 2; ++s) if (x.second[(size_t)s] == b->tag && k != K::rb_dynamic && t.b.at(x.second[(size_t)(1 - s)]).kind != K::rb_dynamic) ok = false; if (!ok || (k == K::rb_dynamic && !t.a.reg.all_of<mass, inertia>(b->e[AS]))) continue; c.note("make %llu %s", tg, kname(k)); both(t, [&](int s, entt::registry &r) { rigidbody_set_kind(r, b->e[s], k); }); b->kind = k; t.a.update(); t.a.work(); t.a.update(); } // takes effect in the simulation
        else if (op == 8) { c.note("reshape %llu", tg); if (c.chance(1, 4)) { both(t, [&](int s, entt::registry &r) { rigidbody_set_shape(r, b->e[s], {}); }); b->shaped = false; } else { auto sh = solid(c); both(t, [&](int s, entt::registry &r) { rigidbody_set_shape(r, b->e[s], sh); }); b->shaped = true; } }
        else if (op == 9) { if (b->kind == K::rb_static) continue; vector3 v = gen::vec(c, 3), w = gen::vec(c, 3); c.note("velocity of %llu " VF " " VF, tg, VA(v), VA(w)); both(t, [&](int s, entt::registry &r) { r.replace<linvel>(b->e[s], v); r.replace<angvel>(b->e[s], w); wake_up_entity(r, b->e[s]); }); }
        else if (op == 10) { if (b->kind != K::rb_dynamic) continue; vector3 j = gen::vec(c, 3), l = gen::vec(c, 0.3); c.note("push %llu", tg); both(t, [&](int s, entt::registry &r) { rigidbody_apply_impulse(r, b->e[s], j, l); wake_up_entity(r, b->e[s]); }); }
        else if (op == 11 && n > 1) { auto it = t.b.begin(); std::advance(it, (long)c.draw(n)); B &o = it->second; if (&o == b) continue; if (c.boolean()) { c.note("exclude %llu and %llu", tg, (unsigned long long)o.tag); both(t, [&](int s, entt::registry &r) { exclude_collision(r, b->e[s], o.e[s]); }); } }
        else if (op == 12) { if (b->kind != K::rb_dynamic) continue; vector3 m = gen::vec(c, 0.3); c.note("center of mass of %llu " VF, tg, VA(m)); both(t, [&](int s, entt::registry &r) { set_center_of_mass(r, b->e[s], m); }); t.a.update(); t.a.work(); t.a.update(); } // the simulation then changes what the user can change
        else if (op == 13) { if (b->kind != K::rb_dynamic) continue; scalar m = gen::pos(c, 0.2, 5); c.note("mass of %llu %g", tg, m); both(t, [&](int s, entt::registry &r) { set_rigidbody_mass(r, b->e[s], m); }); }
        else if (op == 14) { if (b->kind != K::rb_kinematic || (twin && t.a.reg.all_of<origin>(b->e[AS]))) continue; /* in sequential mode the cached origin follows a step later */ vector3 p = gen::vec(c, 2) + (contacts ? vector3_zero : vector3_x * (scalar)(8 * (double)tg)); quaternion q = gen::orient(c); c.note("place %llu at " VF, tg, VA(p)); both(t, [&](int s, entt::registry &r) { r.replace<position>(b->e[s], p); r.replace<orientation>(b->e[s], q); }); }
        else if (op == 15) { vector3 g = gen::vec(c, 10); c.note("gravity"); both(t, [&](int s, entt::registry &r) { set_gravity(r, g); }); }
        // schedule
        int k = (int)c.draw(6); if (k == 1 || k == 2) { t.a.update(); c.note("update"); } if (k >= 2 && k < 5) { t.a.work(); c.note("work"); interleaved = true; } if (k == 4) { t.a.update(); c.note("update"); }
        if (c.chance(1, 3)) { int steps = !twin && c.chance(1, 12) ? 150 : (int)c.size(1, contacts ? 6 : 4); t.a.settle(); check_mirror(c, t); if (!contacts) check_twin(c, t, sizeof(scalar) == 4 ? 2e-4 : 1e-7); c.note("%d steps", steps); for (int s = 0; s < steps; ++s) { step_simulation(t.a.reg); if (c.boolean() || t.s) t.a.work(); if (c.boolean()) t.a.update(); if (t.s) t.s->step(); } t.a.settle(); check_mirror(c, t); if (!contacts) check_twin(c, t, sizeof(scalar) == 4 ? 2e-4 : 1e-7); checked = true; }
    }
    t.a.settle(); check_mirror(c, t); while (!t.b.empty()) { auto &b = t.b.begin()->second; for (int s = 0; s < t.sides(); ++s) t.r(s).destroy(b.e[s]); forget(t, b.tag); } t.a.settle(); if (t.b.empty()) { REQUIRE(t.a.g.reg->alive_count() == 0, "%zu entities remain in the simulation after all bodies are destroyed", t.a.g.reg->alive_count()); REQUIRE(t.a.reg.alive_count() == 0, "%zu entities remain after all bodies are destroyed", t.a.reg.alive_count()); }
    c.nontrivial(interleaved && checked);
}
PBT(mirror, 1500, 60000, "updates of both threads interleaved with operations, and steps made") { history(c, false, true); }
PBT(as_sequential, 1500, 60000, "updates of both threads interleaved with operations, and steps made") { history(c, true, false); }
