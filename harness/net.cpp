// P36: a server and a client connected by a generated network: each has what it should, alike, once the network is quiet.
#include "harness/world.hpp"
#include "edyn/networking/networking.hpp"
#include "edyn/networking/networking_external.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/replication/register_external.hpp"
#include "edyn/networking/comp/aabb_of_interest.hpp"
#include "edyn/networking/comp/entity_owner.hpp"
#include "edyn/networking/comp/remote_client.hpp"
#include "edyn/networking/context/client_network_context.hpp"
#include "edyn/networking/context/server_network_context.hpp"
#include "edyn/networking/packet/edyn_packet.hpp"
#include "edyn/networking/sys/client_side.hpp"
#include "edyn/networking/sys/server_side.hpp"
#include "edyn/networking/util/clock_sync.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/s11n.hpp"
#include <atomic>
#include "edyn/shapes/shapes.hpp"
#include <deque>
#include <functional>
using namespace edyn; using namespace wld; using pbt::Case; using K = rigidbody_kind;
static std::atomic<double> g_now{0}, g_offset{0};
static double server_time() { return g_now; }
static double client_time() { return g_now + g_offset; }
struct Wire { double due; bool reliable; std::vector<uint8_t> data; };
struct Net {
    Case &c; entt::registry s, k; E client = entt::null; std::deque<Wire> up, down; double lat = 0.02, jitter = 0.2, loss = 0; std::map<std::string, int> sent; bool quiet = false;
    explicit Net(Case &cc) : c(cc) {}
    void post(std::deque<Wire> &q, const packet::edyn_packet &p) { Wire w; auto copy = p; memory_output_archive ar(w.data); ar(copy); w.reliable = should_send_reliably(p); w.due = g_now + lat * (quiet ? 1 : 1 + jitter * c.unit()); if (!w.reliable && !quiet && c.unit() < loss) return; if (w.reliable) for (auto &x : q) if (x.reliable) w.due = std::max(w.due, x.due); q.push_back(std::move(w)); }
    void trace(const char *d, const packet::edyn_packet &p) { static FILE *f = getenv("NET_TRACE") ? fopen(getenv("NET_TRACE"), "w") : nullptr; if (!f) return; fprintf(f, "%.4f %s %zu", (double)g_now, d, p.var.index()); if (auto *x = std::get_if<packet::create_entity>(&p.var)) for (auto e : x->entities) fprintf(f, " create %u", id(e)); if (auto *x = std::get_if<packet::destroy_entity>(&p.var)) for (auto e : x->entities) fprintf(f, " destroy %u", id(e)); if (auto *x = std::get_if<packet::update_entity_map>(&p.var)) for (auto &e : x->pairs) fprintf(f, " map %u %u", id(e.first), id(e.second)); if (auto *x = std::get_if<packet::registry_snapshot>(&p.var)) for (auto e : x->entities) fprintf(f, " snap %u", id(e)); fprintf(f, "\n"); fflush(f); }
    void to_server(const packet::edyn_packet &p) { trace("up", p); post(up, p); }
    void to_client(E to, const packet::edyn_packet &p) { if (to == client) { trace("down", p); post(down, p); } }
    template<typename F> void deliver(std::deque<Wire> &q, F f) { for (;;) { auto it = q.end(); for (auto i = q.begin(); i != q.end(); ++i) if (i->due <= g_now && (it == q.end() || i->due < it->due)) it = i; if (it == q.end()) return; auto d = std::move(it->data); q.erase(it); packet::edyn_packet p; memory_input_archive ar(d.data(), d.size()); ar(p); trace(&q == &up ? "at server" : "at client", p); REQUIRE(!ar.failed(), "packet of %zu bytes cannot be read", d.size()); f(p); } }
};
struct Spec { K kind; bool client = false, tracked = true; };
struct JointKey { std::string type; uint64_t a, b; std::vector<double> p; bool operator<(const JointKey &o) const { return std::tie(type, a, b, p) < std::tie(o.type, o.a, o.b, o.p); } };
static uint64_t name(const entt::registry &r, E e) { if (e == entt::null || !r.valid(e)) return 0; auto *f = r.try_get<collision_filter>(e); return f ? f->group : 0; }
static std::map<uint64_t, std::vector<E>> bodies(entt::registry &r) { std::map<uint64_t, std::vector<E>> m; for (auto e : r.view<rigidbody_tag, networked_tag>()) m[name(r, e)].push_back(e); return m; }
static std::map<JointKey, std::vector<E>> joints(entt::registry &r) {
    std::map<JointKey, std::vector<E>> m; auto pv = [](const vector3 &v) { return std::vector<double>{v.x, v.y, v.z}; };
    for (auto [e, j] : r.view<distance_constraint>().each()) { auto p = pv(j.pivot[0]), q = pv(j.pivot[1]); p.insert(p.end(), q.begin(), q.end()); p.push_back(j.distance); m[{"distance", name(r, j.body[0]), name(r, j.body[1]), p}].push_back(e); }
    for (auto [e, j] : r.view<soft_distance_constraint>().each()) { auto p = pv(j.pivot[0]), q = pv(j.pivot[1]); p.insert(p.end(), q.begin(), q.end()); p.insert(p.end(), {j.distance, j.stiffness, j.damping}); m[{"soft", name(r, j.body[0]), name(r, j.body[1]), p}].push_back(e); }
    for (auto [e, j] : r.view<point_constraint>().each()) { auto p = pv(j.pivot[0]), q = pv(j.pivot[1]); p.insert(p.end(), q.begin(), q.end()); p.push_back(j.friction_torque); m[{"point", name(r, j.body[0]), name(r, j.body[1]), p}].push_back(e); }
    for (auto [e, j] : r.view<hinge_constraint>().each()) { auto p = pv(j.pivot[0]), q = pv(j.pivot[1]); p.insert(p.end(), q.begin(), q.end()); for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { auto row = pv(j.frame[k].row[i]); p.insert(p.end(), row.begin(), row.end()); } p.insert(p.end(), {j.angle_min, j.angle_max, j.damping}); m[{"hinge", name(r, j.body[0]), name(r, j.body[1]), p}].push_back(e); }
    for (auto [e, j] : r.view<null_constraint>().each()) m[{"null", name(r, j.body[0]), name(r, j.body[1]), {}}].push_back(e);
    return m;
}
template<typename S> static void flat(const S &sh, std::vector<double> &v) {
    auto put = [&](const vector3 &x) { v.insert(v.end(), {x.x, x.y, x.z}); };
    if constexpr(std::is_same_v<S, sphere_shape>) v.push_back(sh.radius); else if constexpr(std::is_same_v<S, box_shape>) put(sh.half_extents); else if constexpr(std::is_same_v<S, plane_shape>) { put(sh.normal); v.push_back(sh.constant); }
    else if constexpr(std::is_same_v<S, capsule_shape> || std::is_same_v<S, cylinder_shape>) v.insert(v.end(), {sh.radius, sh.half_length, (double)(int)sh.axis});
    else if constexpr(std::is_same_v<S, polyhedron_shape>) { for (auto &x : sh.mesh->vertices) put(x); for (auto x : sh.mesh->indices) v.push_back(x); for (auto x : sh.mesh->faces) v.push_back(x); for (auto &x : sh.mesh->normals) put(x); for (auto x : sh.mesh->edges) v.push_back(x); }
    else if constexpr(std::is_same_v<S, compound_shape>) for (auto &n : sh.nodes) { put(n.position); v.insert(v.end(), {n.orientation.x, n.orientation.y, n.orientation.z, n.orientation.w}); put(n.aabb.min); put(n.aabb.max); v.push_back((double)n.shape_var.index()); std::visit([&](auto &&x) { flat<std::decay_t<decltype(x)>>(x, v); }, n.shape_var); }
}
static std::vector<double> shape_data(entt::registry &r, E e) { std::vector<double> v; if (!r.all_of<shape_index>(e)) return v; v.push_back((double)r.get<shape_index>(e).value); visit_shape(r, e, [&](auto &&sh) { flat<std::decay_t<decltype(sh)>>(sh, v); }); return v; }
static bool alike(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::abs(a[i] - b[i]) <= 2e-5)) return false; return true; }
static double dist3(const vector3 &a, const vector3 &b) { return edyn::length(a - b); }
struct Session : Net {
    uint64_t next = 1; std::set<uint64_t> alive, by_client, entered, inside, left, joined, given; bool ready = false; double dt = 1.0 / 60; scalar box = 8; int ops = 0; bool full; E other = entt::null;
    Session(Case &cc) : Net(cc) {
        g_now = 100; g_offset = c.pick(std::vector<double>{0, 37.25, -12.5, 1e5}); lat = c.uniform(0.004, 0.12); jitter = c.chance(1, 2) ? 0 : c.uniform(0, 1); loss = c.chance(1, 2) ? 0 : c.uniform(0, 0.5); full = c.boolean(); c.note("latency %g jitter %g loss %g%s", lat, jitter, loss, full ? " full ownership" : "");
        init_config cfg; cfg.execution_mode = execution_mode::sequential; cfg.timestamp = server_time(); cfg.fixed_dt = (scalar)dt; attach(s, cfg); set_time_source(s, &server_time); set_gravity(s, vector3_zero); s.ctx().get<settings>().num_solver_velocity_iterations = 3 + (unsigned)c.draw(9);
        init_network_server(s); network_server_packet_sink(s).connect<&Session::to_client>(*this);
        cfg.timestamp = client_time(); attach(k, cfg); set_time_source(k, &client_time); init_network_client(k); network_client_packet_sink(k).connect<&Session::to_server>(*this);
        set_network_client_extrapolation_enabled(k, false); set_network_client_round_trip_time(k, 2 * lat);
        client = server_make_client(s, full); server_set_client_round_trip_time(s, client, 2 * lat); s.get<aabb_of_interest>(client).aabb = AABB{vector3{-6, -6, -6}, vector3{6, 6, 6}};
        if (c.chance(1, 3)) { other = server_make_client(s, true); s.get<aabb_of_interest>(other).aabb = AABB{vector3{500, 500, 500}, vector3{501, 501, 501}}; server_set_client_round_trip_time(s, other, c.uniform(0, 0.3)); }
    }
    ~Session() { network_server_packet_sink(s).disconnect(this); network_client_packet_sink(k).disconnect(this); deinit_network_client(k); detach(k); deinit_network_server(s); detach(s); }
    void tick(bool srv = true, bool cli = true) {
        g_now = g_now + dt;
        if (srv) { deliver(up, [&](packet::edyn_packet &p) { server_receive_packet(s, client, p); }); update(s, server_time()); update_network_server(s); std::set<uint64_t> now; for (auto e : s.get<aabb_of_interest>(client).entities) if (s.valid(e)) now.insert(name(s, e)); for (auto x : inside) if (!now.count(x)) left.insert(x); entered.insert(now.begin(), now.end()); inside = now; }
        if (cli) { deliver(down, [&](packet::edyn_packet &p) { client_receive_packet(k, p); }); update(k, client_time()); update_network_client(k); ready = k.ctx().get<client_network_context>().client_entity != entt::null; }
    }
    E body(entt::registry &r, bool networked = true) {
        rigidbody_def d; d.kind = c.chance(2, 3) ? K::rb_dynamic : c.boolean() ? K::rb_kinematic : K::rb_static; d.shape = solid(c); d.position = {(scalar)c.uniform(-box, box), (scalar)c.uniform(-box, box), (scalar)c.uniform(-box, box)}; d.orientation = gen::orient(c);
        if (d.kind == K::rb_dynamic) { d.mass = (scalar)c.uniform(0.1, 20); } if (d.kind != K::rb_static && c.chance(2, 3)) { d.linvel = gen::vec(c, 2); d.angvel = gen::vec(c, 1); }
        if (c.chance(1, 3)) d.center_of_mass = gen::vec(c, 0.3); if (c.chance(2, 3)) { d.material = material{}; d.material->friction = (scalar)c.unit(); d.material->restitution = (scalar)c.unit(); if (c.chance(1, 5)) { d.material->stiffness = (scalar)c.uniform(100, 1e4); d.material->damping = (scalar)c.uniform(1, 100); } } else if (c.boolean()) d.material = {};
        d.collision_group = next++; d.collision_mask = 0; d.networked = networked; d.sleeping_disabled = c.chance(1, 5); if (c.chance(1, 6)) d.gravity = gen::vec(c, 1e-6); return make_rigidbody(r, d);
    }
    std::map<uint64_t, uint64_t> up_; uint64_t comp(uint64_t x) { while (up_.count(x)) x = up_[x]; return x; } // joints form a forest, or they could not all be met
    void joint(entt::registry &r, E a, E b) {
        up_[comp(name(r, a))] = comp(name(r, b));
        E e = r.create();
        switch (c.draw(5)) {
        case 0: make_constraint<distance_constraint>(r, e, a, b, [&](distance_constraint &j) { j.pivot[0] = gen::vec(c, 0.3); j.pivot[1] = gen::vec(c, 0.3); j.distance = (scalar)c.uniform(0.5, 4); }); break;
        case 1: make_constraint<soft_distance_constraint>(r, e, a, b, [&](soft_distance_constraint &j) { j.pivot[0] = gen::vec(c, 0.3); j.pivot[1] = gen::vec(c, 0.3); j.distance = (scalar)c.uniform(0.5, 4); j.stiffness = 1; j.damping = 2; }); break;
        case 2: make_constraint<point_constraint>(r, e, a, b, [&](point_constraint &j) { j.pivot[0] = gen::vec(c, 0.3); j.pivot[1] = gen::vec(c, 0.3); j.friction_torque = (scalar)c.unit(); }); break;
        case 3: make_constraint<hinge_constraint>(r, e, a, b, [&](hinge_constraint &j) { j.pivot[0] = gen::vec(c, 0.3); j.pivot[1] = gen::vec(c, 0.3); vector3 u = gen::dir(c), w = gen::dir(c); j.set_axes(u, w); j.damping = (scalar)c.unit(); }); break;
        default: make_constraint<null_constraint>(r, e, a, b);
        }
        r.emplace<networked_tag>(e); joined.insert(name(r, a)); joined.insert(name(r, b));
    }
    std::vector<E> list(entt::registry &r, bool own) { std::vector<E> v; for (auto &[n, es] : bodies(r)) for (auto e : es) if (!own || by_client.count(n)) v.push_back(e); std::sort(v.begin(), v.end(), [&](E a, E b) { return name(r, a) < name(r, b); }); return v; }
    void destroy(entt::registry &r, E e) { std::vector<E> js; auto &g = r.ctx().get<entity_graph>(); if (r.all_of<graph_node>(e)) g.visit_edges(r.get<graph_node>(e).node_index, [&](auto ei) { E x = g.edge_entity(ei); if (r.all_of<networked_tag>(x)) js.push_back(x); }); for (auto j : js) if (r.valid(j)) r.destroy(j); r.destroy(e); }
    void move(entt::registry &r, E e) { if (r.all_of<static_tag>(e)) return; c.note("%.3f %s pushes %llu", (double)g_now, &r == &s ? "server" : "client", (unsigned long long)name(r, e)); r.get<linvel>(e) = gen::vec(c, 2); r.get<angvel>(e) = gen::vec(c, 1); r.patch<linvel>(e); r.patch<angvel>(e); wake_up_entity(r, e); }
    static const char *what(entt::registry &r, E e) { return r.all_of<dynamic_tag>(e) ? "dynamic" : r.all_of<kinematic_tag>(e) ? "kinematic" : "static"; }
    void op() {
        ++ops;
        switch (c.draw(13)) {
        case 0: case 1: { E e = body(s); alive.insert(name(s, e)); if (other != entt::null && c.chance(1, 4)) { s.emplace<entity_owner>(e, other); } else if (c.chance(1, 4)) { s.emplace<entity_owner>(e, client); given.insert(name(s, e)); c.label("given to the client"); } c.label("server creates"); c.note("%.3f server makes %s %llu%s", (double)g_now, what(s, e), (unsigned long long)name(s, e), given.count(name(s, e)) ? " of the client" : s.all_of<entity_owner>(e) ? " of the other client" : ""); break; }
        case 2: case 10: case 11: { auto v = list(s, false); if (v.size() > 1) { E a = c.pick(v), b = c.pick(v); auto fit = [&](E e) { return s.all_of<procedural_tag>(e) || !s.all_of<entity_owner>(e); }; /* who decides about a body joined to a kinematic one of a client is not settled */ if (a != b && comp(name(s, a)) != comp(name(s, b)) && (s.all_of<procedural_tag>(a) || s.all_of<procedural_tag>(b)) && fit(a) && fit(b)) { c.note("%.3f server joins %llu %llu", (double)g_now, (unsigned long long)name(s, a), (unsigned long long)name(s, b)); joint(s, a, b); c.label("server joins"); } } break; }
        case 3: { auto v = list(s, false); if (!v.empty()) { E e = c.pick(v); if (by_client.count(name(s, e)) && !inside.count(name(s, e))) break; /* the owner would not be told */ c.note("%.3f server destroys %llu", (double)g_now, (unsigned long long)name(s, e)); alive.erase(name(s, e)); destroy(s, e); c.label("server destroys"); } break; }
        case 4: { auto v = list(s, false); if (!v.empty()) move(s, c.pick(v)); break; }
        case 5: if (ready) { vector3 at = gen::vec(c, 8); scalar h = (scalar)c.uniform(1, 8); packet::set_aabb_of_interest p; p.min = at - vector3{h, h, h}; p.max = at + vector3{h, h, h}; to_server(packet::edyn_packet{p}); c.label("interest moves"); c.note("%.3f interest (%g %g %g) +- %g", (double)g_now, (double)at.x, (double)at.y, (double)at.z, (double)h); } break;
        case 6: case 7: if (ready) { E e = body(k); by_client.insert(name(k, e)); alive.insert(name(k, e)); c.label("client creates"); c.note("%.3f client makes %s %llu", (double)g_now, what(k, e), (unsigned long long)name(k, e)); } break;
        case 8: if (ready) { auto v = list(k, true); if (!v.empty()) { E e = c.pick(v); c.note("%.3f client destroys %llu", (double)g_now, (unsigned long long)name(k, e)); alive.erase(name(k, e)); destroy(k, e); c.label("client destroys"); } } break;
        case 9: if (ready) { auto v = list(k, true); for (auto &[n, es] : bodies(k)) if (given.count(n)) v.push_back(es[0]); if (!v.empty()) move(k, c.pick(v)); } break;
        default: { E e = body(c.boolean() ? s : k, false); (void)e; }
        }
    }
    void stop(entt::registry &r) { for (auto [e, v, w] : r.view<linvel, angvel>().each()) if (!r.all_of<static_tag>(e)) { v = linvel{vector3_zero}; w = angvel{vector3_zero}; r.patch<linvel>(e); r.patch<angvel>(e); } }
};
PBT(session, 4000, 120000, "Something the server made reached the client, or something of the client the server") {
    Session w(c); size_t n = c.size(1, 24); for (size_t i = 0; i < n; ++i) { w.op(); size_t t = c.size(0, 12); for (size_t j = 0; j < t; ++j) w.tick(!c.chance(1, 12), !c.chance(1, 12)); }
    w.quiet = true; for (int i = 0; i < 60; ++i) { w.stop(w.s); w.stop(w.k); w.tick(); } int still = 0; for (int i = 0; i < 600 && (i < 180 || still < 40); ++i) { auto before = w.inside; w.tick(); still = before == w.inside ? still + 1 : 0; } if (still < 40) c.discard();
    auto sb = bodies(w.s), kb = bodies(w.k); std::set<uint64_t> got; for (auto &[nm, v] : sb) { REQUIRE(v.size() == 1, "%zu bodies %llu on the server", v.size(), (unsigned long long)nm); got.insert(nm); }
    for (auto nm : w.alive) REQUIRE(got.count(nm), "body %llu of the %s is missing on the server", (unsigned long long)nm, w.by_client.count(nm) ? "client" : "server");
    for (auto nm : got) REQUIRE(w.alive.count(nm) || (w.by_client.count(nm) && w.left.count(nm)), "body %llu remains on the server", (unsigned long long)nm);
    auto &oi = w.s.get<aabb_of_interest>(w.client); std::set<uint64_t> want; for (auto e : oi.entities) if (w.s.all_of<rigidbody_tag>(e)) want.insert(name(w.s, e)); for (auto nm : w.by_client) if (w.alive.count(nm) && !w.entered.count(nm)) want.insert(nm);
    for (auto &[nm, v] : kb) { REQUIRE(v.size() == 1, "%zu bodies %llu on the client", v.size(), (unsigned long long)nm); REQUIRE(want.count(nm), "body %llu remains on the client", (unsigned long long)nm); } for (auto nm : want) REQUIRE(kb.count(nm), "body %llu is missing on the client", (unsigned long long)nm);
    if (!want.empty()) c.nontrivial();
    // What is of interest: the bodies of islands, and the non-procedural bodies, whose AABB overlaps that of the client (an island which shrinks keeps its larger AABB in the tree).
    { auto &r = w.s; std::map<E, E> up; std::function<E(E)> top = [&](E x) { return up.count(x) ? top(up[x]) : x; }; auto join = [&](auto &con) { E a = con.body[0], b = con.body[1]; if (r.all_of<procedural_tag>(a) && r.all_of<procedural_tag>(b) && top(a) != top(b)) up[top(a)] = top(b); };
        for (auto [e, j] : r.view<distance_constraint>().each()) join(j); for (auto [e, j] : r.view<soft_distance_constraint>().each()) join(j); for (auto [e, j] : r.view<point_constraint>().each()) join(j); for (auto [e, j] : r.view<hinge_constraint>().each()) join(j); for (auto [e, j] : r.view<null_constraint>().each()) join(j);
        std::map<E, AABB> box; for (auto e : r.view<procedural_tag, AABB>()) { E t = top(e); auto bb = r.get<AABB>(e); if (box.count(t)) box[t] = enclosing_aabb(box[t], bb); else box.emplace(t, bb); }
        auto overlap = [&](const AABB &x, double m) { auto &y = oi.aabb; for (int i = 0; i < 3; ++i) if (x.min[i] - m > y.max[i] || x.max[i] + m < y.min[i]) return false; return true; };
        for (auto &[nm, v] : sb) { E e = v[0]; bool in = oi.entities.contains(e), proc = r.all_of<procedural_tag>(e); AABB bb = proc ? box.at(top(e)) : r.get<AABB>(e); if (overlap(bb, -1e-2)) REQUIRE(in, "body %llu is within the AABB of interest and not of interest", (unsigned long long)nm); if (proc && !w.joined.count(nm) && !overlap(bb, 1.5)) REQUIRE(!in, "body %llu is far from the AABB of interest and of interest", (unsigned long long)nm); c.label_if(in, "in"); c.label_if(!in, "out"); } }
    for (auto nm : want) { E a = sb[nm][0], b = kb[nm][0]; auto &s = w.s, &k = w.k; unsigned long long q = nm; double tol = 1e-4;
        REQUIRE((s.all_of<dynamic_tag>(a) == k.all_of<dynamic_tag>(b) && s.all_of<kinematic_tag>(a) == k.all_of<kinematic_tag>(b) && s.all_of<static_tag>(a) == k.all_of<static_tag>(b) && s.all_of<procedural_tag>(a) == k.all_of<procedural_tag>(b)), "kind of body %llu", q);
        { auto x = shape_data(s, a), y = shape_data(k, b); REQUIRE(alike(x, y), "shape of body %llu, of kind %d on the server", q, x.empty() ? -1 : (int)x[0]); }
        bool of_interest = oi.entities.contains(a) && !w.joined.count(nm); // the server sends nothing of those out of interest; joints are settled on each side until it sleeps
        if (of_interest) REQUIRE(dist3(s.get<position>(a), k.get<position>(b)) <= tol, "body %llu is at (%g %g %g) on the server, (%g %g %g) on the client", q, (double)s.get<position>(a).x, (double)s.get<position>(a).y, (double)s.get<position>(a).z, (double)k.get<position>(b).x, (double)k.get<position>(b).y, (double)k.get<position>(b).z);
        if (of_interest ) REQUIRE(std::abs(dot(s.get<orientation>(a), k.get<orientation>(b))) >= 1 - tol, "orientation of body %llu differs, cosine of half the angle %.9g", q, (double)dot(s.get<orientation>(a), k.get<orientation>(b)));
        for (int side = 0; side < 2; ++side) { auto &r = side ? k : s; E e = side ? b : a; const char *sn = side ? "client" : "server"; vector3 org = r.all_of<origin>(e) ? (vector3)r.get<origin>(e) : (vector3)r.get<position>(e); auto *com = r.try_get<center_of_mass>(e);
            if (com) { vector3 x = r.get<position>(e) - rotate(r.get<orientation>(e), *com); REQUIRE(r.all_of<origin>(e), "body %llu has a center of mass and no origin on the %s", q, sn); REQUIRE(dist3(x, org) < 1e-3, "origin of body %llu on the %s is off by %g", q, sn, dist3(x, org)); }
            AABB bb; visit_shape(r, e, [&](auto &&sh) { bb = shape_aabb(sh, org, r.get<orientation>(e)); }); auto &cb = r.get<AABB>(e); REQUIRE(dist3(bb.min, cb.min) < 1e-3 && dist3(bb.max, cb.max) < 1e-3, "AABB of body %llu on the %s is off by %g", q, sn, std::max(dist3(bb.min, cb.min), dist3(bb.max, cb.max)));
            if (r.all_of<dynamic_tag>(e)) { double m = r.get<mass>(e), mi = r.get<mass_inv>(e); REQUIRE(std::abs(m * mi - 1) < 1e-4, "inverse mass %g for %g of body %llu on the %s", mi, m, q, sn);
            auto R3 = to_matrix3x3(r.get<orientation>(e)); auto wi = R3 * (matrix3x3)r.get<inertia_inv>(e) * transpose(R3); auto &gi = r.get<inertia_world_inv>(e); double sc = 0, err = 0; for (int i = 0; i < 3; ++i) { sc = std::max(sc, (double)edyn::length(wi.row[i])); err = std::max(err, dist3(wi.row[i], gi.row[i])); } REQUIRE(err <= 1e-3 * sc, "world inverse inertia of body %llu on the %s", q, sn); }
            REQUIRE(r.all_of<graph_node>(e), "body %llu is no node on the %s", q, sn); }
        if (s.all_of<dynamic_tag>(a)) { REQUIRE(s.get<mass>(a) == k.get<mass>(b), "mass of body %llu", q); for (int i = 0; i < 3; ++i) REQUIRE(s.get<inertia>(a).row[i] == k.get<inertia>(b).row[i], "inertia of body %llu", q); }
        REQUIRE(s.all_of<material>(a) == k.all_of<material>(b), "body %llu has a material on one side only", q); if (s.all_of<material>(a)) { auto &x = s.get<material>(a); auto &y = k.get<material>(b); REQUIRE(x.friction == y.friction && x.restitution == y.restitution && x.stiffness == y.stiffness && x.damping == y.damping, "material of body %llu", q); }
        REQUIRE(s.all_of<center_of_mass>(a) == k.all_of<center_of_mass>(b) && (!s.all_of<center_of_mass>(a) || s.get<center_of_mass>(a) == k.get<center_of_mass>(b)), "center of mass of body %llu", q); REQUIRE(s.get<collision_filter>(a).mask == k.get<collision_filter>(b).mask, "filter of body %llu", q);
        REQUIRE(s.all_of<sleeping_disabled_tag>(a) == k.all_of<sleeping_disabled_tag>(b), "sleeping of body %llu", q); REQUIRE(s.all_of<gravity>(a) == k.all_of<gravity>(b) && (!s.all_of<gravity>(a) || s.get<gravity>(a) == k.get<gravity>(b)), "gravity of body %llu", q);
    }
    auto sj = joints(w.s), kj = joints(w.k); std::map<JointKey, size_t> jw; for (auto &[key, v] : sj) for (auto e : v) if (oi.entities.contains(e)) ++jw[key];
    for (auto &[key, v] : kj) REQUIRE(jw.count(key) && jw[key] == v.size(), "a %s joint of bodies %llu and %llu is on the client %zu times, of interest %zu", key.type.c_str(), (unsigned long long)key.a, (unsigned long long)key.b, v.size(), jw.count(key) ? jw[key] : (size_t)0); for (auto &[key, x] : jw) REQUIRE(kj.count(key), "a %s joint of bodies %llu and %llu is missing on the client", key.type.c_str(), (unsigned long long)key.a, (unsigned long long)key.b); c.label_if(!jw.empty(), "joints compared");
    auto &ss = w.s.ctx().get<settings>(), &ks = w.k.ctx().get<settings>(); REQUIRE(ss.fixed_dt == ks.fixed_dt && ss.gravity == ks.gravity && ss.num_solver_velocity_iterations == ks.num_solver_velocity_iterations, "settings differ");
}

// Inputs and actions of the user, and components of the application.
struct Lever : network_input { int value = 0; scalar force = 0; }; struct Lamp { int value = 0; }; struct Fire { int id = 0; }; struct Jump { int id = 0; scalar height = 0; };
template<typename A> void serialize(A &a, Lever &x) { a(x.value, x.force); } template<typename A> void serialize(A &a, Lamp &x) { a(x.value); } template<typename A> void serialize(A &a, Fire &x) { a(x.id); } template<typename A> void serialize(A &a, Jump &x) { a(x.id, x.height); }
static entt::registry *g_server; static std::map<uint64_t, std::vector<int>> g_fired, g_jumped;
static void record(entt::registry &r) { if (&r != g_server) return; for (auto [e, l] : r.view<action_list<Fire>>().each()) for (auto &x : l.actions) g_fired[name(r, e)].push_back(x.id); for (auto [e, l] : r.view<action_list<Jump>>().each()) for (auto &x : l.actions) g_jumped[name(r, e)].push_back(x.id); }
PBT(inputs, 1500, 40000, "An action, an input or a component of the application reached the other side") {
    Session w(c); w.loss = w.loss > 0 ? std::min(w.loss, 0.05) : 0; auto &s = w.s, &k = w.k; g_server = &s; g_fired.clear(); g_jumped.clear(); std::tuple<Fire, Jump> acts;
    for (auto *r : {&s, &k}) { register_external_components<Lever, Lamp>(*r, acts); register_networked_components<Lever, Lamp>(*r, acts); } set_pre_step_callback(s, &record); set_fixed_dt(s, (scalar)(w.dt / 2)); s.get<aabb_of_interest>(w.client).aabb = AABB{vector3{-50, -50, -50}, vector3{50, 50, 50}};
    std::map<uint64_t, std::vector<int>> fired, jumped; std::map<uint64_t, Lever> lever; std::map<uint64_t, int> lamp; int next = 1;
    auto tick = [&]() { g_now = g_now + w.dt; w.deliver(w.up, [&](packet::edyn_packet &p) { server_receive_packet(s, w.client, p); }); update_network_server(s); update(s, server_time()); w.deliver(w.down, [&](packet::edyn_packet &p) { client_receive_packet(k, p); }); update_network_client(k); update(k, client_time()); w.ready = k.ctx().get<client_network_context>().client_entity != entt::null; };
    auto own = [&]() { std::vector<E> v; for (auto &[n, es] : bodies(k)) if (w.by_client.count(n) && k.all_of<action_history>(es[0])) v.push_back(es[0]); return v; };
    for (int i = 0; i < 60 && !w.ready; ++i) tick(); REQUIRE(w.ready, "the client was not assigned its entity"); for (int i = 0; i < 30; ++i) tick(); // settings of the server have arrived
    size_t n = c.size(1, 30);
    for (size_t i = 0; i < n; ++i) {
        switch (c.draw(8)) {
        case 0: { E e = w.body(k); w.by_client.insert(name(k, e)); k.emplace<action_history>(e); k.emplace<action_list<Fire>>(e); k.emplace<action_list<Jump>>(e); Lever l; l.value = next++; k.emplace<Lever>(e, l); lever[name(k, e)] = l; c.note("%.3f client makes %llu", (double)g_now, (unsigned long long)name(k, e)); break; }
        case 1: { E e = w.body(s); s.emplace<Lamp>(e, Lamp{next}); lamp[name(s, e)] = next++; c.note("%.3f server makes %llu", (double)g_now, (unsigned long long)name(s, e)); break; }
        case 2: case 3: case 4: { auto v = own(); size_t m = v.empty() ? 0 : c.size(1, 3); for (size_t j = 0; j < m; ++j) { E e = c.pick(v); auto nm = name(k, e); if (c.boolean()) { k.patch<action_list<Fire>>(e, [&](auto &l) { l.actions.push_back({next}); }); fired[nm].push_back(next); } else { k.patch<action_list<Jump>>(e, [&](auto &l) { l.actions.push_back({next, 1}); }); jumped[nm].push_back(next); } c.note("%.3f action %d of %llu", (double)g_now, next++, (unsigned long long)nm); c.label("action"); } break; }
        case 5: case 6: { auto v = own(); if (!v.empty()) { E e = c.pick(v); Lever l; l.value = next++; l.force = (scalar)c.unit(); k.patch<Lever>(e, [&](Lever &x) { x.value = l.value; x.force = l.force; }); lever[name(k, e)] = l; c.label("input"); c.note("%.3f input %d of %llu", (double)g_now, l.value, (unsigned long long)name(k, e)); } break; }
        default: { std::vector<uint64_t> v; for (auto &[x, y] : lamp) v.push_back(x); if (!v.empty()) { auto nm = c.pick(v); E e = bodies(s)[nm][0]; s.patch<Lamp>(e, [&](Lamp &x) { x.value = next; }); lamp[nm] = next++; c.label("component"); } }
        }
        size_t t = c.size(0, 20); tick(); for (size_t j = 0; j < t; ++j) tick();
    }
    w.quiet = true; for (int i = 0; i < 200; ++i) tick();
    auto sb = bodies(s), kb = bodies(k); auto text = [](const std::vector<int> &v) { std::string o; for (int x : v) o += (o.empty() ? "" : " ") + std::to_string(x); return o; };
    for (auto nm : w.by_client) { REQUIRE(sb.count(nm), "body %llu is missing on the server", (unsigned long long)nm); REQUIRE(g_fired[nm] == fired[nm], "actions of body %llu: [%s] on the client, [%s] on the server", (unsigned long long)nm, text(fired[nm]).c_str(), text(g_fired[nm]).c_str()); REQUIRE(g_jumped[nm] == jumped[nm], "actions of body %llu: [%s] on the client, [%s] on the server", (unsigned long long)nm, text(jumped[nm]).c_str(), text(g_jumped[nm]).c_str()); if (!fired[nm].empty() || !jumped[nm].empty()) c.nontrivial();
        E e = sb[nm][0]; REQUIRE(s.all_of<Lever>(e), "body %llu has no input on the server", (unsigned long long)nm); auto &x = s.get<Lever>(e); REQUIRE(x.value == lever[nm].value && x.force == lever[nm].force, "input of body %llu is %d on the server, %d on the client", (unsigned long long)nm, x.value, lever[nm].value); if (kb.count(nm)) { auto &y = k.get<Lever>(kb[nm][0]); REQUIRE(y.value == lever[nm].value, "input of body %llu became %d on the client, set to %d", (unsigned long long)nm, y.value, lever[nm].value); } }
    auto &oi = s.get<aabb_of_interest>(w.client); for (auto &[nm, v] : lamp) { E e = sb[nm][0]; if (!oi.entities.contains(e)) continue; REQUIRE(kb.count(nm), "body %llu is missing on the client", (unsigned long long)nm); REQUIRE(k.all_of<Lamp>(kb[nm][0]), "component of body %llu is missing on the client", (unsigned long long)nm); REQUIRE(k.get<Lamp>(kb[nm][0]).value == v, "component of body %llu is %d on the client, %d on the server", (unsigned long long)nm, k.get<Lamp>(kb[nm][0]).value, v); c.nontrivial(); }
    unregister_networked_components(k); unregister_networked_components(s);
}

struct ClockLink { std::deque<std::pair<double, uint32_t>> up; double now = 0; std::function<double()> delay; double loss = 0; Case *c; void send(const packet::edyn_packet &p) { auto *r = std::get_if<packet::time_request>(&p.var); if (!r || c->unit() < loss) return; up.push_back({now + delay(), r->id}); } };
PBT(clock, 3000, 100000, "The clock was synchronized at least once") {
    ClockLink l; l.c = &c; clock_sync_data d; double offset = c.pick(std::vector<double>{0, 17.5, -1000, 1e5}) + c.uniform(-1, 1), base = c.uniform(0.001, 0.3), jit = c.chance(1, 3) ? 0 : c.uniform(0, 2), skew = c.chance(1, 3) ? 1 : c.uniform(0.2, 5), dup = c.chance(1, 2) ? 0 : 0.3, worst = 0; l.loss = c.chance(1, 2) ? 0 : c.uniform(0, 0.5); l.now = c.uniform(0, 1e4);
    l.delay = [&]() { double x = base * (1 + jit * c.unit()); worst = std::max(worst, x); return x; }; d.send_packet.connect<&ClockLink::send>(l); struct Res { double due; uint32_t id; double stamp; }; std::deque<Res> down; c.note("latency %g jitter %g down x%g loss %g offset %g", base, jit, skew, l.loss, offset);
    bool steady = jit == 0 && l.loss == 0; double t0 = l.now, rtt = base * (1 + skew) * (1 + jit), frame = c.uniform(0.002, 0.05); unsigned seen = 0; size_t n = 200 + c.size(0, 400);
    for (size_t i = 0; i < n; ++i) {
        double until = l.now + frame * (0.5 + c.unit());
        for (;;) { // events in order of time, until the next frame
            double nu = 1e300, nd = 1e300; size_t iu = 0, id_ = 0; for (size_t j = 0; j < l.up.size(); ++j) if (l.up[j].first < nu) { nu = l.up[j].first; iu = j; } for (size_t j = 0; j < down.size(); ++j) if (down[j].due < nd) { nd = down[j].due; id_ = j; }
            if (std::min(nu, nd) > until) break;
            if (nu <= nd) { l.now = nu; auto id = l.up[iu].second; l.up.erase(l.up.begin() + (long)iu); for (int copies = 1 + (c.unit() < dup); copies--;) { if (c.unit() < l.loss) continue; double x = skew * base * (1 + jit * c.unit()); worst = std::max(worst, x); down.push_back({nu + x, id, nu + offset}); } }
            else { l.now = nd; auto r = down[id_]; down.erase(down.begin() + (long)id_); packet::time_response res; res.id = r.id; res.timestamp = r.stamp; clock_sync_process_time_response(d, res, l.now); }
        }
        l.now = until; update_clock_sync(d, l.now, rtt);
        if (d.count > 0 || d.time_delta_sample_count > 0) { if (d.count > seen) c.nontrivial(); seen = d.count; double err = std::abs(d.time_delta - -offset); double lim = worst / 2 + 1e-6 + 1e-12 * std::abs(offset); if (steady) lim = std::min(lim, base * std::abs(1 - skew) / 2 + 1e-6 + 1e-12 * std::abs(offset)); REQUIRE(err <= lim, "clock is off by %g, latency at most %g", err, worst); }
        if (steady && l.now - t0 > 5 * (2 * rtt + d.delay + 3 * 0.075) + 1) REQUIRE(d.count > 0, "clock has not been synchronized after %g s with a steady latency of %g", l.now - t0, base);
    }
    c.label_if(steady, "steady"); c.label_if(d.count > 0, "synchronized");
}
