// P33: bodies that touch or are joined exchange momentum without creating any; contacts carry, rub, roll and bounce as their materials say. Oracle: conservation laws and closed-form mechanics in extended precision.
#include "harness/world.hpp"
#include <functional>
using namespace edyn; using namespace wld; using pbt::Case; using orc::EPS; using orc::Q; using orc::toq;
static const R DT = (R)(scalar)(1.0 / 60);
static V P(entt::registry &r, E e) { return tov(r.get<position>(e)); } static V LV(entt::registry &r, E e) { return tov(r.get<linvel>(e)); } static V AV(entt::registry &r, E e) { return tov(r.get<angvel>(e)); }
static material mat(Case &c, bool soft) { material m; m.friction = (scalar)(c.chance(1, 5) ? 0 : c.uniform(0, 1.5)); m.restitution = (scalar)(c.boolean() ? 0 : c.uniform(0, 1)); if (c.chance(1, 3)) m.roll_friction = (scalar)c.uniform(0, 0.1); if (c.chance(1, 3)) m.spin_friction = (scalar)c.uniform(0, 0.1); if (soft && c.chance(1, 4)) { m.stiffness = (scalar)c.positive(100, 20000); m.damping = (scalar)c.positive(1, 500); } return m; }
static matrix3x3 rotm(Case &c) { return to_matrix3x3(gen::orient(c)); }
static scalar lim(Case &c) { return c.boolean() ? 0 : (scalar)c.uniform(0, 10); }
// A constraint of any type and configuration, as a recipe that can be applied to several worlds.
using Recipe = std::function<void(entt::registry &)>;
template <class K> static Recipe bind(K k, E a, E b) { return [=](entt::registry &r) { make_constraint<K>(r, a, b, [&](K &x) { auto body = x.body; x = k; x.body = body; if constexpr (std::is_same_v<K, hinge_constraint> || std::is_same_v<K, cvjoint_constraint>) x.reset_angle(r.get<orientation>(a), r.get<orientation>(b)); }); }; }
static Recipe joint(Case &c, E a, E b) { auto pv = [&](auto &k) { k.pivot = {gen::vec(c, 0.7), gen::vec(c, 0.7)}; };
    switch (c.draw(7)) { case 0: { point_constraint k{}; pv(k); k.friction_torque = lim(c); c.note("point"); return bind(k, a, b); } case 1: { distance_constraint k{}; pv(k); k.distance = (scalar)c.uniform(0.1, 2); c.note("distance"); return bind(k, a, b); } case 2: { soft_distance_constraint k{}; pv(k); k.distance = (scalar)c.uniform(0, 2); k.stiffness = (scalar)c.uniform(0, 200); k.damping = (scalar)c.uniform(0, 20); c.note("spring"); return bind(k, a, b); }
    case 3: { hinge_constraint k{}; pv(k); k.frame = {rotm(c), rotm(c)}; if (c.boolean()) { k.angle_min = (scalar)c.uniform(-3, 0); k.angle_max = (scalar)c.uniform(0, 3) + (scalar)0.1; k.limit_restitution = (scalar)c.uniform(0, 1); k.bump_stop_angle = (scalar)c.uniform(0, 0.5); k.bump_stop_stiffness = lim(c); } k.torque = lim(c); k.speed = lim(c); k.stiffness = lim(c); k.damping = lim(c); c.note("hinge"); return bind(k, a, b); }
    case 4: { cvjoint_constraint k{}; pv(k); k.frame = {rotm(c), rotm(c)}; if (c.boolean()) { k.twist_min = (scalar)c.uniform(-3, 0); k.twist_max = (scalar)c.uniform(0, 3) + (scalar)0.1; k.twist_bump_stop_angle = (scalar)c.uniform(0, 0.5); k.twist_bump_stop_stiffness = lim(c); } k.twist_friction_torque = lim(c); k.twist_stiffness = lim(c); k.twist_damping = lim(c); k.rest_direction = gen::dir(c); k.bend_stiffness = lim(c); k.bend_friction_torque = lim(c); k.bend_damping = lim(c); c.note("cvjoint"); return bind(k, a, b); }
    case 5: { generic_constraint k{}; pv(k); k.frame = {rotm(c), rotm(c)}; for (auto &d : k.linear_dofs) { d.limit_enabled = c.boolean(); if (c.boolean()) { d.offset_min = (scalar)c.uniform(-1, 0); d.offset_max = (scalar)c.uniform(0, 1); } d.bump_stop_length = (scalar)c.uniform(0, 0.3); d.bump_stop_stiffness = lim(c); d.friction_force = lim(c); d.damping = lim(c); d.spring_stiffness = lim(c); d.rest_offset = (scalar)c.uniform(-1, 1); } for (auto &d : k.angular_dofs) { d.limit_enabled = c.boolean(); if (c.boolean()) { d.angle_min = (scalar)c.uniform(-1, 0); d.angle_max = (scalar)c.uniform(0, 1); } d.bump_stop_angle = (scalar)c.uniform(0, 0.3); d.bump_stop_stiffness = lim(c); d.friction_torque = lim(c); d.damping = lim(c); d.spring_stiffness = lim(c); } c.note("generic"); return bind(k, a, b); }
    default: { cone_constraint k{}; pv(k); k.frame = rotm(c); k.span_tan = {(scalar)c.uniform(0.2, 2), (scalar)c.uniform(0.2, 2)}; k.restitution = (scalar)c.uniform(0, 1); k.bump_stop_length = (scalar)c.uniform(0, 0.3); k.bump_stop_stiffness = lim(c); c.note("cone"); return bind(k, a, b); } } }
struct Sum { V p{}, x{}; R m = 0, mag = 0; };
static Sum sum(entt::registry &r, const std::vector<E> &b) { Sum s; for (E e : b) { R m = r.get<mass>(e); V v = LV(r, e), x = P(r, e); s.p = s.p + v * m; s.x = s.x + x * m; s.m += m; s.mag += m * orc::len(v); } s.x = s.x / s.m; return s; }
static std::vector<rigidbody_def> defs(Case &c, int n, bool soft, bool coms) { std::vector<rigidbody_def> b; for (int i = 0; i < n; ++i) { rigidbody_def d; d.position = gen::vec(c, 1.2); d.orientation = gen::orient(c); d.mass = (scalar)c.positive(0.3, 5); d.linvel = gen::vec(c, 2); d.angvel = gen::vec(c, 2); d.shape = solid(c); d.material = mat(c, soft); d.sleeping_disabled = true; if (coms && c.chance(1, 4)) d.center_of_mass = gen::vec(c, 0.2); b.push_back(d); c.note("body at " VF " v " VF " w " VF " mass %g", VA(d.position), VA(d.linvel), VA(d.angvel), (double)d.mass); } return b; }
static std::vector<E> cluster(Case &c, entt::registry &r, int n, bool soft, bool coms) { std::vector<E> b; for (auto &d : defs(c, n, soft, coms)) b.push_back(make_rigidbody(r, d)); return b; }

PBT(momentum, 30000, 1000000, "bodies changed each other's velocities") {
    World w; auto &r = w.reg; set_gravity(r, vector3_zero); int n = (int)c.size(2, 5); auto b = cluster(c, r, n, true, true); int j = (int)c.size(0, 3); for (int i = 0; i < j; ++i) { size_t x = c.draw((uint64_t)n), y = c.draw((uint64_t)n); if (x != y) joint(c, b[x], b[y])(r); } if (c.chance(1, 3)) set_solver_velocity_iterations(r, (unsigned)c.integer(1, 20)); if (c.chance(1, 3)) set_solver_position_iterations(r, (unsigned)c.integer(0, 5)); if (c.chance(1, 4)) set_solver_restitution_iterations(r, (unsigned)c.integer(0, 8));
    int steps = (int)c.integer(1, 30); Sum s0 = sum(r, b); std::vector<V> v0; for (E e : b) v0.push_back(LV(r, e)); R worst = s0.mag; bool changed = false;
    for (int i = 0; i < steps; ++i) { Sum a = sum(r, b); w.step((double)DT); for (E e : b) REQUIRE(orc::finite(r.get<position>(e)) && orc::finite(r.get<linvel>(e)) && orc::finite(r.get<angvel>(e)), "step %d: state of body %u is not finite", i, id(e)); Sum z = sum(r, b); worst = std::max(worst, z.mag); R fast = 0; for (E e : b) fast = std::max({fast, orc::len(LV(r, e)), orc::len(AV(r, e))}); if (fast > 60) break; /* singular configuration, e.g. a distance joint whose pivots coincide */ R far = 0; for (E e : b) far = std::max(far, orc::len(P(r, e))); REQUIRE(orc::dist(z.p, s0.p) <= 200 * EPS * (i + 1) * (worst + s0.m), "step %d: total momentum " VF " became " VF, i, VA(s0.p), VA(z.p)); V x = a.x + z.p / z.m * DT; REQUIRE(orc::dist(z.x, x) <= 100 * EPS * (1 + far + worst / z.m), "step %d: center of mass of all bodies moved to " VF " instead of " VF, i, VA(z.x), VA(x)); }
    for (size_t i = 0; i < b.size(); ++i) if (orc::dist(LV(r, b[i]), v0[i]) > 1e-3L) changed = true; c.nontrivial(changed); c.label_if(j > 0, "joints");
}

// The same history in two worlds.
static void twins(Case &c, execution_mode m1, execution_mode m2) {
    World w1(m1), w2(m2); vector3 g = c.boolean() ? vector3{0, (scalar)-9.8, 0} : vector3_zero; set_gravity(w1.reg, g); set_gravity(w2.reg, g); int n = (int)c.size(2, 8), steps = (int)c.integer(2, 40); auto ds = defs(c, n, true, true); std::vector<E> b, b2; if (c.boolean()) { rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.position = {0, -2, 0}; d.shape = ground(c); d.material = mat(c, false); ds.push_back(d); } if (c.chance(1, 3)) for (auto &d : ds) d.sleeping_disabled = false;
    for (auto &d : ds) { b.push_back(make_rigidbody(w1.reg, d)); b2.push_back(make_rigidbody(w2.reg, d)); } int j = (int)c.size(0, 3); std::vector<Recipe> js; for (int i = 0; i < j; ++i) { size_t x = c.draw((uint64_t)n), y = c.draw((uint64_t)n); if (x != y) { REQUIRE(b[x] == b2[x] && b[y] == b2[y], "entities differ"); auto f = joint(c, b[x], b[y]); f(w1.reg); f(w2.reg); } }
    bool contact = false; for (int i = 0; i < steps; ++i) { if (c.chance(1, 10)) { size_t k = c.draw((uint64_t)n); vector3 im = gen::vec(c, 2); for (auto *w : {&w1, &w2}) rigidbody_apply_impulse(w->reg, b[k], im, vector3_zero); } if (c.chance(1, 15) && b.size() > 2) { size_t k = c.draw((uint64_t)b.size()); if (w1.reg.all_of<dynamic_tag>(b[k])) for (auto *w : {&w1, &w2}) wake_up_entity(w->reg, b[k]); } w1.step((double)DT); w2.step((double)DT); if (!w1.reg.view<contact_point>().empty()) contact = true;
        for (size_t k = 0; k < (size_t)n; ++k) { auto same = [&](const auto &x, const auto &y) { return std::memcmp(&x, &y, sizeof x) == 0; }; auto &q = w1.reg; auto &z = w2.reg; REQUIRE(same(q.get<position>(b[k]), z.get<position>(b2[k])) && same(q.get<orientation>(b[k]), z.get<orientation>(b2[k])) && same(q.get<linvel>(b[k]), z.get<linvel>(b2[k])) && same(q.get<angvel>(b[k]), z.get<angvel>(b2[k])), "step %d: body %zu is at " VF " in one world and at " VF " in another with the same history, velocities " VF " and " VF, i, k, VA(q.get<position>(b[k])), VA(z.get<position>(b2[k])), VA(q.get<linvel>(b[k])), VA(z.get<linvel>(b2[k]))); REQUIRE(q.all_of<sleeping_tag>(b[k]) == z.all_of<sleeping_tag>(b2[k]), "step %d: body %zu sleeps in only one of two worlds with the same history", i, k); } }
    c.nontrivial(contact || j > 0); c.label_if(j > 0, "joints"); }
PBT(deterministic, 6000, 300000, "bodies touched or were joined") { twins(c, execution_mode::sequential, execution_mode::sequential); }
PBT(threads_agree, 1500, 100000, "bodies touched or were joined") { twins(c, execution_mode::sequential, execution_mode::sequential_multithreaded); }

static R kinetic(entt::registry &r, E e) { V v = LV(r, e), w = AV(r, e); auto &I = r.get<inertia_world_inv>(e); (void)I; auto &Il = r.get<inertia>(e); Q q = toq(r.get<orientation>(e)); V l = orc::rot(orc::conj(q), w); R a[3] = {l.x, l.y, l.z}, s = 0; for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) s += a[i] * (R)Il[i][k] * a[k]; return (R)r.get<mass>(e) * orc::dot(v, v) / 2 + s / 2; }
// Hard bodies that collide without joints: kinetic energy does not grow. Bodies of isotropic inertia, since no gyroscopic torque is modelled.
PBT(energy, 20000, 600000, "bodies changed each other's velocities") {
    World w; auto &r = w.reg; set_gravity(r, vector3_zero); auto ds = defs(c, (int)c.size(2, 4), false, false); std::vector<E> b; for (auto &d : ds) { scalar h = (scalar)c.uniform(0.2, 0.6); if (c.boolean()) d.shape = sphere_shape{h}; else d.shape = box_shape{vector3{h, h, h}}; b.push_back(make_rigidbody(r, d)); } R e0 = 0; for (E e : b) e0 += kinetic(r, e); std::vector<V> v0; for (E e : b) v0.push_back(LV(r, e)); int steps = (int)c.integer(1, 40); R first = e0; bool changed = false;
    for (int i = 0; i < steps; ++i) { w.step((double)DT); R k = 0; for (E e : b) k += kinetic(r, e); R wm = 0; for (E e : b) wm = std::max(wm, orc::len(AV(r, e))); REQUIRE(k <= e0 + (b.size() > 2 ? 1e-2L : 1e-5L) * first + 1e-5L, "step %d: kinetic energy grew from %Lg to %Lg without any force", i, e0, k); e0 = k; }
    for (size_t i = 0; i < b.size(); ++i) if (orc::dist(LV(r, b[i]), v0[i]) > 1e-3L) changed = true; c.nontrivial(changed); }

static E floor_(Case &c, entt::registry &r, const material &m, V up = {0, 1, 0}) { rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.material = m; (void)up; if (c.boolean()) d.shape = plane_shape{vector3_y, 0}; else { d.shape = box_shape{vector3{50, 1, 50}}; d.position = {0, -1, 0}; } d.sleeping_disabled = true; return make_rigidbody(r, d); }
// Materials whose mixture is known, through the materials themselves or through the table of mixtures.
struct Mix { material a, b; scalar friction, restitution, roll, spin; };
static Mix mixed(Case &c, entt::registry &r, scalar mu, scalar e, scalar roll, scalar spin) { Mix m; m.friction = mu; m.restitution = e; m.roll = roll; m.spin = spin; if (c.chance(1, 3)) { m.a.id = (material::id_type)c.draw(5); m.b.id = (material::id_type)c.draw(5); material_base t; t.friction = mu; t.restitution = e; t.roll_friction = roll; t.spin_friction = spin; if (m.a.id != m.b.id && c.boolean()) insert_material_mixing(r, m.b.id, m.a.id, t); else insert_material_mixing(r, m.a.id, m.b.id, t); m.a.friction = (scalar)c.uniform(0, 1); m.b.friction = (scalar)c.uniform(0, 1); m.a.restitution = (scalar)c.uniform(0, 1); m.b.restitution = (scalar)c.uniform(0, 1); c.note("mixture of materials %d and %d", m.a.id, m.b.id); } else { scalar f = (scalar)c.uniform(0.5, 2); m.a.friction = mu * f; m.b.friction = mu / f; m.a.restitution = e; m.b.restitution = e + (scalar)c.uniform(0, 0.3); m.a.roll_friction = roll; m.b.roll_friction = roll * (scalar)c.uniform(0, 1); m.a.spin_friction = spin * (scalar)c.uniform(0, 1); m.b.spin_friction = spin; } if (c.boolean()) std::swap(m.a, m.b); return m; }

PBT(bounce, 20000, 600000, "a collision happened") {
    World w; auto &r = w.reg; set_gravity(r, vector3_zero); scalar e = (scalar)(c.chance(1, 4) ? 0 : c.chance(1, 4) ? 1 : c.uniform(0, 1)); Mix mx = mixed(c, r, (scalar)c.uniform(0, 1), e, 0, 0); scalar rad = (scalar)c.uniform(0.2, 0.6); scalar speed = (scalar)c.positive(0.5, 8); bool pair = c.boolean(); E a, b; V n; vector3 dir;
    rigidbody_def d; d.shape = sphere_shape{rad}; d.material = mx.b; d.mass = (scalar)c.positive(0.2, 5); d.sleeping_disabled = true; if (pair) { scalar rad2 = (scalar)c.uniform(0.2, 0.6); dir = gen::dir(c); rigidbody_def o = d; o.shape = sphere_shape{rad2}; o.material = mx.a; o.mass = (scalar)c.positive(0.2, 5); o.linvel = gen::vec(c, 2); bool wall = c.chance(1, 4); if (wall) { o.kind = rigidbody_kind::rb_static; o.linvel = vector3_zero; } a = make_rigidbody(r, o); d.position = dir * (rad + rad2 + (scalar)c.uniform(0.05, 1)); d.linvel = o.linvel - dir * speed; b = make_rigidbody(r, d); n = tov(dir); c.note("spheres of radius %g mass %g and %g mass %g along " VF " speed %g restitution %g", (double)rad2, wall ? INFINITY : (double)o.mass, (double)rad, (double)d.mass, VA(dir), (double)speed, (double)e); }
    else { a = floor_(c, r, mx.a); d.position = {0, rad + (scalar)c.uniform(0.05, 1), 0}; d.linvel = {(scalar)c.uniform(-2, 2), -speed, (scalar)c.uniform(-2, 2)}; b = make_rigidbody(r, d); n = {0, 1, 0}; c.note("sphere of radius %g on floor, velocity " VF " restitution %g", (double)rad, VA(d.linvel), (double)e); }
    int hit = 0; for (int i = 0; i < 240; ++i) { w.step((double)DT); V va = r.all_of<static_tag>(a) ? V{} : LV(r, a); R s = orc::dot(LV(r, b) - va, n); if (s < -(R)speed * 0.999L) continue; if (++hit < 12) continue; REQUIRE(s - (R)e * speed <= 0.01L * speed + 1e-3L && (s - (R)e * speed >= -0.01L * speed - 1e-3L || (i < 239 && s >= -0.2L * speed && e < 0.1L)), "step %d: bodies of restitution %g that met at speed %g part at speed %Lg", i, (double)e, (double)speed, s); }
    REQUIRE(hit, "bodies passed through each other"); c.nontrivial(true); c.label_if(pair, "pair"); }

PBT(sliding, 10000, 300000, "the body slid") {
    World w; auto &r = w.reg; scalar mu = (scalar)(c.chance(1, 8) ? 0 : c.uniform(0, 0.8)), g = (scalar)c.uniform(5, 15), ang = (scalar)(c.boolean() ? 0 : c.uniform(0, 0.6)), az; bool al = c.boolean(); if (al) az = (scalar)((double)c.draw(4) * 1.5707963267948966); else az = (scalar)c.uniform(0, 6.28); R tol = al ? 0.06L : 0.3L; /* friction of a box that slides askew to the axes of the tangent space is only approximate */ Mix mx = mixed(c, r, mu, 0, 0, 0); vector3 down{g * std::sin(ang) * std::cos(az), -g * std::cos(ang), g * std::sin(ang) * std::sin(az)}; set_gravity(r, down); bool first = c.boolean(); E b; vector3 h{(scalar)c.uniform(0.3, 0.8), (scalar)c.uniform(0.05, 0.12), (scalar)c.uniform(0.3, 0.8)}; rigidbody_def d; d.shape = box_shape{h}; d.position = {0, h.y, 0}; d.orientation = quaternion_axis_angle(vector3_y, (scalar)c.uniform(-3, 3)); d.material = mx.b; d.mass = (scalar)c.positive(0.5, 20); d.sleeping_disabled = true; V dir = orc::unit(V{(R)std::cos(az), 0, (R)std::sin(az)}); R v0 = c.boolean() ? 0 : c.uniform(0.5, 4); d.linvel = {(scalar)(dir.x * v0), 0, (scalar)(dir.z * v0)}; d.gravity = {}; if (first) floor_(c, r, mx.a); b = make_rigidbody(r, d); if (!first) floor_(c, r, mx.a);
    c.note("friction %g gravity %g slope %g speed %Lg box " VF, (double)mu, (double)g, (double)ang, v0, VA(h)); R fa = (R)g * std::sin((R)ang), fr = (R)mu * g * std::cos((R)ang), v = v0; if (v0 == 0 && std::fabs(fa - fr) < 0.1L * g * std::max((R)mu, (R)0.1L)) c.discard(); if (v0 > 0 && std::fabs(fa - fr) < 0.05L * g) c.discard();
    for (int i = 0; i < 60; ++i) { w.step((double)DT); R acc = fa - fr; if (v > 0 || fa > fr) { v += acc * DT; if (v < 0) v = 0; } V vel = LV(r, b); R s = orc::dot(vel, dir); REQUIRE(std::fabs(s - v) <= tol * (R)g * DT * (i + 1) + 0.15L * (R)g * DT + 0.02L, "step %d: speed of body that slides with friction %g is %Lg instead of %Lg", i, (double)mu, s, v); REQUIRE(orc::dist(vel, dir * s) <= 0.05L + tol / 3 * (v0 + (R)g), "step %d: body leaves the direction of its motion, velocity " VF, i, VA(vel)); }
    c.nontrivial(v0 > 0 || fa > fr); c.label_if(fa > fr, "slides down"); c.label_if(v == 0, "rests"); }

PBT(rolling, 10000, 300000, "there was friction against rolling or spinning") {
    World w; auto &r = w.reg; scalar g = (scalar)c.uniform(5, 15); set_gravity(r, {0, -g, 0}); bool cyl = c.boolean(), spin = !cyl && c.boolean(); scalar co = (scalar)(c.chance(1, 8) ? 0 : c.uniform(0.005, 0.08)); Mix mx = mixed(c, r, 1, 0, spin ? 0 : co, spin ? co : 0); bool first = c.boolean(); scalar rad = (scalar)c.uniform(0.2, 0.6), yaw = (scalar)c.uniform(-3, 3); quaternion q = quaternion_axis_angle(vector3_y, yaw); rigidbody_def d; d.mass = (scalar)c.positive(0.5, 20); d.position = {0, rad, 0}; d.sleeping_disabled = true; d.material = mx.b; coordinate_axis ax = axis(c); vector3 la = coordinate_axis_vector(ax), roll; if (cyl) { quaternion lay = ax == coordinate_axis::y ? quaternion_axis_angle(vector3_z, pi / 2) : quaternion_identity; d.orientation = q * lay; d.shape = cylinder_shape{rad, (scalar)c.uniform(0.2, 0.6), ax}; roll = rotate(d.orientation, la); } else { d.orientation = gen::orient(c); d.shape = sphere_shape{rad}; roll = rotate(q, vector3_x); }
    R om = c.uniform(2, 8); if (spin) { d.angvel = {0, (scalar)om, 0}; } else { d.angvel = roll * (scalar)om; d.linvel = cross(d.angvel, vector3{0, rad, 0}); } if (first) floor_(c, r, mx.a); E b = make_rigidbody(r, d); if (!first) floor_(c, r, mx.a); c.note("%s radius %g mass %g, %s %g, yaw %g axis %d, %Lg rad/s", cyl ? "cylinder" : "sphere", (double)rad, (double)d.mass, spin ? "spin friction" : "roll friction", (double)co, (double)yaw, (int)ax, om);
    R I = cyl ? 0.5L : 0.4L, dec = spin ? (R)co * g / (I * rad * rad) : (R)co * g / (rad * rad) / (1 + I); R lo = cyl ? 0.15L : 1; /* the axes of friction of shapes that only roll one way are scaled down by their alignment */ V n = spin ? V{0, 1, 0} : tov(roll);
    for (int i = 0; i < 40; ++i) { w.step((double)DT); R t = (i + 1) * DT, s = orc::dot(AV(r, b), n); REQUIRE(s <= std::max((R)0, om - 0.93L * lo * dec * t) + 0.01L * om + 0.01L, "step %d: body turns at %Lg rad/s, friction should have slowed it down to %Lg", i, s, om - lo * dec * t); REQUIRE(s >= std::max((R)0, om - 1.07L * dec * t) - 0.01L * om - 0.01L - 1.2L * dec * DT, "step %d: body turns at %Lg rad/s, friction can only have slowed it down to %Lg", i, s, om - dec * t); }
    c.nontrivial(co > 0); c.label_if(spin, "spin"); c.label_if(cyl, "cylinder"); }

PBT(rest, 3000, 100000, "the body came to rest on the ground") {
    World w; auto &r = w.reg; material m; m.friction = (scalar)c.uniform(0.4, 1); m.restitution = (scalar)(c.boolean() ? 0 : c.uniform(0, 0.5)); m.roll_friction = (scalar)0.02; int n = (int)c.size(1, 3); floor_(c, r, m); std::vector<E> b; for (int i = 0; i < n; ++i) { rigidbody_def d; d.position = {(scalar)(i * 4), 1, 0}; d.orientation = gen::orient(c); d.shape = solid(c, false); d.material = m; d.mass = (scalar)c.positive(0.5, 5); d.linvel = gen::vec(c, 1); d.angvel = gen::vec(c, 2); d.position.y = -shape_aabb(*d.shape, d.position, d.orientation).min.y + 1 + (scalar)c.uniform(0.02, 0.5); b.push_back(make_rigidbody(r, d)); }
    for (int i = 0; i < 300; ++i) { w.step((double)DT); for (E e : b) { REQUIRE(orc::finite(r.get<position>(e)), "step %d: position not finite", i); REQUIRE((R)r.get<AABB>(e).min.y >= -0.5L - (i < 2 ? 5 : 0), "step %d: body sank to %g", i, (double)r.get<AABB>(e).min.y); } }
    R sp = 0; for (E e : b) { R y = r.get<AABB>(e).min.y; R v = orc::len(LV(r, e)); sp = std::max(sp, v); REQUIRE(y >= -0.05L, "body rests %Lg below the ground", -y); }
    c.nontrivial(sp < 0.1L); }

PBT(stack, 1500, 50000, "two or more boxes were stacked") {
    World w; auto &r = w.reg; material m; m.friction = (scalar)c.uniform(0.3, 1); if (c.boolean()) floor_(c, r, m); int n = (int)c.integer(1, 4); std::vector<E> b; scalar y = 0; std::vector<V> p; bool first = r.view<static_tag>().empty(); for (int i = 0; i < n; ++i) { vector3 h{(scalar)c.uniform(0.3, 0.6), (scalar)c.uniform(0.15, 0.4), (scalar)c.uniform(0.3, 0.6)}; rigidbody_def d; d.shape = box_shape{h}; d.mass = (scalar)c.positive(0.7, 2); d.material = m; d.position = {0, y + h.y, 0}; y += 2 * h.y; d.orientation = quaternion_axis_angle(vector3_y, (scalar)c.uniform(-3, 3)); b.push_back(make_rigidbody(r, d)); p.push_back(P(r, b.back())); c.note("box " VF, VA(h)); } if (first) floor_(c, r, m);
    int steps = (int)c.integer(10, 300); R worst = 0; for (int i = 0; i < steps; ++i) { w.step((double)DT); for (size_t k = 0; k < b.size(); ++k) { R m2 = orc::dist(P(r, b[k]), p[k]); worst = std::max(worst, m2); REQUIRE(m2 <= 0.05L, "step %d: box %zu of a stack of %d moved %Lg away", i, k, n, m2); } } c.nontrivial(n > 1); }

PBT(clear, 3000, 100000, "a joint had applied an impulse") {
    World w; auto &r = w.reg; auto b = cluster(c, r, 2, false, true); int j = (int)c.size(1, 3); for (int i = 0; i < j; ++i) joint(c, b[0], b[1])(r); w.step((double)DT); std::vector<E> es; R before = 0, after = 0; bool clean = false;
    auto all = [&] { R s = 0; auto add = [&](R x) { s += std::fabs(x); }; for (auto e : r.view<generic_constraint>()) { auto &k = r.get<generic_constraint>(e); if (!clean) es.push_back(e); for (auto &d : k.linear_dofs) { if (d.limit_enabled) add(d.applied_impulse.limit); if (d.spring_stiffness > 0) add(d.applied_impulse.spring); } for (auto &d : k.angular_dofs) { if (d.limit_enabled) add(d.applied_impulse.limit); if (d.spring_stiffness > 0) add(d.applied_impulse.spring); } } for (auto e : r.view<point_constraint>()) { if (!clean) es.push_back(e); for (auto x : r.get<point_constraint>(e).applied_impulse) add(x); } for (auto e : r.view<hinge_constraint>()) { if (!clean) es.push_back(e); for (auto x : r.get<hinge_constraint>(e).applied_impulse.linear) add(x); } for (auto e : r.view<distance_constraint>()) { if (!clean) es.push_back(e); add(r.get<distance_constraint>(e).applied_impulse); } return s; };
    before = all(); clean = true; clear_applied_impulses(r, es.begin(), es.end()); after = all(); REQUIRE(after == 0, "impulses of joints are still %Lg after being cleared", after); c.nontrivial(before > 0); }
