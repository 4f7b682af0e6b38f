// P31: motion of bodies that touch nothing, and the functions which read and change their state. Oracle: the equations of motion in extended precision.
#include "harness/world.hpp"
#include "edyn/comp/present_orientation.hpp"
#include "edyn/comp/present_position.hpp"
#include "edyn/context/step_callback.hpp"
using namespace edyn; using namespace wld; using pbt::Case; using orc::EPS; using orc::Q; using orc::toq;
static unsigned steps_done; static std::vector<int> order; static void before(entt::registry &) { order.push_back(0); } static void after(entt::registry &) { ++steps_done; order.push_back(1); }
static R qdist(Q a, Q b) { R d = 0, s = 0; R pa[4] = {a.x, a.y, a.z, a.w}, pb[4] = {b.x, b.y, b.z, b.w}; for (int i = 0; i < 4; ++i) { d += (pa[i] - pb[i]) * (pa[i] - pb[i]); s += (pa[i] + pb[i]) * (pa[i] + pb[i]); } return std::sqrt(std::min(d, s)); }
static Q turn(Q q, V w, R dt) { R l = orc::len(w); Q r{0, 0, 0, 1}; if (l > 1e-12L) { V a = w * (std::sin(l * dt / 2) / l); r = {a.x, a.y, a.z, std::cos(l * dt / 2)}; } Q o = r * q; R n = orc::len(o); return {o.x / n, o.y / n, o.z / n, o.w / n}; }
static matrix3x3 tensor(Case &c) { scalar a = gen::pos(c, 0.2, 3), b = gen::pos(c, 0.2, 3), d = (scalar)std::abs((double)(a - b)) + (scalar)c.uniform(0.05, 1) * (a + b - (scalar)std::abs((double)(a - b))); matrix3x3 m = diagonal_matrix({a, b, d}); if (c.boolean()) { auto r = to_matrix3x3(gen::orient(c)); m = r * m * transpose(r); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) m[i][j] = m[j][i]; } return m; }
struct Mo { E e; V p, v, w, com, g; Q q; R m; matrix3x3 I; bool hascom, dynamic; R err = 1; V origin() const { return p - orc::rot(q, com); } };
static V solve(const matrix3x3 &m, V b) { orc::M a = orc::tom(m); R d = orc::dot(a.r[0], orc::cross(a.r[1], a.r[2])); V c0{a.r[0].x, a.r[1].x, a.r[2].x}, c1{a.r[0].y, a.r[1].y, a.r[2].y}, c2{a.r[0].z, a.r[1].z, a.r[2].z}; return V{orc::dot(b, orc::cross(c1, c2)), orc::dot(c0, orc::cross(b, c2)), orc::dot(c0, orc::cross(c1, b))} / d; }
static V inv_world(const Mo &b, V t) { return orc::rot(b.q, solve(b.I, orc::rot(orc::conj(b.q), t))); }
static void compare(Case &c, entt::registry &r, const Mo &b, R steps, bool fresh = true) { R k = 64 * EPS * (1 + steps) * b.err; V p = tov(r.get<position>(b.e)); Q q = toq(r.get<orientation>(b.e)); R mag = 1 + orc::len(b.p) + orc::len(b.v) + orc::len(b.w) * (1 + orc::len(b.com));
    REQUIRE(orc::dist(p, b.p) <= k * mag * 4, "body %u at " VF " instead of " VF, id(b.e), VA(p), VA(b.p)); REQUIRE(qdist(q, b.q) <= k * (1 + orc::len(b.w)) * 4, "body %u turned " QF " instead of " QF, id(b.e), QA(q), QA(b.q));
    REQUIRE(std::abs(orc::len(q) - 1) <= 16 * EPS, "orientation of body %u is not a unit quaternion", id(b.e));
    if (b.dynamic || r.all_of<kinematic_tag>(b.e)) { REQUIRE(orc::dist(tov(r.get<linvel>(b.e)), b.v) <= k * mag * 4, "velocity of body %u is " VF " instead of " VF, id(b.e), VA(r.get<linvel>(b.e)), VA(b.v)); REQUIRE(orc::dist(tov(r.get<angvel>(b.e)), b.w) <= k * mag * 4, "angular velocity of body %u is " VF " instead of " VF, id(b.e), VA(r.get<angvel>(b.e)), VA(b.w)); }
    REQUIRE(orc::dist(tov(get_rigidbody_origin(r, b.e)), b.origin()) <= k * mag * 4, "origin of body %u is " VF " instead of " VF, id(b.e), VA(get_rigidbody_origin(r, b.e)), VA(b.origin())); REQUIRE(r.all_of<origin>(b.e) == r.all_of<center_of_mass>(b.e), "origin without center of mass or vice versa"); if (fresh && r.all_of<origin>(b.e)) REQUIRE(orc::dist(tov(r.get<origin>(b.e)), b.origin()) <= k * mag * 4, "stored origin of body %u is " VF " instead of " VF, id(b.e), VA(r.get<origin>(b.e)), VA(b.origin()));
    if (b.dynamic) { REQUIRE(std::abs((R)r.get<mass>(b.e) * r.get<mass_inv>(b.e) - 1) <= 4 * EPS && std::abs((R)r.get<mass>(b.e) - b.m) <= 4 * EPS * b.m, "mass"); R lo = std::min({(R)b.I[0][0], (R)b.I[1][1], (R)b.I[2][2]}); for (int i = 0; i < 3; ++i) { V t{}; t[i] = 1; V got = orc::tom(r.get<inertia_world_inv>(b.e)) * t, want = inv_world(b, t); REQUIRE(orc::dist(got, want) <= 1e3L * EPS * (1 + steps) * b.err * (1 + orc::len(b.w)) * (1 + orc::len(want)) / (lo * lo), "inverse inertia of body %u, column %d: " VF " instead of " VF, id(b.e), i, VA(got), VA(want)); } } }

PBT(free_motion, 100000, 3000000, "a dynamic body was updated for several steps and changed in between") {
    static const double dts[] = {1.0 / 60, 1.0 / 120, 1.0 / 30, 0.01, 0.005}; double dt = (double)(scalar)dts[c.draw(5)]; entt::registry r; init_config cfg; cfg.execution_mode = execution_mode::sequential; cfg.timestamp = 0.0; cfg.fixed_dt = (scalar)dt; attach(r, cfg); struct D { entt::registry &r; ~D() { detach(r); } } de{r}; set_pre_step_callback(r, &before); set_post_step_callback(r, &after); steps_done = 0; order.clear();
    double t = 0, acc = 0; bool paused = false; unsigned most = 10; V def{0, (R)gravity_earth.y, 0}; def = tov(get_gravity(r)); std::vector<Mo> b; int n = (int)c.size(1, 3), ops = (int)c.size(2, 14); R total = 0; bool changed = false; unsigned expected = 0; double tick = 0;
    for (int i = 0; i < n; ++i) { rigidbody_def d; int kd = (int)c.draw(6); d.kind = kd < 4 ? rigidbody_kind::rb_dynamic : kd == 4 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.position = gen::vec(c, 10) + vector3{(scalar)(100 * i), 0, 0}; d.orientation = gen::orient(c); d.mass = gen::pos(c, 0.2, 10); if (d.kind != rigidbody_kind::rb_static) { d.linvel = gen::vec(c, 3); d.angvel = gen::vec(c, 3); } d.sleeping_disabled = true; d.collision_mask = 0; bool shaped = c.boolean(); Mo m; m.I = tensor(c); d.inertia = m.I; if (shaped) d.shape = solid(c); if (c.boolean()) d.gravity = c.boolean() ? vector3_zero : gen::vec(c, 10); m.com = {}; m.hascom = c.chance(1, 3); if (m.hascom) { d.center_of_mass = gen::vec(c, 0.5); if (*d.center_of_mass == vector3_zero) m.hascom = false; }
        m.e = make_rigidbody(r, d); m.dynamic = d.kind == rigidbody_kind::rb_dynamic; m.q = toq(d.orientation); R ql = orc::len(m.q); m.q = {m.q.x / ql, m.q.y / ql, m.q.z / ql, m.q.w / ql}; if (m.hascom) m.com = tov(*d.center_of_mass); m.p = tov(d.position) + orc::rot(m.q, m.com); m.v = tov(d.linvel) + orc::cross(tov(d.angvel), m.p - tov(d.position)); m.w = tov(d.angvel); m.m = d.mass; m.g = d.gravity ? tov(*d.gravity) : def; b.push_back(m); c.note("%s body %u%s", kname(d.kind), id(m.e), m.hascom ? " with center of mass" : ""); }
    for (auto &m : b) compare(c, r, m, 0);
    for (int i = 0; i < ops; ++i) { int op = (int)c.draw(12); Mo &m = b[c.draw(b.size())];
        if (op == 0 && m.dynamic) { vector3 j = gen::vec(c, 5), l = gen::vec(c, 1); c.note("impulse on %u", id(m.e)); rigidbody_apply_impulse(r, m.e, j, l); m.v = m.v + tov(j) / m.m; m.w = m.w + inv_world(m, orc::cross(tov(l), tov(j))); m.err += 4 * orc::len(tov(j)) / m.m; changed = true; }
        else if (op == 1 && m.dynamic) { vector3 j = gen::vec(c, 3); c.note("torque on %u", id(m.e)); rigidbody_apply_torque_impulse(r, m.e, j); m.w = m.w + inv_world(m, tov(j)); changed = true; }
        else if (op == 2) { vector3 com = c.chance(1, 4) ? vector3_zero : gen::vec(c, 0.5); c.note("center of mass of %u " VF, id(m.e), VA(com)); set_center_of_mass(r, m.e, com); V o = m.origin(), np = o + orc::rot(m.q, tov(com)); m.v = m.v + orc::cross(m.w, np - m.p); m.p = np; m.com = tov(com); REQUIRE(r.all_of<center_of_mass>(m.e) == (com != vector3_zero), "presence of center of mass"); changed = true; }
        else if (op == 3) { vector3 o = gen::vec(c, 10); c.note("origin of %u to " VF, id(m.e), VA(o)); set_rigidbody_origin(r, m.e, o); m.p = tov(o) + orc::rot(m.q, m.com); changed = true; }
        else if (op == 4 && m.dynamic) { scalar x = gen::pos(c, 0.2, 10); c.note("mass"); set_rigidbody_mass(r, m.e, x); m.m = x; }
        else if (op == 5 && m.dynamic) { m.I = tensor(c); c.note("inertia"); set_rigidbody_inertia(r, m.e, m.I); }
        else if (op == 6 && c.boolean()) { vector3 g = gen::vec(c, 10); if (g == vector3_zero) continue; c.note("gravity " VF, VA(g)); set_gravity(r, g); def = tov(g); for (auto &x : b) if (x.dynamic && orc::len(x.g) > 0) x.g = tov(g); }
        else if (op == 7 && c.boolean()) { paused = !paused; c.note("%s", paused ? "pause" : "resume"); set_paused(r, paused); acc = 0; }
        else if (op == 8 && c.boolean()) { most = (unsigned)c.integer(1, 12); c.note("at most %u steps", most); set_max_steps_per_update(r, most); }
        else if (op == 9 && r.all_of<kinematic_tag>(m.e)) { quaternion q = gen::orient(c); vector3 p = gen::vec(c, 10); V np = tov(p); Q nq = toq(q); R nl = orc::len(nq); nq = {nq.x / nl, nq.y / nl, nq.z / nl, nq.w / nl}; c.note("place %u at " VF " " QF, id(m.e), VA(p), QA(q)); V d = np - tov(r.get<position>(m.e)); Q was = toq(r.get<orientation>(m.e)); set_kinematic_position(r, m.e, p, (scalar)dt); set_kinematic_orientation(r, m.e, q, (scalar)dt); m.p = np; m.q = nq; m.v = d / (R)dt; V w = tov(r.get<angvel>(m.e)); REQUIRE(orc::finite(r.get<angvel>(m.e)), "angular velocity is not finite"); REQUIRE(qdist(turn(was, w, (R)dt), nq) < 2e-3L, "turning by the angular velocity gives " QF " instead of " QF, QA(turn(was, w, (R)dt)), QA(nq)); REQUIRE(orc::len(w) * (R)dt <= orc::PI * 1.001L, "turns by %.6g, more than half a turn", (double)(orc::len(w) * (R)dt)); m.w = w; m.err += orc::len(m.v); changed = true; }
        else if (op > 9 || op < 7) {}
        double e = c.chance(1, 6) ? 0 : c.chance(1, 5) ? c.uniform(0, 20) * dt : c.uniform(0, 2.5) * dt; if (c.chance(1, 12)) e = -e; t += e; if (t < 0) t = 0; double el = std::max(t - tick, 0.0); unsigned k = 0;
        if (!paused) { acc += el; double f = acc / dt; if (t >= tick && std::abs(f - std::round(f)) < 1e-6 * (1 + f)) { t += 0.01 * dt; acc += 0.01 * dt; f = acc / dt; } k = (unsigned)std::floor(f); acc -= k * dt; } tick = t;
        unsigned done = std::min(k, most); steps_done = 0; order.clear(); update(r, t); c.note("update %g", e); expected += done; REQUIRE(steps_done == done, "%u steps instead of %u", steps_done, done); for (size_t j = 0; j < order.size(); ++j) REQUIRE(order[j] == (int)(j % 2), "callbacks out of order"); REQUIRE(order.size() == 2 * (size_t)done, "callbacks"); total += done;
        for (auto &x : b) { if (x.dynamic) for (unsigned j = 0; j < done; ++j) { x.v = x.v + x.g * (R)dt; x.p = x.p + x.v * (R)dt; x.q = turn(x.q, x.w, (R)dt); } if (x.dynamic) x.err += orc::len(x.g) * 0.02L; compare(c, r, x, total, done > 0);
            if (x.dynamic) { R off = paused ? 0 : std::min<R>((R)(acc - dt), (R)dt); V pp = tov(r.get<present_position>(x.e)); Q pq = toq(r.get<present_orientation>(x.e)); V wp = x.p + x.v * off; Q wq = turn(x.q, x.w, off); R tol = 256 * EPS * (1 + total) * x.err * (1 + orc::len(x.p) + orc::len(x.v) + orc::len(x.w)); REQUIRE(orc::dist(pp, wp) <= tol + 1e-6L, "presented at " VF " instead of " VF " (position " VF ")", VA(pp), VA(wp), VA(x.p)); REQUIRE(qdist(pq, wq) <= tol + 1e-6L, "presented orientation"); V po = tov(get_rigidbody_present_origin(r, x.e)); REQUIRE(orc::dist(po, pp - orc::rot(pq, x.com)) <= tol, "presented origin"); } } 
    }
    c.nontrivial(total > 2 && changed); c.label_if(total > 2, "stepped"); c.label_if(paused, "paused");
}
