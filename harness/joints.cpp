// P32: joints keep what they constrain, stay within their limits and apply the springs, damping, friction and motors they are configured with. Oracle: geometry and mechanics of two bodies, computed in extended precision from the observed state.
#include "harness/world.hpp"
using namespace edyn; using namespace wld; using pbt::Case; using orc::EPS; using orc::Q; using orc::toq;
static const R DT = (R)(scalar)(1.0 / 60);
struct Bd { E e = entt::null; V com{}; bool dynamic = true; R m = 1; };
struct Jw { World w; std::vector<Bd> b; entt::registry &r; explicit Jw(bool g = false) : r(w.reg) { set_gravity(r, g ? vector3{0, (scalar)-9.8, 0} : vector3_zero); } void step() { w.step((double)DT); } };
static V pos(Jw &w, int i) { return tov(w.r.get<position>(w.b[i].e)); } static Q orn(Jw &w, int i) { return toq(w.r.get<orientation>(w.b[i].e)); } static V org(Jw &w, int i) { return pos(w, i) - orc::rot(orn(w, i), w.b[i].com); }
static V lv(Jw &w, int i) { return w.r.all_of<linvel>(w.b[i].e) ? tov(w.r.get<linvel>(w.b[i].e)) : V{}; } static V av(Jw &w, int i) { return w.r.all_of<angvel>(w.b[i].e) ? tov(w.r.get<angvel>(w.b[i].e)) : V{}; }
static V pt(Jw &w, int i, const vector3 &p) { return org(w, i) + orc::rot(orn(w, i), tov(p)); } static V dirn(Jw &w, int i, V d) { return orc::rot(orn(w, i), d); } static V colv(const matrix3x3 &m, int i) { return tov(m.column((size_t)i)); }
static matrix3x3 frm(Q q) { V x = orc::rot(q, {1, 0, 0}), y = orc::rot(q, {0, 1, 0}), z = orc::rot(q, {0, 0, 1}); return matrix3x3_columns(orc::toe(x), orc::toe(y), orc::toe(z)); }
static Q qn(Q q) { R l = orc::len(q); return {q.x / l, q.y / l, q.z / l, q.w / l}; } static quaternion toeq(Q q) { return {(scalar)q.x, (scalar)q.y, (scalar)q.z, (scalar)q.w}; }
// A body with isotropic inertia i, or any inertia if i is zero. Collisions are off.
static void body(Case &c, Jw &w, bool fixed, const vector3 &o, const quaternion &q, const vector3 &com, const vector3 &v, const vector3 &om, double inertia = 0) { rigidbody_def d; d.kind = fixed ? rigidbody_kind::rb_static : rigidbody_kind::rb_dynamic; d.position = o; d.orientation = q; d.mass = (scalar)c.uniform(0.5, 4); if (!fixed) { d.linvel = v; d.angvel = om; } if (com != vector3_zero) d.center_of_mass = com; d.sleeping_disabled = true; d.collision_mask = 0;
    if (inertia > 0) d.inertia = diagonal_matrix({(scalar)inertia, (scalar)inertia, (scalar)inertia}); else { double a = c.uniform(0.3, 1.5), b = c.uniform(0.3, 1.5), e = c.uniform(std::max(0.3, std::abs(a - b)), a + b); d.inertia = diagonal_matrix({d.mass * (scalar)a, d.mass * (scalar)b, d.mass * (scalar)e}); } Bd x; x.dynamic = !fixed; x.com = tov(com); x.m = d.mass; x.e = make_rigidbody(w.r, d); if (!fixed && com != vector3_zero) w.r.replace<linvel>(x.e, v); w.b.push_back(x); c.note("%s body at " VF " " QF " com " VF " v " VF " w " VF " m %g I %g %g %g", fixed ? "static" : "dynamic", VA(o), QA(q), VA(com), VA(v), VA(om), (double)d.mass, (double)(*d.inertia)[0][0], (double)(*d.inertia)[1][1], (double)(*d.inertia)[2][2]); }
static R wrap(R a) { while (a > orc::PI) a -= 2 * orc::PI; while (a < -orc::PI) a += 2 * orc::PI; return a; }
static bool sane(Jw &w) { for (size_t i = 0; i < w.b.size(); ++i) { if (!orc::finite(w.r.get<position>(w.b[i].e))) return false; if (w.b[i].dynamic && (!orc::finite(w.r.get<linvel>(w.b[i].e)) || !orc::finite(w.r.get<angvel>(w.b[i].e)))) return false; } return true; }
// Two bodies whose pivots coincide and whose frames are aligned.
struct Pair { vector3 pa, pb; matrix3x3 fa, fb; };
static Pair two(Case &c, Jw &w, double arm, double speed, double spin, bool coms) { Pair p; bool fixed = c.chance(1, 3); vector3 oa = gen::vec(c, 5); quaternion qa = gen::orient(c), qb = gen::orient(c), f = gen::orient(c); p.pa = gen::vec(c, arm); p.pb = gen::vec(c, arm); V at = tov(oa) + orc::rot(toq(qa), tov(p.pa)); vector3 ob = orc::toe(at - orc::rot(toq(qb), tov(p.pb))); bool first = c.boolean();
    Q qf = toq(f); p.fa = frm(orc::conj(toq(qa)) * qf); p.fb = frm(orc::conj(toq(qb)) * qf); body(c, w, fixed && first, oa, qa, coms && c.boolean() ? gen::vec(c, 0.3) : vector3_zero, gen::vec(c, speed), gen::vec(c, spin)); body(c, w, fixed && !first, ob, qb, coms && c.boolean() ? gen::vec(c, 0.3) : vector3_zero, gen::vec(c, speed), gen::vec(c, spin)); return p; }
static R reach(Jw &w, const Pair &p) { R s = 0; for (int i = 0; i < 2; ++i) s += orc::len2(av(w, i)) * orc::len(tov(i ? p.pb : p.pa) - w.b[i].com); return s; }

PBT(joint_holds, 60000, 2000000, "two bodies moved a joint's length or turned while being held") {
    Jw w(c.boolean()); int kind = (int)c.draw(4); Pair p = two(c, w, 0.5, 2, 2, true); static const char *nm[] = {"point", "hinge", "cvjoint", "fixed"}; c.note("%s pivots " VF " " VF, nm[kind], VA(p.pa), VA(p.pb));
    switch (kind) { case 0: make_constraint<point_constraint>(w.r, w.b[0].e, w.b[1].e, [&](point_constraint &k) { k.pivot = {p.pa, p.pb}; }); break; case 1: make_constraint<hinge_constraint>(w.r, w.b[0].e, w.b[1].e, [&](hinge_constraint &k) { k.pivot = {p.pa, p.pb}; k.frame = {p.fa, p.fb}; }); break;
    case 2: make_constraint<cvjoint_constraint>(w.r, w.b[0].e, w.b[1].e, [&](cvjoint_constraint &k) { k.pivot = {p.pa, p.pb}; k.frame = {p.fa, p.fb}; k.reset_angle(w.r.get<orientation>(w.b[0].e), w.r.get<orientation>(w.b[1].e)); }); break; default: make_constraint<generic_constraint>(w.r, w.b[0].e, w.b[1].e, [&](generic_constraint &k) { k.pivot = {p.pa, p.pb}; k.frame = {p.fa, p.fb}; }); }
    int n = (int)c.integer(12, 60); V b0 = pos(w, 1); Q q0 = orn(w, 1); R lim = 0, wl = 0, kp = kind == 2 ? 90 : 10, ka = kind == 2 ? 150 : 8; // kp, ka: about four times the largest seen
    for (int i = 0; i < n; ++i) { w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); lim = std::max(lim, reach(w, p)); wl = std::max({wl, orc::len2(av(w, 0)), orc::len2(av(w, 1))}); R ang = 0; V xa = dirn(w, 0, colv(p.fa, 0)), xb = dirn(w, 1, colv(p.fb, 0)); if (i < 10) continue;
        if (kind == 1) ang = orc::dot(xa, xb) < 0 ? 2 : orc::len(orc::cross(xa, xb)); if (kind == 3) for (int k = 0; k < 3; ++k) ang = std::max(ang, orc::dist(dirn(w, 0, colv(p.fa, k)), dirn(w, 1, colv(p.fb, k))));
        if (kind == 2) { V ya = dirn(w, 0, colv(p.fa, 1)), za = dirn(w, 0, colv(p.fa, 2)), yb = dirn(w, 1, colv(p.fb, 1)); V k = orc::cross(xb, xa); R s = orc::len(k), d = orc::dot(xb, xa); if (d < 0.85L) break; V t = s > 1e-9L ? orc::rot_aa(k, std::atan2(s, d), yb) : yb; ang = std::abs(std::atan2(orc::dot(t, za), orc::dot(t, ya))); }
        R e = orc::dist(pt(w, 0, p.pa), pt(w, 1, p.pb)), tol = 1e-3L + kp * DT * DT * lim, at = 2e-3L + ka * DT * DT * wl; REQUIRE(e <= tol, "%s: pivots are %.6g apart after step %d (allowed %.6g)", nm[kind], (double)e, i, (double)tol); REQUIRE(ang <= at, "%s: frames are %.6g rad apart after step %d (allowed %.6g)", nm[kind], (double)ang, i, (double)at); }
    Q q1 = orn(w, 1); c.nontrivial(orc::dist(b0, pos(w, 1)) > 0.3L || std::abs(q0.x * q1.x + q0.y * q1.y + q0.z * q1.z + q0.w * q1.w) < 0.99L); c.label(nm[kind]);
}
PBT(distance_holds, 40000, 1000000, "the bodies moved relative to each other") {
    Jw w(c.boolean()); bool fixed = c.chance(1, 3), first = c.boolean(); R L = c.uniform(0.3, 2); vector3 oa = gen::vec(c, 5), pa = gen::vec(c, 0.5), pb = gen::vec(c, 0.5); quaternion qa = gen::orient(c), qb = gen::orient(c); V d = tov(gen::dir(c)); V at = tov(oa) + orc::rot(toq(qa), tov(pa)); vector3 ob = orc::toe(at + d * L - orc::rot(toq(qb), tov(pb)));
    body(c, w, fixed && first, oa, qa, c.boolean() ? gen::vec(c, 0.3) : vector3_zero, gen::vec(c, 2), gen::vec(c, 2)); body(c, w, fixed && !first, ob, qb, c.boolean() ? gen::vec(c, 0.3) : vector3_zero, gen::vec(c, 2), gen::vec(c, 2)); make_constraint<distance_constraint>(w.r, w.b[0].e, w.b[1].e, [&](distance_constraint &k) { k.pivot = {pa, pb}; k.distance = (scalar)L; });
    Pair p{pa, pb, {}, {}}; R lim = 0; int n = (int)c.integer(12, 60); V b0 = pos(w, 1) - pos(w, 0); c.note("distance %.6g pivots " VF " " VF, (double)L, VA(pa), VA(pb));
    for (int i = 0; i < n; ++i) { w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); V va = lv(w, 0) + orc::cross(av(w, 0), pt(w, 0, pa) - pos(w, 0)), vb = lv(w, 1) + orc::cross(av(w, 1), pt(w, 1, pb) - pos(w, 1)); lim = std::max(lim, reach(w, p) + orc::len2(va - vb) / L); R e = std::abs(orc::dist(pt(w, 0, pa), pt(w, 1, pb)) - L); if (i < 10) continue; REQUIRE(e <= 1e-3L + 16 * DT * DT * lim, "distance is off by %.6g after step %d (allowed %.6g)", (double)e, i, (double)(1e-3L + 16 * DT * DT * lim)); }
    c.nontrivial(orc::dist(b0, pos(w, 1) - pos(w, 0)) > 0.3L);
}
// One degree of freedom x with effective mass mu: friction f, damping d, motor, spring k, limits and bump stops.
struct Dof { int mode = 0; bool lim = false; R lo = 0, hi = 0, e = 0, bl = 0, bk = 0, f = 0, d = 0, k = 0, rest = 0, speed = 0, mu = 1, erp = 0.2L; R scale = 1; };
static const char *modes[] = {"free", "friction and damping", "spring", "limit", "bump stop", "motor"};
static Dof dof(Case &c, R x0, double range, R mu, int nmodes, bool always) { Dof f; f.mode = (int)c.draw((uint64_t)nmodes); f.mu = mu; f.lim = always || f.mode == 3 || f.mode == 4; if (f.lim) { R a = c.uniform(0.3, 1) * range, b = c.uniform(0.3, 1) * range; f.lo = (R)(scalar)(x0 - a); f.hi = (R)(scalar)(x0 + b); } if (f.mode == 3 && c.boolean()) f.e = (R)(scalar)c.uniform(0, 1); if (f.mode == 1) { int k = (int)c.draw(3); if (k != 0) f.f = (R)(scalar)(c.uniform(0, 20) * (double)mu); if (k != 1) f.d = (R)(scalar)(c.chance(1, 6) ? c.uniform(60, 200) * (double)mu : c.uniform(0, 30) * (double)mu); }
    if (f.mode == 2) { f.k = (R)(scalar)(c.positive(1, 2000) * (double)mu); f.rest = (R)(scalar)(x0 + c.uniform(-0.8, 0.8) * range); if (f.lim) f.rest = orc::clampr(f.rest, f.lo + 0.1L * (R)range, f.hi - 0.1L * (R)range); } if (f.mode == 4) { f.bl = (R)(scalar)(c.uniform(0.05, 0.4) * (double)(f.hi - f.lo)); f.bk = (R)(scalar)(c.positive(1, 1000) * (double)mu); } if (f.mode == 5) { f.f = (R)(scalar)(c.uniform(0.5, 30) * (double)mu); f.speed = (R)(scalar)c.uniform(-5, 5); }
    c.note("%s: friction %.4g damping %.4g spring %.4g rest %.4g limits %.4g..%.4g restitution %.4g bump %.4g %.4g speed %.4g mass %.4g", modes[f.mode], (double)f.f, (double)f.d, (double)f.k, (double)f.rest, (double)f.lo, (double)f.hi, (double)f.e, (double)f.bl, (double)f.bk, (double)f.speed, (double)f.mu); return f; }
static bool judge(Case &c, const Dof &f, R x0, R u0, R x1, R u1, int step) { R tiny = 2e-4L * (1 + std::abs(u0) + std::abs(x0)); bool acted = true; R gap = u0 > 0 ? f.hi - x0 : x0 - f.lo; bool nolimit = !f.lim || std::abs(u0) * (1 + f.e) * DT < 0.9L * f.erp * std::max<R>(gap, 0) - 1e-4L;
    if (f.lim) REQUIRE(x1 >= f.lo - 2e-3L * f.scale && x1 <= f.hi + 2e-3L * f.scale, "step %d: %.6g is outside of the limits %.6g..%.6g", step, (double)x1, (double)f.lo, (double)f.hi);
    if (f.mode == 0 || f.mode == 3) { if (nolimit) REQUIRE(std::abs(u1 - u0) <= tiny, "step %d: speed changed from %.6g to %.6g though nothing acts (position %.6g)", step, (double)u0, (double)u1, (double)x0); REQUIRE(std::abs(u1) <= std::abs(u0) + tiny, "step %d: speed grew from %.6g to %.6g", step, (double)u0, (double)u1); acted = f.mode == 0 || !nolimit; if (f.mode == 3 && !nolimit && gap > 0 && u0 * u1 < 0) REQUIRE(std::abs(u1) <= f.e * std::abs(u0) + tiny, "step %d: bounces with %.6g from %.6g with restitution %.6g", step, (double)u1, (double)u0, (double)f.e); }
    else if (f.mode == 1) { R drop = std::min(std::abs(u0), (f.f + f.d * std::abs(u0)) * DT / f.mu), want = u0 - (u0 > 0 ? drop : -drop); if (nolimit) REQUIRE(std::abs(u1 - want) <= tiny, "step %d: speed %.6g became %.6g instead of %.6g", step, (double)u0, (double)u1, (double)want); }
    else if (f.mode == 5) { R target = -f.speed, most = f.f * DT / f.mu, want = u0 + orc::clampr(target - u0, -most, most); REQUIRE(std::abs(u1 - want) <= tiny, "step %d: speed %.6g became %.6g instead of %.6g (target %.6g)", step, (double)u0, (double)u1, (double)want, (double)target); }
    else { R defl = 0, k = 0; if (f.mode == 2) { defl = x0 - f.rest; k = f.k; } else { k = f.bk; if (x0 < f.lo + f.bl) defl = x0 - f.lo - f.bl; else if (x0 > f.hi - f.bl) defl = x0 - f.hi + f.bl; } R most = k * std::abs(defl) * DT / f.mu, gain = (u1 - u0) * (defl > 0 ? -1 : 1); bool soft = k * DT * DT / f.mu < 0.05L && std::abs(u0) * DT < 0.05L * std::abs(defl); acted = defl != 0;
        bool clear = !f.lim || (nolimit && std::min(f.hi - x0, x0 - f.lo) * f.erp > (std::abs(u0) + most) * DT * 1.2L); if (clear) { if (soft) REQUIRE(std::abs(gain - most) <= tiny + 1e-3L * most, "step %d: spring changed the speed by %.6g instead of %.6g (deflection %.6g)", step, (double)gain, (double)most, (double)defl); REQUIRE(gain >= -tiny && gain <= most + tiny + 1e-3L * most, "step %d: spring changed the speed by %.6g, outside of 0..%.6g (deflection %.6g)", step, (double)gain, (double)most, (double)defl); } }
    return acted; }
// Bodies with isotropic inertia whose centers are at the pivots; they turn relative to each other about the k-th axis of the frame only.
struct Spin { matrix3x3 fa, fb; V axis; R mu, x0; bool fixed[2]; Q qf; };
static Spin spin(Case &c, Jw &w, int k, double span, double rate) { Spin s; bool fixed = c.chance(1, 3); int which = (int)c.draw(2); quaternion qa = gen::orient(c); Q qf = qn(toq(gen::orient(c))); R x0 = c.chance(1, 4) ? 0 : c.uniform(-span, span); V ax{}; ax[k] = 1; V n = orc::rot(qf, ax); s.axis = n; s.x0 = x0; Q turn{n.x * std::sin(x0 / 2), n.y * std::sin(x0 / 2), n.z * std::sin(x0 / 2), std::cos(x0 / 2)}; Q qb0 = qn(toq(gen::orient(c))); Q qb = turn * qb0; s.fa = frm(orc::conj(qn(toq(qa))) * qf); s.fb = frm(orc::conj(qb0) * qf); double ia = c.uniform(0.3, 3), ib = c.uniform(0.3, 3); vector3 o = gen::vec(c, 5); R wa = c.uniform(-rate, rate), wb = c.chance(1, 6) ? (double)wa : c.uniform(-rate, rate);
    for (int i = 0; i < 2; ++i) { s.fixed[i] = fixed && which == i; body(c, w, s.fixed[i], o, i ? toeq(qb) : qa, vector3_zero, vector3_zero, orc::toe(n * (i ? wb : wa)), i ? ib : ia); } s.mu = 1 / ((s.fixed[0] ? 0 : 1 / (R)(scalar)ia) + (s.fixed[1] ? 0 : 1 / (R)(scalar)ib)); s.qf = qf; return s; }
static R twist(Jw &w, const Spin &s) { V y = dirn(w, 1, colv(s.fb, 1)); return std::atan2(orc::dot(y, dirn(w, 0, colv(s.fa, 2))), orc::dot(y, dirn(w, 0, colv(s.fa, 1)))); }
template<class F> static bool turns(Case &c, Jw &w, const Spin &s, const Dof &f, int steps, F &&angle, R sign, R most = 1e9L) { R x = angle(), u = orc::dot(av(w, 1) - av(w, 0), s.axis) * sign; bool acted = false; for (int i = 0; i < steps; ++i) { if (std::abs(x) > most) break; w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); R a = angle(), x1 = x + wrap(a - wrap(x)), u1 = orc::dot(av(w, 1) - av(w, 0), s.axis) * sign; acted = judge(c, f, x, u, x1, u1, i) || acted; V off = (av(w, 1) - av(w, 0)); off = off - s.axis * orc::dot(off, s.axis); REQUIRE(orc::len(off) < 0.02L, "turns off the axis: " VF, VA(off)); x = x1; u = u1; } return acted; }

PBT(hinge_drive, 60000, 2000000, "the mode acted on moving bodies") {
    Jw w; Spin s = spin(c, w, 0, 3, 4); Dof f = dof(c, s.x0, c.chance(1, 4) ? 12 : 1.5, s.mu, 6, false); c.label(modes[f.mode]); make_constraint<hinge_constraint>(w.r, w.b[0].e, w.b[1].e, [&](hinge_constraint &k) { k.pivot = {vector3_zero, vector3_zero}; k.frame = {s.fa, s.fb}; k.reset_angle(w.r.get<orientation>(w.b[0].e), w.r.get<orientation>(w.b[1].e)); if (f.lim) { k.angle_min = (scalar)f.lo; k.angle_max = (scalar)f.hi; k.limit_restitution = (scalar)f.e; k.bump_stop_angle = (scalar)f.bl; k.bump_stop_stiffness = (scalar)f.bk; } k.torque = (scalar)f.f; k.damping = (scalar)f.d; k.speed = (scalar)f.speed; k.stiffness = (scalar)f.k; k.rest_angle = (scalar)f.rest; });
    bool acted = turns(c, w, s, f, (int)c.integer(5, 80), [&] { return twist(w, s); }, 1); c.nontrivial(acted);
}
PBT(cvjoint_twist, 60000, 2000000, "the mode acted on moving bodies") {
    Jw w; Spin s = spin(c, w, 0, 3, 4); Dof f = dof(c, s.x0, c.chance(1, 4) ? 12 : 1.5, s.mu, 5, true); c.label(modes[f.mode]); make_constraint<cvjoint_constraint>(w.r, w.b[0].e, w.b[1].e, [&](cvjoint_constraint &k) { k.pivot = {vector3_zero, vector3_zero}; k.frame = {s.fa, s.fb}; k.reset_angle(w.r.get<orientation>(w.b[0].e), w.r.get<orientation>(w.b[1].e)); k.twist_min = (scalar)f.lo; k.twist_max = (scalar)f.hi; k.twist_restitution = (scalar)f.e; k.twist_bump_stop_angle = (scalar)f.bl; k.twist_bump_stop_stiffness = (scalar)f.bk; k.twist_friction_torque = (scalar)f.f; k.twist_damping = (scalar)f.d; k.twist_stiffness = (scalar)f.k; k.twist_rest_angle = (scalar)f.rest; });
    bool acted = turns(c, w, s, f, (int)c.integer(5, 80), [&] { return twist(w, s); }, 1); c.nontrivial(acted);
}
PBT(cvjoint_bend, 60000, 2000000, "the mode acted on moving bodies") {
    Jw w; int k = 1 + (int)c.draw(2); Spin s = spin(c, w, k, 2.5, 3); Dof f = dof(c, 0, 1, s.mu, 3, false); f.rest = 0; c.label(modes[f.mode]); make_constraint<cvjoint_constraint>(w.r, w.b[0].e, w.b[1].e, [&](cvjoint_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.frame = {s.fa, s.fb}; j.reset_angle(w.r.get<orientation>(w.b[0].e), w.r.get<orientation>(w.b[1].e)); j.bend_friction_torque = (scalar)f.f; j.bend_damping = (scalar)f.d; j.bend_stiffness = (scalar)f.k; j.rest_direction = s.fa.column(0); });
    auto ang = [&] { V x = dirn(w, 1, colv(s.fb, 0)), o = dirn(w, 0, colv(s.fa, k == 1 ? 2 : 1)); return (k == 1 ? -1 : 1) * std::atan2(orc::dot(x, o), orc::dot(x, dirn(w, 0, colv(s.fa, 0)))); }; R x = ang(), u = orc::dot(av(w, 1) - av(w, 0), s.axis); bool acted = false; int n = (int)c.integer(5, 60);
    for (int i = 0; i < n; ++i) { if (std::abs(wrap(x)) > 2.8L || (f.mode == 1 && std::abs(u) < 2e-3L)) break; w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); R x1 = x + wrap(ang() - wrap(x)), u1 = orc::dot(av(w, 1) - av(w, 0), s.axis); if (std::abs(x) > 1e-3L || f.mode != 2) acted = judge(c, f, x, u, x1, u1, i) || acted; x = x1; u = u1; } c.nontrivial(acted);
}
PBT(generic_linear, 60000, 2000000, "the mode acted on moving bodies") {
    Jw w; int k = (int)c.draw(3); bool fixed = c.chance(1, 3); int which = (int)c.draw(2); quaternion qa = gen::orient(c), qb = gen::orient(c); Q qf = qn(toq(gen::orient(c))); matrix3x3 fa = frm(orc::conj(qn(toq(qa))) * qf), fb = frm(orc::conj(qn(toq(qb))) * qf); V ax{}; ax[k] = 1; V n = orc::rot(qf, ax); R x0 = c.chance(1, 4) ? 0 : c.uniform(-2, 2); vector3 o = gen::vec(c, 3); for (int i = 0; i < 2; ++i) body(c, w, fixed && which == i, i ? orc::toe(tov(o) + n * x0) : o, i ? qb : qa, vector3_zero, orc::toe(n * c.uniform(-3, 3)), vector3_zero, 5 + c.uniform(0, 3));
    R mu = 1 / ((w.b[0].dynamic ? 1 / w.b[0].m : 0) + (w.b[1].dynamic ? 1 / w.b[1].m : 0)); Dof f = dof(c, x0, 1.5, mu, 5, false); f.erp = 0.9L; c.label(modes[f.mode]);
    make_constraint<generic_constraint>(w.r, w.b[0].e, w.b[1].e, [&](generic_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.frame = {fa, fb}; auto &d = j.linear_dofs[(size_t)k]; d.limit_enabled = f.lim; d.offset_min = (scalar)f.lo; d.offset_max = (scalar)f.hi; d.limit_restitution = (scalar)f.e; d.bump_stop_length = (scalar)f.bl; d.bump_stop_stiffness = (scalar)f.bk; d.friction_force = (scalar)f.f; d.damping = (scalar)f.d; d.spring_stiffness = (scalar)f.k; d.rest_offset = (scalar)f.rest; });
    auto off = [&] { return orc::dot(pos(w, 1) - pos(w, 0), dirn(w, 0, colv(fa, k))); }; R x = off(), u = orc::dot(lv(w, 1) - lv(w, 0), n); bool acted = false; int steps = (int)c.integer(5, 60);
    for (int i = 0; i < steps; ++i) { w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); R x1 = off(), u1 = orc::dot(lv(w, 1) - lv(w, 0), n); acted = judge(c, f, x, u, x1, u1, i) || acted; V side = pos(w, 1) - pos(w, 0); side = side - n * orc::dot(side, n); REQUIRE(orc::len(side) < 5e-3L, "moved off the axis by " VF, VA(side)); x = x1; u = u1; } c.nontrivial(acted);
}
PBT(generic_angular, 60000, 2000000, "the mode acted on moving bodies") {
    Jw w; int k = (int)c.draw(3); double range = k == 0 ? 1.2 : 0.6; Spin s = spin(c, w, k, k == 0 ? 1.5 : 0.6, 3); R sign = k == 1 ? -1 : 1; Dof f = dof(c, s.x0 * sign, range, s.mu, 5, k != 0 || c.boolean()); c.label(modes[f.mode]);
    make_constraint<generic_constraint>(w.r, w.b[0].e, w.b[1].e, [&](generic_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.frame = {s.fa, s.fb}; auto &d = j.angular_dofs[(size_t)k]; d.limit_enabled = f.lim; d.angle_min = (scalar)f.lo; d.angle_max = (scalar)f.hi; d.limit_restitution = (scalar)f.e; d.bump_stop_angle = (scalar)f.bl; d.bump_stop_stiffness = (scalar)f.bk; d.friction_torque = (scalar)f.f; d.damping = (scalar)f.d; d.spring_stiffness = (scalar)f.k; d.rest_angle = (scalar)f.rest; });
    auto ang = [&]() -> R { if (k == 0) return twist(w, s); V x = dirn(w, 1, colv(s.fb, 0)), o = dirn(w, 0, colv(s.fa, k == 1 ? 2 : 1)); return std::atan2(orc::dot(x, o), orc::dot(x, dirn(w, 0, colv(s.fa, 0)))); }; bool acted = turns(c, w, s, f, (int)c.integer(5, 60), ang, sign, 2.8L); c.nontrivial(acted);
}
PBT(generic_locked, 30000, 1000000, "a degree of freedom is locked away from zero and the bodies move") {
    Jw w; int k = (int)c.draw(6); R a = k < 3 ? c.uniform(-1, 1) : c.uniform(-0.7, 0.7); if (c.chance(1, 5)) a = 0; quaternion qa = gen::orient(c); Q qf = qn(toq(gen::orient(c))); V ax{}; ax[k % 3] = 1; V n = orc::rot(qf, ax); R ang = k < 3 ? 0 : k == 4 ? -a : a; Q turn{n.x * std::sin(ang / 2), n.y * std::sin(ang / 2), n.z * std::sin(ang / 2), std::cos(ang / 2)}; Q qb0 = qn(toq(gen::orient(c))); matrix3x3 fa = frm(orc::conj(qn(toq(qa))) * qf), fb = frm(orc::conj(qb0) * qf); bool fixed = c.chance(1, 3); int which = (int)c.draw(2); vector3 o = gen::vec(c, 3); for (int i = 0; i < 2; ++i) body(c, w, fixed && which == i, i && k < 3 ? orc::toe(tov(o) + n * a) : o, i ? toeq(turn * qb0) : qa, vector3_zero, gen::vec(c, 1), gen::vec(c, 1));
    c.note("degree of freedom %d locked at %.6g", k, (double)a); make_constraint<generic_constraint>(w.r, w.b[0].e, w.b[1].e, [&](generic_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.frame = {fa, fb}; if (k < 3) j.linear_dofs[(size_t)k].offset_min = j.linear_dofs[(size_t)k].offset_max = (scalar)a; else j.angular_dofs[(size_t)k - 3].angle_min = j.angular_dofs[(size_t)k - 3].angle_max = (scalar)a; }); Q rel = orc::conj(orn(w, 0)) * orn(w, 1); V off = orc::rot(orc::conj(orn(w, 0)), pos(w, 1) - pos(w, 0)); int steps = (int)c.integer(15, 60); R wl = 0;
    for (int i = 0; i < steps; ++i) { w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); wl = std::max({wl, orc::len2(av(w, 0)), orc::len2(av(w, 1))}); if (i < 10) continue; Q r2 = orc::conj(orn(w, 0)) * orn(w, 1); R d = 1 - std::abs(rel.x * r2.x + rel.y * r2.y + rel.z * r2.z + rel.w * r2.w); R turned = 2 * std::sqrt(2 * std::max<R>(d, 0)), moved = orc::dist(off, orc::rot(orc::conj(orn(w, 0)), pos(w, 1) - pos(w, 0))); REQUIRE(turned <= 5e-3L + 20 * DT * DT * wl + 8 * DT * std::sqrt(wl) * std::abs(k < 3 ? 0 : a), "bodies locked at an angle turned by %.6g after step %d", (double)turned, i); REQUIRE(moved <= 5e-3L + 20 * DT * DT * wl + 4 * DT * std::sqrt(wl) * std::abs(k < 3 ? a : 0), "bodies locked at a distance moved by %.6g after step %d", (double)moved, i); }
    c.nontrivial(a != 0);
}
PBT(soft_distance, 60000, 2000000, "spring or damper acted between bodies which were not at rest") {
    Jw w; bool fixed = c.chance(1, 3); int which = (int)c.draw(2); V n = tov(gen::dir(c)); R L = c.uniform(0.2, 2), x0 = c.uniform(0.2, 2.5); vector3 o = gen::vec(c, 3); for (int i = 0; i < 2; ++i) body(c, w, fixed && which == i, i ? orc::toe(tov(o) - n * x0) : o, gen::orient(c), vector3_zero, orc::toe(n * c.uniform(-2, 2)), vector3_zero); R mu = 1 / ((w.b[0].dynamic ? 1 / w.b[0].m : 0) + (w.b[1].dynamic ? 1 / w.b[1].m : 0)); R k = c.chance(1, 5) ? 0 : (R)(scalar)(c.positive(1, 200) * (double)mu), d = c.chance(1, 3) ? 0 : (R)(scalar)(c.positive(0.1, 200) * (double)mu); c.note("distance %.6g stiffness %.6g damping %.6g", (double)L, (double)k, (double)d);
    make_constraint<soft_distance_constraint>(w.r, w.b[0].e, w.b[1].e, [&](soft_distance_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.distance = (scalar)L; j.stiffness = (scalar)k; j.damping = (scalar)d; }); bool acted = false; int steps = (int)c.integer(2, 40);
    for (int i = 0; i < steps; ++i) { V r0 = pos(w, 0) - pos(w, 1); R x = orc::len(r0); if (x < 0.05L) break; V m = r0 / x; R u = orc::dot(lv(w, 0) - lv(w, 1), m); R push = k * (L - x) * DT / mu, most = d * std::abs(u) * DT / mu, want = u + push; want -= orc::clampr(want, -most, most); w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); R got = orc::dot(lv(w, 0) - lv(w, 1), m); R tol = 3e-4L * (1 + std::abs(u) + std::abs(push)); REQUIRE(std::abs(got - want) <= tol, "step %d: distance %.6g, speed %.6g became %.6g instead of %.6g", i, (double)x, (double)u, (double)got, (double)want); REQUIRE(orc::len(av(w, 0)) + orc::len(av(w, 1)) < 1e-3L, "a spring through the centers turned a body"); acted = acted || std::abs(want - u) > 10 * tol; } c.nontrivial(acted);
}
PBT(gravity_pull, 30000, 1000000, "the bodies attract each other measurably") {
    Jw w; V n = tov(gen::dir(c)); R x0 = c.positive(0.5, 50); vector3 o = gen::vec(c, 3); scalar ms[2]; for (int i = 0; i < 2; ++i) { rigidbody_def d; d.position = i ? orc::toe(tov(o) + n * x0) : o; d.mass = ms[i] = (scalar)c.positive(1e6, 1e11); d.inertia = matrix3x3_identity * d.mass; d.sleeping_disabled = true; d.collision_mask = 0; Bd x; x.m = ms[i]; x.e = make_rigidbody(w.r, d); w.b.push_back(x); c.note("mass %.6g", (double)ms[i]); } make_constraint<gravity_constraint>(w.r, w.b[0].e, w.b[1].e); int steps = (int)c.integer(1, 10); c.note("distance %.6g", (double)x0);
    for (int i = 0; i < steps; ++i) { V r = pos(w, 1) - pos(w, 0); R x = orc::len(r); V v[2] = {lv(w, 0), lv(w, 1)}; w.step(); REQUIRE(sane(w), "state is not finite"); for (int k = 0; k < 2; ++k) { R a = 6.674e-11L * (R)ms[1 - k] / (x * x) * DT; V want = v[k] + r / x * (k ? -a : a); if (a > 2) { c.discard(); } REQUIRE(orc::dist(lv(w, k), want) <= 2e-3L * a + 8 * EPS * (1 + orc::len(want)), "step %d: velocity of body %d " VF " instead of " VF, i, k, VA(lv(w, k)), VA(want)); } } c.nontrivial(orc::len(lv(w, 0)) + orc::len(lv(w, 1)) > 1e-4L);
}
PBT(point_friction, 40000, 1000000, "the bodies turned relative to each other") {
    Jw w; bool fixed = c.chance(1, 3); int which = (int)c.draw(2); double ia = c.uniform(0.3, 3), ib = c.uniform(0.3, 3); vector3 o = gen::vec(c, 3); R mu = 1 / ((fixed && which == 0 ? 0 : 1 / (R)(scalar)ia) + (fixed && which == 1 ? 0 : 1 / (R)(scalar)ib)); for (int i = 0; i < 2; ++i) body(c, w, fixed && which == i, o, gen::orient(c), vector3_zero, vector3_zero, c.chance(1, 4) ? vector3_zero : gen::vec(c, 3), i ? ib : ia); R f = (R)(scalar)(c.uniform(0.1, 20) * (double)mu); make_constraint<point_constraint>(w.r, w.b[0].e, w.b[1].e, [&](point_constraint &j) { j.pivot = {vector3_zero, vector3_zero}; j.friction_torque = (scalar)f; }); int steps = (int)c.integer(2, 40); bool acted = false; c.note("friction torque %.6g", (double)f);
    for (int i = 0; i < steps; ++i) { if (c.chance(1, 10)) { int k = (int)c.draw(2); if (w.b[k].dynamic) { vector3 t = gen::vec(c, 2); c.note("torque impulse " VF, VA(t)); rigidbody_apply_torque_impulse(w.r, w.b[k].e, t); } } V u = av(w, 0) - av(w, 1); R s = orc::len(u), drop = std::min(s, f * DT / mu); V want = s > 0 ? u * ((s - drop) / s) : u; w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); V got = av(w, 0) - av(w, 1); R tol = 3e-4L * (1 + s) + (s < 1e-3L ? f * DT / mu : 0); REQUIRE(orc::dist(got, want) <= tol + (s < 2 * f * DT / mu ? 1.5L * f * DT / mu : 0), "step %d: relative spin " VF " became " VF " instead of " VF, i, VA(u), VA(got), VA(want)); REQUIRE(orc::len(lv(w, 0)) + orc::len(lv(w, 1)) < 1e-3L, "friction about the pivot moved a body"); acted = acted || s > 0.1L; } c.nontrivial(acted);
}
// A body hangs from the apex of a cone by a point joint: a point of it must stay in the cone. A free body which is outside must return into it.
PBT(cone_limit, 40000, 1000000, "the point reached the surface of the cone") {
    Jw w; bool fixed = c.boolean(); quaternion qa = gen::orient(c), qb = gen::orient(c); Q qf = qn(toq(gen::orient(c))); vector3 oa = gen::vec(c, 3), pa = gen::vec(c, 0.3); R ty = c.uniform(0.3, 2.5), tz = c.chance(1, 3) ? (double)ty : c.uniform(0.3, 2.5), len = c.uniform(0.4, 1.2); bool outside = c.chance(1, 3); R dev = outside ? c.uniform(0, 3.1) : c.uniform(0, 0.7) * std::atan(std::min(ty, tz)), az = c.uniform(-3.14159, 3.14159); V l{std::cos(dev), std::sin(dev) * std::cos(az), std::sin(dev) * std::sin(az)}; V pw = orc::rot(qf, l) * len; // from apex to the point, in world space
    V apex = tov(oa) + orc::rot(toq(qa), tov(pa)); vector3 pb = c.boolean() ? vector3_zero : gen::vec(c, 0.3); vector3 ob = orc::toe(apex - orc::rot(toq(qb), tov(pb))); vector3 pc = orc::toe(tov(pb) + orc::rot(orc::conj(qn(toq(qb))), pw)); matrix3x3 fa = frm(orc::conj(qn(toq(qa))) * qf); double rate = outside ? 0.2 : 3; body(c, w, fixed, oa, qa, vector3_zero, vector3_zero, vector3_zero, 2); body(c, w, false, ob, qb, vector3_zero, vector3_zero, gen::vec(c, rate), 1); R e = c.boolean() ? 0 : c.uniform(0, 0.8), bl = c.boolean() ? 0 : c.uniform(0.05, 0.3), bk = bl > 0 ? c.positive(1, 300) : 0;
    if (!outside) make_constraint<point_constraint>(w.r, w.b[0].e, w.b[1].e, [&](point_constraint &j) { j.pivot = {pa, pb}; }); make_constraint<cone_constraint>(w.r, w.b[0].e, w.b[1].e, [&](cone_constraint &j) { j.pivot = {pa, pc}; j.frame = fa; j.span_tan = {(scalar)ty, (scalar)tz}; j.restitution = (scalar)e; j.bump_stop_length = (scalar)bl; j.bump_stop_stiffness = (scalar)bk; }); c.note("cone %.4g %.4g, deviation %.4g, length %.4g, restitution %.4g, bump %.4g %.4g", (double)ty, (double)tz, (double)dev, (double)len, (double)e, (double)bl, (double)bk);
    auto out = [&] { V d = pt(w, 1, pc) - pt(w, 0, pa), x{orc::dot(d, dirn(w, 0, colv(fa, 0))), orc::dot(d, dirn(w, 0, colv(fa, 1))) / ty, orc::dot(d, dirn(w, 0, colv(fa, 2))) / tz}; return (std::sqrt(x.y * x.y + x.z * x.z) - x.x) / std::sqrt((R)2); }; R start = out(), near = start; int steps = (int)c.integer(30, 150);
    for (int i = 0; i < steps; ++i) { w.step(); REQUIRE(sane(w), "step %d: state is not finite", i); R o = out(); near = std::max(near, o); if (start <= 0) REQUIRE(o <= 0.1L * len, "step %d: the point is %.6g outside of the cone", i, (double)o); }
    if (start > 0 && steps >= 120) REQUIRE(out() <= std::max(0.1L * len, (dev > 1.4L ? 1.5L : 0.85L) * start), "the point is still %.6g outside of the cone (%.6g at first) after %d steps", (double)out(), (double)start, steps); c.nontrivial(near > -0.05L * len); c.label_if(start > 0, "starts outside");
}
