// P02: rotations. Oracle: long double quaternion / Rodrigues formulas.
#include "harness/common.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::Q; using orc::tov; using orc::toq; using orc::near;
static const R SE = std::sqrt(orc::EPS);

static bool same_rot(const quaternion &g, Q w, R tol) { // up to sign
    Q q = toq(g);
    R d1 = std::max(std::max(std::abs(q.x - w.x), std::abs(q.y - w.y)), std::max(std::abs(q.z - w.z), std::abs(q.w - w.w)));
    R d2 = std::max(std::max(std::abs(q.x + w.x), std::abs(q.y + w.y)), std::max(std::abs(q.z + w.z), std::abs(q.w + w.w)));
    return std::min(d1, d2) <= tol;
}
static bool nearq(const quaternion &g, Q w, R mag, R k = 16) { return near(g.x, w.x, mag, k) && near(g.y, w.y, mag, k) && near(g.z, w.z, mag, k) && near(g.w, w.w, mag, k); }

PBT(quaternion_ops, 60000, 2000000, "both quaternions have at least two non-zero components") {
    quaternion a{gen::s(c), gen::s(c), gen::s(c), gen::s(c)}, b{gen::s(c), gen::s(c), gen::s(c), gen::s(c)}; auto s = gen::s(c); auto v = gen::vec(c);
    c.note("a=" QF " b=" QF " s=%g", QA(a), QA(b), s); auto nz = [](quaternion q) { return (q.x != 0) + (q.y != 0) + (q.z != 0) + (q.w != 0); }; c.nontrivial(nz(a) >= 2 && nz(b) >= 2);
    R la = orc::len(toq(a)), lb = orc::len(toq(b)), lv = orc::len(tov(v));
    auto t = a; t += b; auto u = a; u -= b; auto m = a; m *= b;
    for (int i = 0; i < 4; ++i) {
        REQUIRE((a + b)[i] == a[i] + b[i] && t[i] == a[i] + b[i]); REQUIRE((a - b)[i] == a[i] - b[i] && u[i] == a[i] - b[i]);
        REQUIRE((a * s)[i] == a[i] * s && (s * a)[i] == a[i] * s); if (s != 0) REQUIRE(near((a / s)[i], (R)a[i] / s, 0, 4)); if (a[i] != 0) REQUIRE(near((s / a)[i], (R)s / a[i], 0, 4));
    }
    REQUIRE(nearq(a * b, toq(a) * toq(b), la * lb)); REQUIRE(m == a * b);
    REQUIRE(nearq(a * v, toq(a) * Q{v.x, v.y, v.z, 0}, la * lv)); REQUIRE(nearq(v * a, Q{v.x, v.y, v.z, 0} * toq(a), la * lv));
    REQUIRE((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w)); REQUIRE((a != b) == !(a == b)); REQUIRE(a == a);
    auto d = a; d[c.draw(4)] += 1; REQUIRE(d != a && !(d == a));
    REQUIRE(near(length_sqr(a), la * la, 0)); REQUIRE(near(length(a), la, 0)); REQUIRE(near(dot(a, b), (R)a.x * b.x + (R)a.y * b.y + (R)a.z * b.z + (R)a.w * b.w, la * lb));
    REQUIRE(conjugate(a) == (quaternion{-a.x, -a.y, -a.z, a.w}));
    if (la > 1e-3L) { auto n = normalize(a); REQUIRE(nearq(n, Q{a.x / la, a.y / la, a.z / la, a.w / la}, 1)); }
    Q dq = Q{v.x, v.y, v.z, 0} * toq(a); REQUIRE(nearq(quaternion_derivative(a, v), Q{dq.x / 2, dq.y / 2, dq.z / 2, dq.w / 2}, la * lv));
}

PBT(rotation_laws, 60000, 2000000, "rotation is not the identity and vector not zero") {
    auto q = gen::orient(c), r = gen::orient(c); auto v = gen::vec(c), w = gen::vec(c); auto Qq = toq(q), Qr = toq(r);
    c.note("q=" QF " r=" QF " v=" VF, QA(q), QA(r), VA(v)); c.nontrivial(q != quaternion_identity && v != vector3_zero);
    R lv = orc::len(tov(v)), lw = orc::len(tov(w));
    auto qv = rotate(q, v), qw = rotate(q, w);
    REQUIRE(near(qv, orc::rot(Qq, tov(v)), lv, 16)); REQUIRE(near(dot(qv, qw), orc::dot(tov(v), tov(w)), lv * lw, 64)); REQUIRE(near(cross(qv, qw), orc::rot(Qq, orc::cross(tov(v), tov(w))), lv * lw, 64));
    REQUIRE(near(rotate(q, rotate(r, v)), tov(rotate(q * r, v)), lv, 64)); REQUIRE(near(rotate(conjugate(q), qv), tov(v), lv, 64));
    REQUIRE(near(quaternion_x(q), orc::rot(Qq, {1, 0, 0}), 1)); REQUIRE(near(quaternion_y(q), orc::rot(Qq, {0, 1, 0}), 1)); REQUIRE(near(quaternion_z(q), orc::rot(Qq, {0, 0, 1}), 1));
    auto m = to_matrix3x3(q); REQUIRE(near(m * v, orc::rot(Qq, tov(v)), lv, 32)); REQUIRE(near(m.determinant(), 1, 1, 64));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(near(dot(m[i], m[j]), i == j, 1, 32));
    // scaled quaternions describe the same rotation matrix
    auto k = gen::pos(c, 0.1, 10); auto m2 = to_matrix3x3(q * k); for (int i = 0; i < 3; ++i) REQUIRE(near(m2[i], tov(m[i]), 1, 64));
    auto q2 = to_quaternion(m); REQUIRE(same_rot(q2, Qq, 64 * orc::EPS), "q2=" QF, QA(q2));
    scalar tr = m[0][0] + m[1][1] + m[2][2]; c.label(tr > 0 ? "trace>0" : (m[0][0] >= m[1][1] && m[0][0] >= m[2][2]) ? "max x" : m[1][1] >= m[2][2] ? "max y" : "max z");
}

PBT(axis_angle, 60000, 2000000, "angle is not a multiple of a full turn") {
    auto a = gen::angle(c); auto v = gen::vec(c); if (!(length(v) > 1e-3)) v = vector3_y; auto p = gen::vec(c); auto d = gen::dir(c);
    c.note("axis=" VF " angle=%.9g p=" VF, VA(v), (double)a, VA(p)); c.nontrivial(std::abs(std::sin((R)a / 2)) > 1e-3L);
    R lp = orc::len(tov(p)); auto q = quaternion_axis_angle(v, a);
    REQUIRE(near(rotate(q, p), orc::rot_aa(tov(v), a, tov(p)), lp, 64)); REQUIRE(near(length(q), 1, 0, 16));
    if (std::abs(length_sqr(d) - 1) < EDYN_EPSILON) { auto q1 = quaternion_axis_angle_unit(d, a); REQUIRE(near(rotate(q1, p), orc::rot_aa(tov(d), a, tov(p)), lp, 64)); c.label("unit axis"); }
    // angle and axis recovered describe the same rotation
    auto qn = normalize(q); R ang = quaternion_angle(qn); auto ax = quaternion_axis(qn);
    REQUIRE(std::isfinite((double)ang) && ang >= 0 && ang <= 2 * orc::PI + 1e-3L);
    R s2 = 1 - (R)qn.w * qn.w;
    R expect = 2 * std::atan2(std::sqrt((R)qn.x * qn.x + (R)qn.y * qn.y + (R)qn.z * qn.z), (R)qn.w);
    REQUIRE(std::abs(ang - expect) <= (s2 > 1e-3L ? 1e4L * orc::EPS : 16 * SE), "angle %.9Lg want %.9Lg", ang, expect);
    if (s2 > 1e-3L) REQUIRE(near(length(ax), 1, 1, 1e4L)); else REQUIRE(orc::finite(ax));
    if (s2 > 1e-3L) REQUIRE(near(rotate(quaternion_axis_angle(ax, (scalar)ang), p), orc::rot(toq(qn), tov(p)), lp, 1e4L));
}

PBT(integrate_step, 60000, 2000000, "angular velocity non-zero and dt non-zero") {
    auto q = gen::orient(c); vector3 w; scalar dt; 
    switch (c.draw(3)) { case 0: w = gen::vec(c, 100); break; case 1: w = gen::dir(c) * (scalar)std::pow(10.0, c.uniform(-8, 2)); break; default: w = gen::dir(c) * (scalar)(0.001 * c.uniform(0.5, 1.5)); }
    dt = c.boolean() ? (scalar)(1.0 / 60) : (scalar)c.uniform(-0.2, 2);
    c.note("q=" QF " w=" VF " dt=%.9g", QA(q), VA(w), (double)dt); R W = orc::len(tov(w)); c.nontrivial(W > 0 && dt != 0); c.label(W < 0.001L ? "slow" : "fast");
    auto r = integrate(q, w, dt); V k = W > 0 ? tov(w) / W : V{1, 0, 0}; R sn = std::sin(W * dt / 2), cs = std::cos(W * dt / 2);
    Q e = Q{k.x * sn, k.y * sn, k.z * sn, cs} * toq(q); R l = orc::len(toq(q)); e = {e.x / l, e.y / l, e.z / l, e.w / l};
    REQUIRE(near(length(r), 1, 0, 8)); REQUIRE(nearq(r, e, 1, 32 * (1 + W * std::abs(dt))), "got " QF " want (%Lg,%Lg,%Lg,%Lg)", QA(r), e.x, e.y, e.z, e.w);
    // two half steps compose to a full one
    auto h = integrate(integrate(q, w, dt / 2), w, dt / 2); REQUIRE(nearq(h, toq(r), 1, 128 * (1 + W * std::abs(dt))));
}

PBT(integrate_history, 400, 20000, "the body turns") {
    // Many small steps: the orientation must stay a unit quaternion and the total turn about a fixed axis must be exact.
    auto q = gen::orient(c); if (c.boolean()) q = q * (scalar)(1 + c.uniform(-1e-3, 1e-3)); auto d = gen::dir(c); V k = orc::unit(tov(d)); R W = c.boolean() ? (R)c.uniform(0.0005, 0.002) : (R)c.uniform(0, 30); int n = (int)c.draw(2000) + 1; scalar dt = (scalar)(1.0 / 60); vector3 w = orc::toe(k * W);
    c.note("q=" QF " w=" VF " steps %d", QA(q), VA(w), n); c.nontrivial(W * n * dt > 1e-3L); auto r = q; for (int i = 0; i < n; ++i) { r = integrate(r, w, dt); REQUIRE(near(length(r), 1, 0, 8), "length %.9g after %d steps", (double)length(r), i + 1); }
    W = orc::len(tov(w)); k = W > 0 ? tov(w) / W : k; R a = W * (R)dt * n / 2, l = orc::len(toq(q)); Q e = Q{k.x * std::sin(a), k.y * std::sin(a), k.z * std::sin(a), std::cos(a)} * toq(q); e = {e.x / l, e.y / l, e.z / l, e.w / l};
    REQUIRE(nearq(r, e, 1, 32 + 8 * n), "got " QF " want (%Lg,%Lg,%Lg,%Lg)", QA(r), e.x, e.y, e.z, e.w);
}

PBT(shortest_arc_between, 60000, 2000000, "vectors neither equal nor opposite") {
    auto a = gen::dir(c), b = gen::dir(c); V A = orc::unit(tov(a)); a = orc::toe(A);
    switch (c.draw(4)) { case 0: break; case 1: b = -a; break; case 2: { auto t = gen::dir(c); b = orc::toe(orc::unit(-tov(a) + tov(t) * (R)std::pow(10.0, c.uniform(-7, -1)))); break; }
        case 3: { auto t = gen::dir(c); b = orc::toe(orc::unit(tov(a) + tov(t) * (R)std::pow(10.0, c.uniform(-7, -1)))); } }
    c.note("a=" VF " b=" VF, VA(a), VA(b)); R d = orc::dot(tov(a), tov(b)), x = orc::len(orc::cross(tov(a), tov(b))); c.nontrivial(x > 1e-4L); c.label(d < -0.99L ? "nearly opposite" : d > 0.99L ? "nearly equal" : "general");
    auto q = shortest_arc(a, b); REQUIRE(near(length(q), 1, 0, 64)); R tol = d < -0.99L ? 16 * SE : 64 * orc::EPS;
    V g = tov(rotate(q, a)); REQUIRE(orc::dist(g, tov(b)) <= tol, "rotated " VF, VA(g));
    R ang = std::atan2(x, d), qa = 2 * std::atan2(std::sqrt((R)q.x * q.x + (R)q.y * q.y + (R)q.z * q.z), (R)q.w); REQUIRE(qa <= ang + (d < -0.99L ? 16 * SE : 256 * orc::EPS), "rotation of %Lg is longer than the arc %Lg", qa, ang);
}

PBT(angle_between_rotations, 60000, 2000000, "angle neither zero nor pi") {
    auto q = gen::orient(c); auto ax = gen::dir(c); R a = c.draw(5) == 0 ? (c.boolean() ? 0 : orc::PI) : (R)c.uniform(0, 3.14159265358979); V u = orc::unit(tov(ax));
    Q e = Q{u.x * std::sin(a / 2), u.y * std::sin(a / 2), u.z * std::sin(a / 2), std::cos(a / 2)} * toq(q); R sg = c.boolean() ? -1 : 1; R k0 = c.chance(1, 3) ? c.positive(0.2, 5) : 1, k1 = c.chance(1, 3) ? c.positive(0.2, 5) : 1;
    quaternion r{(scalar)(e.x * sg * k1), (scalar)(e.y * sg * k1), (scalar)(e.z * sg * k1), (scalar)(e.w * sg * k1)}; q = q * (scalar)k0;
    c.note("q=" QF " r=" QF " angle=%Lg", QA(q), QA(r), a); c.nontrivial(a > 1e-3L && a < 3.14L); c.label(sg < 0 ? "opposite cover" : "same cover");
    R g = angle_between(q, r); R tol = a < 0.01L ? 16 * SE : 2000 * orc::EPS; // acos near 1
    REQUIRE(std::isfinite((double)g) && std::abs(g - a) <= tol, "angle %.9Lg, want %.9Lg (a rotation by q or by -q is the same)", g, a);
    R h = angle_between(r, q); REQUIRE(std::abs(h - g) <= tol);
}

PBT(slerp_path, 60000, 2000000, "end points differ and parameter strictly inside") {
    auto q = gen::orient(c); auto ax = gen::dir(c); R a = c.uniform(0, 3.1415); V u = orc::unit(tov(ax)); R s = c.draw(6) == 0 ? (c.boolean() ? 1 : 0) : (R)(scalar)c.unit();
    Q e = Q{u.x * std::sin(a / 2), u.y * std::sin(a / 2), u.z * std::sin(a / 2), std::cos(a / 2)} * toq(q); R sg = c.boolean() ? -1 : 1;
    quaternion r{(scalar)(e.x * sg), (scalar)(e.y * sg), (scalar)(e.z * sg), (scalar)(e.w * sg)};
    c.note("q=" QF " r=" QF " s=%Lg", QA(q), QA(r), s); c.nontrivial(a > 1e-2L && s > 0 && s < 1);
    auto g = slerp(q, r, (scalar)s); R tol = a > 3.0L ? 0.01L : a < 0.05L ? 16 * SE : 400 * orc::EPS; // near a half turn the path is ill conditioned only in the tie
    if (a > 3.0L) { // antipodal sign decision may go either way within rounding only if |dot| ~ 0
        Q d0 = toq(q); R dp = std::abs(d0.x * r.x + d0.y * r.y + d0.z * r.z + d0.w * r.w); if (dp < 64 * orc::EPS) return; tol = 400 * orc::EPS; }
    Q w = Q{u.x * std::sin(a * s / 2), u.y * std::sin(a * s / 2), u.z * std::sin(a * s / 2), std::cos(a * s / 2)} * toq(q);
    REQUIRE(same_rot(g, w, tol), "got " QF " want (%Lg,%Lg,%Lg,%Lg)", QA(g), w.x, w.y, w.z, w.w); REQUIRE(near(length(g), 1, 0, tol / orc::EPS));
    scalar k0 = gen::pos(c, 0.25, 4), k1 = gen::pos(c, 0.25, 4); auto mul = [](quaternion a, scalar k) { return quaternion{a.x * k, a.y * k, a.z * k, a.w * k}; }; // only the directions of the end points matter
    auto e1 = normalize(slerp(mul(q, k0), mul(r, k1), scalar(1))), e0 = normalize(slerp(mul(q, k0), mul(r, k1), scalar(0))); REQUIRE(same_rot(e1, toq(r), tol + 16 * orc::EPS) && same_rot(e0, toq(q), tol + 16 * orc::EPS), "end points of lengths %g and %g are not reached", (double)k0, (double)k1);
    auto gk = normalize(slerp(mul(q, k0), mul(r, k0), (scalar)s)); REQUIRE(same_rot(gk, w, tol + 16 * orc::EPS), "end points of length %g: got " QF, (double)k0, QA(gk));
}

PBT(euler_angles, 60000, 2000000, "all three angles non-zero") {
    auto x = gen::angle(c) / 2, y = gen::angle(c) / 4, z = gen::angle(c) / 2; c.note("xyz=(%.9g,%.9g,%.9g)", (double)x, (double)y, (double)z); c.nontrivial(x != 0 && y != 0 && z != 0);
    auto m = rotation_matrix_xyz(x, y, z); auto v = gen::vec(c); R lv = orc::len(tov(v));
    V w = orc::rot_aa({1, 0, 0}, x, orc::rot_aa({0, 1, 0}, y, orc::rot_aa({0, 0, 1}, z, tov(v)))); REQUIRE(near(m * v, w, lv, 64));
    REQUIRE(near(rotation_matrix_x(x) * v, orc::rot_aa({1, 0, 0}, x, tov(v)), lv, 32)); REQUIRE(near(rotation_matrix_y(y) * v, orc::rot_aa({0, 1, 0}, y, tov(v)), lv, 32)); REQUIRE(near(rotation_matrix_z(z) * v, orc::rot_aa({0, 0, 1}, z, tov(v)), lv, 32));
    auto e = get_euler_angles_xyz(m); bool gimbal = std::abs(std::cos((R)y)) < 0.02L; c.label(gimbal ? "gimbal" : "regular");
    REQUIRE(orc::finite(e)); auto m2 = rotation_matrix_xyz(e.x, e.y, e.z); R tol = gimbal ? 64 * SE : 2000 * orc::EPS;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(std::abs((R)m2[i][j] - m[i][j]) <= tol, "entry %d,%d", i, j);
    if (!gimbal) REQUIRE(std::abs((R)e.y - y) < 1e4L * orc::EPS && std::abs(std::sin(((R)e.x - x) / 2)) < 1e5L * orc::EPS && std::abs(std::sin(((R)e.z - z) / 2)) < 1e5L * orc::EPS, "angles " VF, VA(e));
}

PBT(tangent_basis, 40000, 1000000, "normal not a coordinate axis") {
    auto n = gen::dir(c); if (c.chance(1, 4)) { V d = tov(gen::dir(c)) * (R)std::pow(10.0, c.uniform(-7, -1)); static const V base[] = {{0, 0, 1}, {0.70710678L, 0, 0.70710678L}, {0, 0.70710678L, 0.70710678L}, {0, 0, -1}, {0, 1, 0}, {1, 0, 0}}; n = orc::toe(orc::unit(base[c.draw(6)] + d)); }
    c.note("n=" VF, VA(n)); c.nontrivial((n.x != 0) + (n.y != 0) + (n.z != 0) >= 2);
    vector3 p, q; plane_space(n, p, q);
    REQUIRE(orc::finite(p) && orc::finite(q)); REQUIRE(near(length(p), 1, 0, 16) && near(length(q), 1, 0, 16)); REQUIRE(near(dot(n, p), 0, 1) && near(dot(n, q), 0, 1) && near(dot(p, q), 0, 1));
    REQUIRE(near(q, orc::cross(tov(n), tov(p)), 1, 16));
    auto m = make_tangent_basis(n); REQUIRE(m.column(1) == n); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQUIRE(near(dot(m.column(i), m.column(j)), i == j, 1, 32));
}
