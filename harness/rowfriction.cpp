// P21: pairs of friction rows. Oracle: rigid body mechanics in extended precision and the friction circle, over the solver history.
#include "harness/common.hpp"
#include "edyn/constraints/constraint_row.hpp"
#include "edyn/constraints/constraint_row_friction.hpp"
#include "edyn/comp/delta_linvel.hpp"
#include "edyn/comp/delta_angvel.hpp"
using namespace edyn; using pbt::Case; using orc::R; using orc::V; using orc::tov; using orc::EPS;

struct Body { scalar im; matrix3x3 iI; delta_linvel dv; delta_angvel dw; V ev{}, ew{}; R b = 0; };
static Body body(Case &c, bool fixed) {
    Body r; r.dv = vector3_zero; r.dw = vector3_zero; r.im = fixed ? 0 : gen::pos(c, 0.05, 5); r.iI = matrix3x3_zero; if (fixed) return r;
    orc::Q q = orc::toq(gen::orient(c)); V d{(R)gen::pos(c, 0.1, 4), (R)gen::pos(c, 0.1, 4), (R)gen::pos(c, 0.1, 4)}; V ax[3]; for (int i = 0; i < 3; ++i) { V e{}; e[i] = 1; ax[i] = orc::rot(q, e); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R s = 0; for (int k = 0; k < 3; ++k) s += ax[k][i] * d[k] * ax[k][j]; r.iI.row[i][j] = (scalar)s; } return r;
}
static V mul(const matrix3x3 &m, V v) { return orc::tom(m) * v; }
using Row = constraint_row_friction::individual_row;
static R rel(const Row &r, const Body &a, const Body &b) { return orc::dot(tov(r.J[0]), tov(a.dv)) + orc::dot(tov(r.J[1]), tov(a.dw)) + orc::dot(tov(r.J[2]), tov(b.dv)) + orc::dot(tov(r.J[3]), tov(b.dw)); }
static R jm(const Row &r) { R m = 0; for (auto &j : r.J) m += orc::len(tov(j)); return m; }

PBT(friction_pair, 30000, 500000, "impulse limited by the friction circle in some solve, and not in another") {
    Body A = body(c, c.chance(1, 6)), B = body(c, c.chance(1, 4)); if (A.im == 0 && B.im == 0) A = body(c, false);
    std::vector<constraint_row> cache(c.size(1, 3)); unsigned idx = (unsigned)c.draw(cache.size()); delta_linvel dl; delta_angvel da; dl = vector3_one; da = vector3_one;
    for (auto &r : cache) { r.inv_mA = r.inv_mB = 7; r.inv_IA = r.inv_IB = matrix3x3_identity; r.impulse = 77; r.dvA = r.dvB = &dl; r.dwA = r.dwB = &da; }
    auto &n = cache[idx]; n.inv_mA = A.im; n.inv_mB = B.im; n.inv_IA = A.iI; n.inv_IB = B.iI; n.dvA = &A.dv; n.dwA = &A.dw; n.dvB = &B.dv; n.dwB = &B.dw; auto load = [&] { n.impulse = c.chance(1, 6) ? 0 : gen::pos(c, 0.05, 5); }; load();
    constraint_row_friction f; f.normal_row_index = idx; f.friction_coefficient = c.chance(1, 8) ? 0 : (scalar)c.uniform(0.05, 2); vector3 t0 = gen::dir(c), t1; { V x = tov(gen::dir(c)); V y = orc::cross(tov(t0), x); if (orc::len(y) < 0.1) c.discard(); t1 = orc::toe(y / orc::len(y)); }
    V p = tov(gen::vec(c, 2)), pb = tov(gen::vec(c, 3)); for (int i = 0; i < 2; ++i) { auto &r = f.row[i]; V d = tov(i ? t1 : t0); r.J = {orc::toe(d), orc::toe(orc::cross(p, d)), orc::toe(-d), orc::toe(-orc::cross(p - pb, d))};
        R S = orc::len2(d) * A.im + orc::dot(mul(A.iI, tov(r.J[1])), tov(r.J[1])) + orc::len2(d) * B.im + orc::dot(mul(B.iI, tov(r.J[3])), tov(r.J[3])); if (S < 1e-3L) c.discard(); r.eff_mass = (scalar)(1 / S); r.rhs = gen::s(c, 4); r.impulse = c.boolean() ? 0 : (scalar)(c.uniform(-0.7, 0.7) * f.friction_coefficient * n.impulse); }
    auto tally = [&](const Row &r, R imp) { A.ev = A.ev + tov(r.J[0]) * (A.im * imp); A.ew = A.ew + mul(A.iI, tov(r.J[1])) * imp; B.ev = B.ev + tov(r.J[2]) * (B.im * imp); B.ew = B.ew + mul(B.iI, tov(r.J[3])) * imp; R k = std::abs(imp) * jm(r) * 20; A.b += k; B.b += k; };
    auto chk = [&](const char *when) { for (auto *x : {&A, &B}) { R t = 64 * EPS * (1 + x->b); REQUIRE(orc::dist(tov(x->dv), x->ev) <= t && orc::dist(tov(x->dw), x->ew) <= t, "%s: velocity changes do not equal the effect of the impulses", when); } REQUIRE(dl == vector3_one && da == vector3_one, "%s: other bodies were changed", when); };
    if (c.boolean()) { warm_start(f, cache); for (auto &r : f.row) tally(r, r.impulse); chk("warm start"); } else f.row[0].impulse = f.row[1].impulse = 0;
    size_t it = c.size(1, 6); int lim = 0, fr = 0; for (size_t k = 0; k < it; ++k) {
        if (k && c.boolean()) load(); R before[2], want[2], tol = 0; for (int i = 0; i < 2; ++i) { auto &r = f.row[i]; before[i] = r.impulse; R v = rel(r, A, B); want[i] = before[i] + (r.rhs - v) * r.eff_mass; tol += 256 * EPS * (std::abs(before[i]) + r.eff_mass * (std::abs((R)r.rhs) + jm(r) * (orc::len(tov(A.dv)) + orc::len(tov(A.dw)) + orc::len(tov(B.dv)) + orc::len(tov(B.dw)) + 1))); }
        R cap = (R)f.friction_coefficient * n.impulse, l = std::hypot(want[0], want[1]); bool over = l > cap; if (over) for (auto &w : want) w = l > 0 ? w / l * cap : 0; (over ? lim : fr)++;
        solve_friction(f, cache); R got = std::hypot((R)f.row[0].impulse, (R)f.row[1].impulse); REQUIRE(got <= cap * (1 + 16 * EPS) + 1e-30L, "friction impulse %Lg exceeds coefficient times normal impulse %Lg", got, cap);
        for (int i = 0; i < 2; ++i) { REQUIRE(std::abs(f.row[i].impulse - want[i]) <= tol * 4 + 2 * EPS, "impulse %d is %g, want %Lg (limit %Lg)", i, (double)f.row[i].impulse, want[i], cap); tally(f.row[i], (R)f.row[i].impulse - before[i]); } chk("solve"); }
    if (A.im > 0 && B.im > 0) { V P = tov(A.dv) / A.im + tov(B.dv) / B.im; REQUIRE(orc::len(P) <= 64 * EPS * (1 + A.b + B.b) * (1 / (R)A.im + 1 / (R)B.im), "friction changed the momentum of the pair by %Lg", orc::len(P)); }
    c.note("mu=%g normal=%g iterations=%zu limited=%d free=%d", (double)f.friction_coefficient, (double)n.impulse, it, lim, fr); c.nontrivial(lim > 0 && fr > 0);
}
