// P21: constraint rows of the velocity solver. Oracle: rigid body mechanics in extended precision and invariants over the solver history.
#include "harness/common.hpp"
#include "edyn/constraints/constraint_row.hpp"
#include "edyn/constraints/constraint_row_options.hpp"
#include "edyn/constraints/constraint_row_spin_friction.hpp"
using namespace edyn; using pbt::Case; using orc::R; using orc::V; using orc::tov; using orc::EPS;

struct Body { scalar im; matrix3x3 iI; V v, w; delta_linvel dv; delta_angvel dw; V edv, edw; R bdv = 0, bdw = 0; };
static matrix3x3 inv_inertia(Case &c) { // R diag R^T with positive diagonal
    orc::Q q = orc::toq(gen::orient(c)); V d{(R)gen::pos(c, 0.1, 4), (R)gen::pos(c, 0.1, 4), (R)gen::pos(c, 0.1, 4)}; if (c.chance(1, 3)) d.y = d.z = d.x; V ax[3]; for (int i = 0; i < 3; ++i) { V e{}; e[i] = 1; ax[i] = orc::rot(q, e); } matrix3x3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R s = 0; for (int k = 0; k < 3; ++k) s += ax[k][i] * d[k] * ax[k][j]; m.row[i][j] = (scalar)s; } return m;
}
static Body body(Case &c, bool fixed) { Body b; b.im = fixed ? 0 : gen::pos(c, 0.05, 5); b.iI = fixed ? matrix3x3_zero : inv_inertia(c); b.v = tov(gen::vec(c, 5)); b.w = tov(gen::vec(c, 5)); if (fixed && c.boolean()) b.v = b.w = V{}; b.dv = vector3_zero; b.dw = vector3_zero; return b; }
static R g0(V j, V v) { return orc::dot(j, v); }
static V mul(const matrix3x3 &m, V v) { return orc::tom(m) * v; }
static R relvel(const constraint_row &r, V va, V wa, V vb, V wb) { return g0(tov(r.J[0]), va) + g0(tov(r.J[1]), wa) + g0(tov(r.J[2]), vb) + g0(tov(r.J[3]), wb); }
static R mag(const constraint_row &r) { R m = 0; for (auto &j : r.J) m += orc::len(tov(j)); return m; }
static R jmj(const constraint_row &r) { return orc::len2(tov(r.J[0])) * r.inv_mA + orc::dot(mul(r.inv_IA, tov(r.J[1])), tov(r.J[1])) + orc::len2(tov(r.J[2])) * r.inv_mB + orc::dot(mul(r.inv_IB, tov(r.J[3])), tov(r.J[3])); }

// The accumulated effect of the impulses of a set of rows.
static void tally(const constraint_row &r, R imp, Body &a, Body &b) { a.edv = a.edv + tov(r.J[0]) * (r.inv_mA * imp); a.edw = a.edw + mul(r.inv_IA, tov(r.J[1])) * imp; b.edv = b.edv + tov(r.J[2]) * (r.inv_mB * imp); b.edw = b.edw + mul(r.inv_IB, tov(r.J[3])) * imp; R k = std::abs(imp) * mag(r) * 20; for (auto *x : {&a, &b}) { x->bdv += k; x->bdw += k; } }

PBT(row_history, 30000, 500000, "two dynamic bodies, several rows, some impulse at a limit and some not") {
    bool physical = c.boolean(); Body A = body(c, c.chance(1, 6)), B = body(c, c.chance(1, 4)); if (A.im == 0 && B.im == 0) A = body(c, false); size_t n = c.size(1, 6); std::vector<constraint_row> rows(n); std::vector<constraint_row_options> opts(n); V pa{}, pb = tov(gen::vec(c, 3)); size_t clamped = 0, freed = 0;
    for (size_t i = 0; i < n; ++i) { auto &r = rows[i]; vector3 d = gen::dir(c); V p = tov(gen::vec(c, 2)); if (physical) { r.J = {d, orc::toe(orc::cross(p - pa, tov(d))), -d, orc::toe(-orc::cross(p - pb, tov(d)))}; } else if (c.chance(1, 4)) r.J = {vector3_zero, d, vector3_zero, -d}; else r.J = {gen::vec(c, 2), gen::vec(c, 2), gen::vec(c, 2), gen::vec(c, 2)};
        r.inv_mA = A.im; r.inv_mB = B.im; r.inv_IA = A.iI; r.inv_IB = B.iI; r.dvA = &A.dv; r.dwA = &A.dw; r.dvB = &B.dv; r.dwB = &B.dw; switch (c.draw(3)) { case 0: r.lower_limit = 0; r.upper_limit = large_scalar; break; case 1: r.lower_limit = -large_scalar; r.upper_limit = large_scalar; break; default: { scalar l = gen::pos(c, 0.05, 5); r.lower_limit = c.chance(1, 3) ? -l / 2 : -l; r.upper_limit = c.chance(1, 8) ? r.lower_limit : l; } } r.impulse = c.boolean() ? 0 : (scalar)orc::clampr((R)c.real(3), r.lower_limit, r.upper_limit);
        if (jmj(r) < 1e-3L) c.discard(); auto &o = opts[i]; REQUIRE(o.error == 0 && o.restitution == 0); if (c.boolean()) o.error = gen::s(c, 2); if (c.boolean()) o.erp = (scalar)c.unit(); if (c.boolean()) o.restitution = (scalar)c.unit();
        prepare_row(r, o, orc::toe(A.v), orc::toe(A.w), orc::toe(B.v), orc::toe(B.w)); R m = mag(r), rv = relvel(r, A.v, A.w, B.v, B.w), S = jmj(r); REQUIRE(std::abs(r.eff_mass * S - 1) <= 64 * EPS * (1 + m * m * 25 / S), "effective mass %g, want %Lg", (double)r.eff_mass, 1 / S); R want = -(o.error * (R)o.erp + rv * (1 + (R)o.restitution)); REQUIRE(std::abs(r.rhs - want) <= 64 * EPS * (m * 40 + 4), "rhs %g, want %Lg", (double)r.rhs, want); }
    if (c.boolean()) for (auto &r : rows) { warm_start(r); tally(r, r.impulse, A, B); } else for (auto &r : rows) r.impulse = 0 < r.lower_limit ? r.lower_limit : 0 > r.upper_limit ? r.upper_limit : 0;
    std::vector<scalar> base(n); auto consistent = [&](const char *when) { for (auto *x : {&A, &B}) { R tol = 64 * EPS * (1 + x->bdv); REQUIRE(orc::dist(tov(x->dv), x->edv) <= tol && orc::dist(tov(x->dw), x->edw) <= tol, "%s: velocity changes of a body do not equal the effect of the impulses", when); if (x->im == 0) REQUIRE(orc::len(tov(x->dv)) == 0 && orc::len(tov(x->dw)) == 0, "a body of infinite mass moved"); } }; consistent("warm start");
    size_t iters = c.size(1, 8); for (size_t k = 0; k < iters; ++k) for (size_t i = 0; i < n; ++i) { auto &r = rows[i]; scalar before = r.impulse; delta_linvel dva = A.dv, dvb = B.dv; scalar d = solve(r); REQUIRE(tov(A.dv).x == tov(dva).x && B.dv.x == dvb.x, "solve must not apply the impulse"); REQUIRE(r.impulse >= r.lower_limit && r.impulse <= r.upper_limit, "impulse %g outside of [%g,%g]", (double)r.impulse, (double)r.lower_limit, (double)r.upper_limit); R itol = 16 * EPS * (std::abs((R)before) + std::abs((R)r.impulse)) + 1e-30L; REQUIRE(std::abs(((R)r.impulse - before) - d) <= itol, "returned change %g of impulse %g to %g", (double)d, (double)before, (double)r.impulse);
        R rvb = relvel(r, tov(dva), tov(A.dw), tov(dvb), tov(B.dw)); R free_imp = before + (r.rhs - rvb) * r.eff_mass, ftol = 256 * EPS * (std::abs(before) + r.eff_mass * (std::abs(r.rhs) + mag(r) * (orc::len(tov(dva)) + orc::len(tov(A.dw)) + orc::len(tov(dvb)) + orc::len(tov(B.dw)) + 1))); REQUIRE(std::abs(r.impulse - orc::clampr(free_imp, r.lower_limit, r.upper_limit)) <= ftol, "impulse %g, want %Lg clamped to [%g,%g]", (double)r.impulse, free_imp, (double)r.lower_limit, (double)r.upper_limit);
        apply_row_impulse(d, r); tally(r, d, A, B); if (r.impulse > r.lower_limit && r.impulse < r.upper_limit) { ++freed; R rv = relvel(r, tov(A.dv), tov(A.dw), tov(B.dv), tov(B.dw)); R t = 256 * EPS * (1 + mag(r) * (A.bdv + B.bdv + 1) + std::abs(r.rhs)) * (1 + jmj(r) * std::abs(r.eff_mass)); REQUIRE(std::abs(rv - r.rhs) <= t, "an unlimited row must reach its target speed: %Lg, want %g", rv, (double)r.rhs); } else ++clamped; consistent("solve"); }
    if (physical && A.im > 0 && B.im > 0) { // momentum of the pair is conserved
        V P = A.edv / A.im + B.edv / B.im; V Pg = tov(A.dv) / A.im + tov(B.dv) / B.im; REQUIRE(orc::len(Pg) <= 64 * EPS * (1 + A.bdv + B.bdv) * (1 / (R)A.im + 1 / (R)B.im) + orc::len(P), "linear momentum"); c.label("physical"); }
    c.note("rows=%zu iterations=%zu physical=%d limited=%zu free=%zu", n, iters, (int)physical, clamped, freed); c.nontrivial(A.im > 0 && B.im > 0 && n > 1 && clamped > 0 && freed > 0);
}

PBT(bounce, 30000, 400000, "approaching bodies with restitution") { // a single contact row
    Body A = body(c, false), B = body(c, c.chance(1, 3)); constraint_row r; vector3 d = gen::dir(c); V p = tov(gen::vec(c, 2)), pb = tov(gen::vec(c, 3)); r.J = {d, orc::toe(orc::cross(p, tov(d))), -d, orc::toe(-orc::cross(p - pb, tov(d)))}; r.inv_mA = A.im; r.inv_mB = B.im; r.inv_IA = A.iI; r.inv_IB = B.iI; r.dvA = &A.dv; r.dwA = &A.dw; r.dvB = &B.dv; r.dwB = &B.dw; r.lower_limit = 0; r.upper_limit = large_scalar; r.impulse = 0; constraint_row_options o; o.restitution = (scalar)c.unit(); prepare_row(r, o, orc::toe(A.v), orc::toe(A.w), orc::toe(B.v), orc::toe(B.w)); R before = relvel(r, A.v, A.w, B.v, B.w); auto imp = solve(r); apply_row_impulse(imp, r); R after = before + relvel(r, tov(A.dv), tov(A.dw), tov(B.dv), tov(B.dw)); R t = 512 * EPS * (1 + mag(r) * 40); c.note("speed=%Lg restitution=%g", before, (double)o.restitution); c.nontrivial(before < -0.01L && o.restitution > 0);
    if (before < 0) REQUIRE(std::abs(after + o.restitution * before) <= t, "rebound speed %Lg, want %Lg", after, -o.restitution * before); else REQUIRE(imp == 0 || before <= t, "separating bodies were pulled together");
    if (B.im > 0) { // angular momentum about the origin: A at origin, B at pb
        V L = orc::cross(V{}, tov(r.J[0])) + orc::cross(pb, tov(r.J[2])) + tov(r.J[1]) + tov(r.J[3]); REQUIRE(orc::len(L) < 64 * EPS * 40, "harness"); }
}

PBT(spin_friction, 40000, 600000, "impulse limited by the normal load in some solve") {
    Body A = body(c, false), B = body(c, c.chance(1, 3)); std::vector<constraint_row> cache(c.size(1, 3)); unsigned idx = (unsigned)c.draw(cache.size()); for (auto &r : cache) { r.inv_mA = r.inv_mB = 7; r.inv_IA = r.inv_IB = matrix3x3_identity; r.impulse = 77; static delta_linvel dl; static delta_angvel da; r.dvA = r.dvB = &dl; r.dwA = r.dwB = &da; } auto &nr = cache[idx]; vector3 d = gen::dir(c); nr.inv_mA = A.im; nr.inv_mB = B.im; nr.inv_IA = A.iI; nr.inv_IB = B.iI; nr.dvA = &A.dv; nr.dwA = &A.dw; nr.dvB = &B.dv; nr.dwB = &B.dw; nr.impulse = c.chance(1, 6) ? 0 : gen::pos(c, 0.05, 5);
    constraint_row_spin_friction s; s.J = {d, -d}; s.normal_row_index = idx; s.friction_coefficient = c.chance(1, 6) ? 0 : (scalar)c.uniform(0, 1); R S = orc::dot(mul(A.iI, tov(d)), tov(d)) + orc::dot(mul(B.iI, tov(d)), tov(d)); s.eff_mass = (scalar)(1 / S); s.rhs = -(scalar)(orc::dot(tov(d), A.w) - orc::dot(tov(d), B.w)); s.impulse = c.boolean() ? 0 : (scalar)(c.uniform(-1, 1) * s.friction_coefficient * nr.impulse); bool lim = false; V wa{}, wb{}; R total = 0; auto chk = [&] { R t = 128 * EPS * (1 + std::abs(total) * 10 + 10 * 5); REQUIRE(orc::dist(tov(A.dw), wa) <= t && orc::dist(tov(B.dw), wb) <= t, "angular velocity changes do not equal the effect of the impulses"); REQUIRE(A.dv == vector3_zero && B.dv == vector3_zero, "spinning friction must not change linear velocity"); }; auto add = [&](R i) { wa = wa + mul(A.iI, tov(d)) * i; wb = wb - mul(B.iI, tov(d)) * i; total += std::abs(i); };
    if (c.boolean()) { warm_start(s, cache); add(s.impulse); chk(); } else s.impulse = 0;
    size_t it = c.size(1, 5); for (size_t k = 0; k < it; ++k) { if (k && c.boolean()) nr.impulse = c.chance(1, 4) ? 0 : gen::pos(c, 0.05, 5); scalar b = s.impulse; solve_spin_friction(s, cache); add((R)s.impulse - b); chk(); R cap = (R)s.friction_coefficient * nr.impulse; REQUIRE(std::abs((R)s.impulse) <= cap * (1 + 4 * EPS), "spin impulse %g exceeds the limit %Lg", (double)s.impulse, cap); R rv = orc::dot(tov(d), tov(A.dw)) - orc::dot(tov(d), tov(B.dw)); if (std::abs((R)s.impulse) < cap * (1 - 64 * EPS) - 1e-6L) REQUIRE(std::abs(rv - s.rhs) <= 256 * EPS * (30 + total * 20) * (1 + S), "unlimited friction must stop the relative spin"); else { lim = true; if (std::abs(rv - s.rhs) > 256 * EPS * (30 + total * 20) * (1 + S)) REQUIRE(cap == 0 || (s.impulse > 0) == (s.rhs > rv), "limited friction must oppose the remaining spin"); } } c.note("mu=%g normal=%g iterations=%zu", (double)s.friction_coefficient, (double)nr.impulse, it); c.nontrivial(lim && s.friction_coefficient > 0);
}
