// P16: combination of materials and the table of material pairs. Oracle: formulas and a model keyed by sorted ids.
#include "harness/common.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include <map>
using namespace edyn; using pbt::Case; using orc::R; using orc::EPS;
static bool nearr(scalar g, R w) { return std::isfinite(g) && std::abs((R)g - w) <= 16 * EPS * std::abs(w) + 1e-30L; }

PBT(mixing, 100000, 2000000, "two different positive values") {
    scalar a = c.chance(1, 6) ? 0 : gen::pos(c, 0.001, 2), b = c.chance(1, 6) ? 0 : c.chance(1, 6) ? a : gen::pos(c, 0.001, 2); c.note("a=%.9g b=%.9g", (double)a, (double)b); c.nontrivial(a > 0 && b > 0 && a != b);
    REQUIRE(nearr(material_mix_friction(a, b), std::sqrt((R)a * b)), "friction is not the geometric mean"); REQUIRE(material_mix_friction(a, b) == material_mix_friction(b, a)); REQUIRE(material_mix_restitution(a, b) == std::min(a, b) && material_mix_restitution(b, a) == std::min(a, b), "restitution"); REQUIRE(material_mix_spin_friction(a, b) == std::max(a, b) && material_mix_spin_friction(b, a) == std::max(a, b), "spin friction"); REQUIRE(material_mix_roll_friction(a, b) == std::max(a, b) && material_mix_roll_friction(b, a) == std::max(a, b), "roll friction"); REQUIRE(material_mix_friction(a, a) <= a * (1 + 4 * (scalar)EPS));
    scalar k0 = c.chance(1, 6) ? large_scalar : gen::pos(c, 1, 1e6), k1 = c.chance(1, 6) ? large_scalar : gen::pos(c, 1, 1e6); R ser = k0 == large_scalar && k1 == large_scalar ? (R)large_scalar / 2 : (R)k0 * (R)k1 / ((R)k0 + (R)k1); for (auto f : {material_mix_stiffness, material_mix_damping}) { REQUIRE(nearr(f(k0, k1), ser), "springs in series: got %.9g of %.9g and %.9g", (double)f(k0, k1), (double)k0, (double)k1); REQUIRE(nearr(f(k1, k0), ser)); if (k0 < large_scalar) REQUIRE(f(k0, k1) <= std::min(k0, k1) * (1 + 16 * (scalar)EPS)); }
}

PBT(mix_table_model, 20000, 300000, "lookups in the reverse order and replacement of entries") {
    material_mix_table t; std::map<std::pair<unsigned, unsigned>, scalar> m; size_t n = c.size(1, 60), rev = 0, repl = 0; unsigned range = (unsigned)c.size(2, c.chance(1, 4) ? 200 : 8); scalar serial = 1; bool hi = c.chance(1, 4);
    auto id = [&] { unsigned i = (unsigned)c.draw(range); return (material::id_type)(hi && (i & 1) ? 65534 - i : i); };
    for (size_t s = 0; s < n; ++s) {
        material::id_type a = id(), b = id(); if (c.chance(1, 6)) b = a; std::pair<unsigned, unsigned> k{std::min(a, b), std::max(a, b)}; material_mix_table::pair_type p(a, b), q(b, a);
        switch (c.draw(4)) {
        case 0: case 1: { material_base mb; mb.friction = serial; mb.restitution = serial + 1; mb.spin_friction = serial + 2; mb.roll_friction = serial + 3; mb.stiffness = serial + 4; mb.damping = serial + 5; repl += m.count(k); t.insert(p, mb); m[k] = serial; serial += 10; break; }
        case 2: t.remove(p); m.erase(k); break;
        default: if (m.count(k)) { t.get(q).friction = serial; m[k] = serial; auto &x = t.get(p); x.restitution = serial + 1; x.spin_friction = serial + 2; x.roll_friction = serial + 3; x.stiffness = serial + 4; x.damping = serial + 5; serial += 10; }
        }
        auto check = [&](const material_mix_table::pair_type &x, bool has, scalar v) { REQUIRE(t.contains(x) == has, "contains(%u,%u) is %d", x.first, x.second, !has); auto *g = t.try_get(x); auto *cg = std::as_const(t).try_get(x); REQUIRE((g != nullptr) == has && cg == g, "try_get"); if (has) { auto &gr = std::as_const(t).get(x); REQUIRE(&gr == g && &t.get(x) == g); REQUIRE(g->friction == v && g->restitution == v + 1 && g->spin_friction == v + 2 && g->roll_friction == v + 3 && g->stiffness == v + 4 && g->damping == v + 5, "material of (%u,%u) has friction %g, want %g", x.first, x.second, (double)g->friction, (double)v); } };
        auto it = m.find(k); check(p, it != m.end(), it != m.end() ? it->second : 0); check(q, it != m.end(), it != m.end() ? it->second : 0); rev += it != m.end() && a > b;
        if (s % 8 == 7 || s + 1 == n) for (auto &e : m) { check({(material::id_type)e.first.second, (material::id_type)e.first.first}, true, e.second); check({(material::id_type)e.first.first, (material::id_type)e.first.second}, true, e.second); }
    }
    c.note("steps=%zu entries=%zu replaced=%zu", n, m.size(), repl); c.nontrivial(rev > 0 && repl > 0 && m.size() > 2);
}
