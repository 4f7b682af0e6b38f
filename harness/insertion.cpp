// P10: selection of contact points. Oracle: the documented policy recomputed in long double, checked along histories of insertions.
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
#include "edyn/config/constants.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::EPS;
static R score(V a, V b, V c, V d) { return orc::len2(orc::cross(a - b, a - c)) + orc::len2(orc::cross(a - c, a - d)) + orc::len2(orc::cross(a - d, a - b)) + orc::len2(orc::cross(b - c, c - d)); }
static R spread(const std::vector<V> &p) { R m = 0; for (auto &a : p) for (auto &b : p) m = std::max(m, orc::dist(a, b)); return m; }

PBT(insertion_history, 40000, 1000000, "history reaches four points and replaces one") {
    std::array<vector3, 4> pts{}; size_t n = 0; int kind = (int)c.draw(4); V o = tov(gen::vec(c, 2)), u = orc::unit(tov(gen::dir(c))), w = tov(gen::dir(c)); w = w - u * orc::dot(w, u); if (orc::len(w) < 0.1L) c.discard(); w = orc::unit(w); size_t steps = c.size(1, 12); bool replaced = false, full = false;
    auto next = [&]() -> vector3 { switch (kind) { case 0: return orc::toe(o + u * ((R)c.integer(-8, 8) / 4)); case 1: return orc::toe(o + u * ((R)c.integer(-8, 8) / 4) + w * ((R)c.integer(-8, 8) / 4)); case 2: return orc::toe(o + u * (R)c.real(2) + w * (R)c.real(2)); default: return gen::vec(c, 3); } };
    for (size_t s = 0; s < steps; ++s) { vector3 p = n && c.chance(1, 5) ? orc::toe(tov(pts[c.draw(n)]) + tov(gen::dir(c)) * (R)c.uniform(0, 0.02)) : next(); c.note("add " VF, VA(p)); size_t before = n; std::vector<V> old; for (size_t i = 0; i < n; ++i) old.push_back(tov(pts[i])); V P = tov(p); R merge2 = (R)contact_merging_threshold * contact_merging_threshold;
        auto r = insertion_point_index(pts, n, p);
        if (r.type == point_insertion_type::append) { REQUIRE(before < 4 && n == before + 1 && r.index == before, "append at %zu with %zu points gives %zu", r.index, before, n); pts[r.index] = p; }
        else { REQUIRE(n == before, "number of points changed without appending"); if (r.type == point_insertion_type::none) { REQUIRE(before >= 2, "point dropped with %zu points", before); } else { REQUIRE(r.index < before, "index %zu of %zu points", r.index, before); } }
        std::vector<V> now = old; if (r.type == point_insertion_type::append) now.push_back(P); else if (r.type != point_insertion_type::none) now[r.index] = P; R d2 = r.index < before ? orc::len2(old[r.index] - P) : -1; R tm = 16 * EPS * 20 * 0.02L;
        if (before == 0) REQUIRE(r.type == point_insertion_type::append);
        else if (before == 1) { R d = orc::len2(old[0] - P); if (d > merge2 + tm) REQUIRE(r.type == point_insertion_type::append, "distinct second point not appended"); if (d < merge2 - tm) REQUIRE(r.type == point_insertion_type::similar && r.index == 0, "second point close to the first must be merged with it"); }
        else if (before == 2) { R area2 = orc::len2(orc::cross(P - old[0], P - old[1])), noise = 256 * EPS * 100; if (area2 > EPS + noise) REQUIRE(r.type == point_insertion_type::append, "third point off the line of the first two not appended"); if (r.type != point_insertion_type::append) { R sp0 = spread(old), best = std::max(sp0, std::max(orc::dist(old[0], P), orc::dist(old[1], P))); REQUIRE(spread(now) >= best - 64 * EPS * 20, "segment length %Lg, could be %Lg", spread(now), best); } if (r.type == point_insertion_type::similar) REQUIRE(d2 < merge2 + tm); if (r.type == point_insertion_type::replace) REQUIRE(d2 > merge2 - tm); }
        else if (before == 3) { V nn = orc::cross(old[0] - old[1], old[1] - old[2]); R l = orc::len(nn); if (l > 1e-3L) { nn = nn / l; R h = std::abs(orc::dot(P - old[0], nn)), in = 1e30L; for (int i = 0; i < 3; ++i) { V e = old[(i + 1) % 3] - old[i]; in = std::min(in, orc::dot(P - old[i], orc::cross(nn, e)) / orc::len(e)); } R m = 256 * EPS * 20 * (1 + 1 / l); if (h > m || in < -m * 4) REQUIRE(r.type == point_insertion_type::append, "fourth point outside the triangle not appended (height %Lg, inside by %Lg)", h, in); if (r.type == point_insertion_type::append) ; else REQUIRE(r.type == point_insertion_type::none, "non-degenerate triangle: unexpected replacement"); } }
        else { full = true; R cur = score(old[0], old[1], old[2], old[3]), best = cur; for (int i = 0; i < 4; ++i) { auto t = old; t[i] = P; best = std::max(best, score(t[0], t[1], t[2], t[3])); } R got = score(now[0], now[1], now[2], now[3]), m = 1024 * EPS * (1 + best) * 8; REQUIRE(got >= best - m, "area measure after insertion %Lg, best %Lg, before %Lg", got, best, cur); if (r.type == point_insertion_type::similar) REQUIRE(d2 < merge2 + tm); if (r.type == point_insertion_type::replace) { REQUIRE(d2 > merge2 - tm); replaced = true; } }
        if (r.type != point_insertion_type::none) pts[r.index] = p;
        // drift: contact points move with the bodies
        if (c.chance(1, 6) && n == 3) { R t = c.integer(-8, 8) / 4.0L; pts[c.draw(3)] = orc::toe(tov(pts[0]) + u * t); }
    } c.nontrivial(full && replaced);
}

PBT(collinear_triple, 40000, 800000, "three distinct collinear points") {
    // Three collinear points (as left behind by sliding contacts) and a new one: the extent of the set must survive.
    V u = c.boolean() ? V{1, 0, 0} : c.boolean() ? V{0, 0, 1} : V{0, 1, 0}; R a[3]; for (auto &x : a) x = c.integer(-20, 20) / 4.0L; std::array<vector3, 4> pts{}; for (int i = 0; i < 3; ++i) pts[i] = orc::toe(u * a[i]); vector3 p = c.boolean() ? orc::toe(u * (R)(c.integer(-20, 20) / 4.0L)) : gen::vec(c, 4); size_t n = 3; c.note("at %Lg %Lg %Lg, new " VF, a[0], a[1], a[2], VA(p)); auto r = insertion_point_index(pts, n, p); bool distinct = a[0] != a[1] && a[1] != a[2] && a[0] != a[2]; c.nontrivial(distinct); REQUIRE(n == 3 && r.type == point_insertion_type::replace && r.index < 3, "type %d index %zu", (int)r.type, r.index); R lo = std::min(a[0], std::min(a[1], a[2])), hi = std::max(a[0], std::max(a[1], a[2])), l2 = 1e30L, h2 = -1e30L; for (size_t i = 0; i < 3; ++i) if (i != r.index) { l2 = std::min(l2, a[i]); h2 = std::max(h2, a[i]); } REQUIRE(l2 == lo && h2 == hi, "point %zu is replaced, which is an end of the contact segment [%Lg,%Lg]", r.index, lo, hi);
}
