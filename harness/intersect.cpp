// P05: intersection tests. Oracle: long double geometry with a rounding margin around touching configurations;
// lattice inputs (exact arithmetic) cover the touching configurations themselves.
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::toq; using orc::near; using orc::EPS;
static const R SE = std::sqrt(orc::EPS);
struct P2 { R x, y; };
static P2 t2(const vector2 &v) { return {(R)v.x, (R)v.y}; }
static vector2 lat2(pbt::Case &c, int n = 6) { return {(scalar)c.integer(-n, n) / 2, (scalar)c.integer(-n, n) / 2}; }

PBT(aabb_overlap, 60000, 1000000, "boxes touch or overlap on at least two axes") {
    vector3 a0, a1, b0, b1; int ov = 0; bool want = true;
    for (int i = 0; i < 3; ++i) { auto x = [&] { return (scalar)c.integer(-6, 6) / 2; }; scalar p = x(), q = x(), r = x(), s = x(); if (c.chance(1, 3)) { q = p + (scalar)c.uniform(0, 4); } a0[i] = std::min(p, q); a1[i] = std::max(p, q); b0[i] = std::min(r, s); b1[i] = std::max(r, s); bool o = !(a1[i] < b0[i] || b1[i] < a0[i]); ov += o; want &= o; }
    c.note("A=" VF VF " B=" VF VF, VA(a0), VA(a1), VA(b0), VA(b1)); c.nontrivial(ov >= 2); REQUIRE(intersect_aabb(a0, a1, b0, b1) == want); REQUIRE(intersect_aabb(b0, b1, a0, a1) == want);
}

PBT(segments_2d, 100000, 3000000, "segments share at least one point") {
    vector2 p0, p1, q0, q1; bool lat = c.draw(3) != 0;
    if (lat) { p0 = lat2(c); p1 = lat2(c); q0 = lat2(c); q1 = lat2(c); if (c.chance(1, 3)) { auto d = p1 - p0; q0 = p0 + d * ((scalar)c.integer(-8, 8) / 4); q1 = p0 + d * ((scalar)c.integer(-8, 8) / 4); if (c.chance(1, 4)) { vector2 o = lat2(c); q0 += o; q1 += o; } } }
    else { p0 = gen::vec2(c, 5); p1 = gen::vec2(c, 5); q0 = gen::vec2(c, 5); q1 = gen::vec2(c, 5); }
    if (length(p1 - p0) < 0.2 || length(q1 - q0) < 0.2) c.discard();
    c.note("p=(%g,%g)-(%g,%g) q=(%g,%g)-(%g,%g)", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y);
    P2 P{(R)p0.x, (R)p0.y}, Q{(R)q0.x, (R)q0.y}, d{(R)p1.x - p0.x, (R)p1.y - p0.y}, e{(R)q1.x - q0.x, (R)q1.y - q0.y}; auto perp = [](P2 a, P2 b) { return a.x * b.y - a.y * b.x; };
    R den = perp(d, e), dd = d.x * d.x + d.y * d.y, ee = e.x * e.x + e.y * e.y; P2 w{Q.x - P.x, Q.y - P.y}; R m2 = 100 + dd + ee;
    scalar s0 = -9, t0 = -9, s1 = -9, t1 = -9; size_t n = intersect_segments(p0, p1, q0, q1, s0, t0, s1, t1); REQUIRE(n <= 2);
    auto on = [&](R s, P2 A, P2 D) { return P2{A.x + D.x * s, A.y + D.y * s}; }; auto far = [&](P2 a, P2 b) { return std::hypot((double)(a.x - b.x), (double)(a.y - b.y)); };
    if (std::abs(den) > 0.02L) { R s = perp(w, e) / den, t = perp(w, d) / den, mar = 64 * EPS * m2 / std::abs(den); bool in = s >= 0 && s <= 1 && t >= 0 && t <= 1; R edge = std::min(std::min(std::abs(s), std::abs(1 - s)), std::min(std::abs(t), std::abs(1 - t))); bool exact_ok = lat && edge == 0;
        if (in && (edge > mar)) REQUIRE(n == 1, "cross at s=%Lg t=%Lg, reported %zu", s, t, n); if (!in && edge > mar) REQUIRE(n == 0, "s=%Lg t=%Lg do not meet, reported %zu", s, t, n); c.nontrivial(in); c.label_if(exact_ok && in, "touching at an end");
        if (n) { REQUIRE(n == 1 && std::abs(s0 - s) <= mar && std::abs(t0 - t) <= mar, "parameters (%g,%g), want (%Lg,%Lg)", (double)s0, (double)t0, s, t); }
    } else if (den == 0 && lat) { R col = perp(w, d); if (col != 0) { REQUIRE(n == 0); c.label("parallel apart"); return; }
        R a = (w.x * d.x + w.y * d.y) / dd, b = ((Q.x + e.x - P.x) * d.x + (Q.y + e.y - P.y) * d.y) / dd; R lo = std::max<R>(0, std::min(a, b)), hi = std::min<R>(1, std::max(a, b)); c.label("collinear"); R mar = 256 * EPS * m2;
        if (hi < lo - mar) REQUIRE(n == 0, "collinear but apart"); else if (hi > lo + mar) { c.nontrivial(); REQUIRE(n == 2, "overlap [%Lg,%Lg], reported %zu", lo, hi, n); REQUIRE(std::abs(std::min(s0, s1) - lo) <= mar && std::abs(std::max(s0, s1) - hi) <= mar, "overlap [%Lg,%Lg], reported [%g,%g]", lo, hi, (double)s0, (double)s1);
            auto A = on(s0, P, d), B = on(s1, P, d), C = on(t0, Q, e), D = on(t1, Q, e); double m = (double)mar * 8; REQUIRE((far(A, C) < m && far(B, D) < m) || (far(A, D) < m && far(B, C) < m), "the two parametrisations give different points"); }
        else if (n) { REQUIRE(std::abs(s0 - lo) <= 2 * mar); REQUIRE(far(on(s0, P, d), on(t0, Q, e)) <= 8 * mar, "touch point differs"); }
    }
}

PBT(line_circle_2d, 100000, 3000000, "line meets the circle") {
    vector2 p0, p1; scalar r = gen::pos(c, 0.1, 4); bool tan = false;
    switch (c.draw(4)) { case 0: { // exact tangents: axis parallel or Pythagorean
            tan = true; int k = (int)c.draw(4); r = (scalar)c.integer(1, 8) / 2; if (k == 0) { p0 = {r, (scalar)c.integer(-4, 4)}; p1 = {r, p0.y + (scalar)c.integer(1, 4)}; } else if (k == 1) { p0 = {(scalar)c.integer(-4, 4), -r}; p1 = {p0.x - (scalar)c.integer(1, 4), -r}; }
            else { r = 5 * (scalar)c.integer(1, 2); scalar a = (scalar)c.integer(-2, 2), b = a + (scalar)c.integer(1, 3); vector2 q{r * 3 / 5, r * 4 / 5}, d{-4, 3}; p0 = q + d * a; p1 = q + d * b; } break; }
        default: p0 = gen::vec2(c, 5); p1 = gen::vec2(c, 5); }
    if (length(p1 - p0) < 0.2) c.discard();
    c.note("p0=(%g,%g) p1=(%g,%g) r=%g", p0.x, p0.y, p1.x, p1.y, r); P2 a = t2(p0), d{(R)p1.x - p0.x, (R)p1.y - p0.y}; R A = d.x * d.x + d.y * d.y, B = d.x * a.x + d.y * a.y, C = a.x * a.x + a.y * a.y - (R)r * r, D = B * B - A * C; R noise = 64 * EPS * (B * B + A * (a.x * a.x + a.y * a.y + (R)r * r)) + 2 * EPS;
    scalar s0 = -99, s1 = -99; size_t n = intersect_line_circle(p0, p1, r, s0, s1); REQUIRE(n <= 2); if (D > noise) { REQUIRE(n == 2, "two intersections, reported %zu", n); } if (D < -noise) REQUIRE(n == 0, "no intersection, reported %zu", n); c.nontrivial(n > 0); if (tan) { c.label("tangent"); REQUIRE(n >= 1, "tangent line missed"); }
    R mar = 8 * std::sqrt(noise) + 64 * EPS * 100; for (size_t i = 0; i < n; ++i) { R s = i ? s1 : s0; R x = a.x + d.x * s, y = a.y + d.y * s, l = std::sqrt(x * x + y * y); R m = D > 100 * noise ? 256 * EPS * (10 + std::abs(B) + std::abs(s) * 10) * (1 + noise / D / EPS) : (tan ? 64 * SE * r : mar * (1 + 1 / A) + 1e-2L); REQUIRE(std::abs(l - r) <= m, "intersection %zu at distance %.9Lg from the centre, radius %g", i, l, (double)r); }
    if (n == 2 && D > 100 * noise) { R w0 = (-B - std::sqrt(D)) / A, w1 = (-B + std::sqrt(D)) / A, t = 256 * EPS * (10 + std::abs(B) / A) * (1 + noise / D / EPS); REQUIRE((std::abs(s0 - w0) <= t && std::abs(s1 - w1) <= t) || (std::abs(s0 - w1) <= t && std::abs(s1 - w0) <= t), "parameters (%g,%g) want (%Lg,%Lg)", (double)s0, (double)s1, w0, w1); }
}

PBT(circle_circle_2d, 100000, 3000000, "circles cross") {
    vector2 a = gen::vec2(c, 5), b; scalar ra = gen::pos(c, 0.1, 4), rb = gen::pos(c, 0.1, 4); R th = c.uniform(0, 6.28318530717958), D; if (c.chance(1, 6)) rb = ra;
    switch (c.draw(5)) { case 0: D = 0; break; case 1: D = (R)c.unit() * std::abs((R)ra - rb); break; case 2: D = (R)ra + rb + (R)c.uniform(0, 3); break; default: D = std::abs((R)ra - rb) + (R)c.unit() * (ra + rb - std::abs((R)ra - rb)); }
    b = {(scalar)(a.x + D * std::cos(th)), (scalar)(a.y + D * std::sin(th))}; R dx = (R)b.x - a.x, dy = (R)b.y - a.y; D = std::sqrt(dx * dx + dy * dy); R mag = 1 + std::abs(a.x) + std::abs(a.y) + std::abs(b.x) + std::abs(b.y) + ra + rb;
    c.note("a=(%g,%g) ra=%g b=(%g,%g) rb=%g", a.x, a.y, ra, b.x, b.y, rb); vector2 r0{}, r1{}; size_t n = intersect_circle_circle(a, ra, b, rb, r0, r1); REQUIRE(n <= 2); R sub = std::abs((R)ra - rb), gap = std::max(D - (ra + rb), sub - D); R mar = 32 * EPS * mag;
    bool conc = D < 4 * SE && sub < 4 * SE; if (conc && !(D == 0 && sub == 0)) c.discard(); c.label(conc ? "same circle" : gap > 0 ? (D > ra + rb ? "apart" : "contained") : "crossing");
    if (!conc && gap > mar) REQUIRE(n == 0, "circles do not meet (gap %Lg), reported %zu", gap, n); if (!conc && gap < -mar) { REQUIRE(n >= 1, "crossing circles, none reported"); c.nontrivial(); } if (!conc && gap < -1e-2L) REQUIRE(n == 2, "crossing circles, reported %zu", n);
    for (size_t i = 0; i < n; ++i) { auto p = i ? r1 : r0; R la = std::hypot((double)((R)p.x - a.x), (double)((R)p.y - a.y)), lb = std::hypot((double)((R)p.x - b.x), (double)((R)p.y - b.y)); R t = 256 * EPS * mag * (1 + mag / std::max<R>(D, conc ? 1 : 1e-3L)) + (gap > -1e-2L ? 16 * SE * mag : 0); REQUIRE(std::abs(la - ra) <= t && std::abs(lb - rb) <= t, "intersection %zu lies %Lg / %Lg off the circles", i, la - ra, lb - rb); }
    if (n == 2 && gap < -1e-2L) REQUIRE(std::hypot((double)(r0.x - r1.x), (double)(r0.y - r1.y)) > 1e-3, "the two intersections coincide");
}

PBT(line_aabb_2d, 100000, 3000000, "line crosses the box") {
    bool lat = c.draw(3) != 0; vector2 p0, p1, mn, mx; if (lat) { mn = lat2(c); mx = mn + vector2{(scalar)c.integer(1, 6) / 2, (scalar)c.integer(1, 6) / 2}; p0 = lat2(c); p1 = lat2(c);
            if (c.chance(1, 4)) { vector2 cor[4] = {mn, {mx.x, mn.y}, mx, {mn.x, mx.y}}; p0 = cor[c.draw(4)]; if (c.boolean()) p1 = cor[c.draw(4)]; } }
    else { mn = gen::vec2(c, 4); mx = mn + vector2{gen::pos(c, 0.2, 4), gen::pos(c, 0.2, 4)}; p0 = gen::vec2(c, 5); p1 = gen::vec2(c, 5); }
    if (length(p1 - p0) < 0.2) c.discard(); if ((std::abs(p1.x - p0.x) < 1e-2 && p1.x != p0.x) || (std::abs(p1.y - p0.y) < 1e-2 && p1.y != p0.y)) c.discard();
    c.note("p0=(%g,%g) p1=(%g,%g) box=(%g,%g)-(%g,%g)", p0.x, p0.y, p1.x, p1.y, mn.x, mn.y, mx.x, mx.y);
    P2 a = t2(p0), d{(R)p1.x - p0.x, (R)p1.y - p0.y}; R lo = -1e30L, hi = 1e30L; bool miss = false; for (int i = 0; i < 2; ++i) { R o = i ? a.y : a.x, e = i ? d.y : d.x, m0 = mn[i], m1 = mx[i]; if (e == 0) { if (o < m0 || o > m1) miss = true; } else { R x = (m0 - o) / e, y = (m1 - o) / e; lo = std::max(lo, std::min(x, y)); hi = std::min(hi, std::max(x, y)); } }
    scalar s0 = -99, s1 = -99; size_t n = intersect_line_aabb(p0, p1, mn, mx, s0, s1); REQUIRE(n <= 2); R mar = 64 * EPS * (100 + 1 / std::min(std::abs(d.x) > 0 ? std::abs(d.x) : 1, std::abs(d.y) > 0 ? std::abs(d.y) : 1) * 100);
    R amp = std::max<R>(std::max(std::abs(d.y / (d.x ? d.x : 1)), std::abs(d.x / (d.y ? d.y : 1))), 1); R mx2 = mar * amp;
    bool exact = lat && [&] { R q = d.x == 0 || d.y == 0 ? 0 : 1; if (!q) return true; for (R v : {d.x / d.y, d.y / d.x}) if (v * 1024 != std::round(v * 1024)) return false; return true; }();
    if (miss || hi < lo - mx2) { REQUIRE(n == 0, "line misses the box, reported %zu", n); return; }
    if (hi > lo + mx2) { c.nontrivial(); REQUIRE(n == 2, "line crosses the box at [%Lg,%Lg], reported %zu", lo, hi, n); REQUIRE(std::abs(std::min(s0, s1) - lo) <= mx2 && std::abs(std::max(s0, s1) - hi) <= mx2, "parameters (%g,%g) want (%Lg,%Lg)", (double)s0, (double)s1, lo, hi); }
    else if (exact && hi == lo) { c.label("corner"); REQUIRE(n == 1 && std::abs(s0 - lo) <= mx2, "line touches one corner, reported %zu", n); }
}

PBT(segment_aabb_3d, 100000, 3000000, "segment meets the box") {
    vector3 mn = gen::vec(c, 4), mx; for (int i = 0; i < 3; ++i) mx[i] = mn[i] + (c.chance(1, 12) ? 0 : gen::pos(c, 0.1, 4)); V bc = (tov(mn) + tov(mx)) * 0.5L, hh = (tov(mx) - tov(mn)) * 0.5L; vector3 p0 = gen::vec(c, 6), p1;
    switch (c.draw(4)) { case 0: p1 = gen::vec(c, 6); break; case 1: { V q{bc.x + hh.x * (R)c.uniform(-1.1, 1.1), bc.y + hh.y * (R)c.uniform(-1.1, 1.1), bc.z + hh.z * (R)c.uniform(-1.1, 1.1)}; p1 = orc::toe(tov(p0) + (q - tov(p0)) * (R)c.uniform(0.5, 2)); break; } case 2: { p1 = p0; p1[c.draw(3)] += gen::s(c, 6); break; } default: { V q{bc.x + hh.x * (R)c.uniform(-1, 1), bc.y + hh.y * (R)c.uniform(-1, 1), bc.z + hh.z * (R)c.uniform(-1, 1)}; int k = (int)c.draw(3); q[k] = c.boolean() ? mx[k] : mn[k]; p1 = orc::toe(q); } }
    c.note("p0=" VF " p1=" VF " box=" VF VF, VA(p0), VA(p1), VA(mn), VA(mx)); V a = tov(p0), d = tov(p1) - a; R L = orc::len(d); R mag = 1 + orc::len(a) + orc::len(tov(p1)) + orc::len(tov(mn)) + orc::len(tov(mx)); if (L < 0.02L) c.discard(); R del = 32 * EPS * mag * (1 + mag / L);
    auto hit = [&](R infl) { R lo = 0, hi = 1; for (int i = 0; i < 3; ++i) { R m0 = (R)mn[i] - infl, m1 = (R)mx[i] + infl; if (m1 < m0) return false; if (d[i] == 0) { if (a[i] < m0 || a[i] > m1) return false; } else { R x = (m0 - a[i]) / d[i], y = (m1 - a[i]) / d[i]; lo = std::max(lo, std::min(x, y)); hi = std::min(hi, std::max(x, y)); } } return lo <= hi; };
    bool g = intersect_segment_aabb(p0, p1, mn, mx); if (hit(-del)) { c.nontrivial(); REQUIRE(g, "segment meets the box but reported apart"); } if (!hit(del)) REQUIRE(!g, "segment misses the box but reported meeting"); REQUIRE(intersect_segment_aabb(p1, p0, mn, mx) == g || hit(-del) == !hit(del) || (!hit(-del) && hit(del)));
}

PBT(ray_cylinder, 80000, 2000000, "ray meets the infinite cylinder") {
    vector3 pos = gen::vec(c, 4); auto orn = gen::orient(c); scalar r = gen::pos(c, 0.1, 3), hl = gen::pos(c, 0.1, 3); auto ax = (coordinate_axis)c.draw(3); V e{}; e[(int)ax] = 1; V n = orc::rot(toq(orn), e); vector3 p0 = gen::vec(c, 8), p1; bool par = c.chance(1, 8);
    if (par) p1 = orc::toe(tov(p0) + n * (R)c.real(4)); else if (c.boolean()) p1 = gen::vec(c, 8); else { V q = tov(pos) + n * (R)c.real(3) + tov(gen::dir(c)) * ((R)r * (R)c.uniform(0, 1.3)); p1 = orc::toe(tov(p0) + (q - tov(p0)) * (R)c.uniform(0.4, 2)); } if (length(p1 - p0) < 0.1) c.discard();
    c.note("p0=" VF " p1=" VF " pos=" VF " orn=" QF " r=%g hl=%g axis=%d", VA(p0), VA(p1), VA(pos), QA(orn), r, hl, (int)ax); V a = tov(p0) - tov(pos), d = tov(p1) - tov(p0); V da = d - n * orc::dot(d, n), aa = a - n * orc::dot(a, n); R x2 = orc::len2(da) * 4 * (R)hl * hl, sin2 = orc::len2(da) / orc::len2(d);
    scalar fi = -99, fo = -99; auto res = intersect_ray_cylinder(p0, p1, pos, orn, r, hl, ax, fi, fo); using K = enum intersect_ray_cylinder_result::kind; R noise = 64 * EPS * orc::len2(d) * 4 * (R)hl * hl;
    if (par) { c.label("parallel"); if (noise < EPS) REQUIRE(res.kind == K::parallel_directions); return; } if (x2 < 4 * EPS + 100 * noise || sin2 < 1e-2L) return; REQUIRE(res.kind != K::parallel_directions, "reported parallel");
    R A = orc::len2(da), B = orc::dot(aa, da), dist2 = orc::len2(aa - da * (B / A)); R dist = std::sqrt(dist2), mag = 10 + orc::len(tov(p0)) + orc::len(d) + orc::len(tov(pos)), tol = 64 * EPS * mag * (1 + mag / (R)hl) / sin2; 
    if (dist > r + tol) REQUIRE(res.kind == K::distance_greater_than_radius, "passes at %Lg from the axis, radius %g", dist, (double)r); if (dist < r - tol) { c.nontrivial(); REQUIRE(res.kind == K::intersects, "passes at %Lg from the axis, radius %g", dist, (double)r); }
    if (res.kind == K::intersects && dist < r - 8 * tol) { R h = std::sqrt((R)r * r - dist2) / std::sqrt(A), t = -B / A; R te = (tol / std::sqrt(A)) * (1 + r / std::max<R>(std::sqrt((R)r * r - dist2), 1e-6L)) * 4; REQUIRE(std::abs(fi - (t - h)) <= te && std::abs(fo - (t + h)) <= te, "fractions (%g,%g) want (%Lg,%Lg) tol %Lg", (double)fi, (double)fo, t - h, t + h, te); REQUIRE(std::abs(std::sqrt((R)res.dist_sqr) - dist) <= 4 * tol || std::abs((R)res.dist_sqr - dist2) <= 8 * tol * mag); REQUIRE(std::abs(orc::len(tov(res.normal)) - dist) <= 8 * tol); V wn = aa - da * (B / A); REQUIRE(orc::dist(tov(res.normal), wn) <= 16 * tol, "separation vector " VF " want " VF, VA(res.normal), VA(wn)); }
}

PBT(ray_sphere, 80000, 2000000, "ray hits the sphere") {
    vector3 pos = gen::vec(c, 5), p0 = gen::vec(c, 8), p1; scalar r = gen::pos(c, 0.1, 4); if (c.chance(1, 4)) p0 = orc::toe(tov(pos) + tov(gen::dir(c)) * ((R)r * (R)c.uniform(0, 0.99)));
    if (c.boolean()) p1 = gen::vec(c, 8); else { V q = tov(pos) + tov(gen::dir(c)) * ((R)r * (R)c.uniform(0, 1.2)); p1 = orc::toe(tov(p0) + (q - tov(p0)) * (R)c.uniform(-0.5, 2)); } if (length(p1 - p0) < 0.1) c.discard();
    c.note("p0=" VF " p1=" VF " pos=" VF " r=%g", VA(p0), VA(p1), VA(pos), r); V m = tov(p0) - tov(pos), d = tov(p1) - tov(p0); R A = orc::len2(d), B = orc::dot(m, d), C = orc::len2(m) - (R)r * r, D = B * B - A * C, mag2 = orc::len2(tov(p0)) + orc::len2(tov(p1)) + orc::len2(tov(pos)) + (R)r * r + 1; R nD = 64 * EPS * (B * B + A * mag2), nC = 64 * EPS * mag2;
    scalar t = -99; bool g = intersect_ray_sphere(p0, p1, pos, r, t); if (std::abs(C) < nC) return; bool inside = C < 0; c.label(inside ? "starts inside" : "starts outside");
    if (inside) { c.nontrivial(); REQUIRE(g && t == 0, "ray starting inside: hit=%d t=%g", (int)g, (double)t); return; }
    if (std::abs(D) < nD || std::abs(B) < 64 * EPS * mag2) return; bool want = B < 0 && D > 0; REQUIRE(g == want, "hit=%d want %d", (int)g, (int)want);
    if (want) { c.nontrivial(); R w = (-B - std::sqrt(D)) / A; REQUIRE(std::abs(t - w) <= 64 * EPS * mag2 / A + nD / (std::sqrt(D) * A) * 2 + 1e-30L, "t=%.9g want %.9Lg", (double)t, w); }
}

PBT(segment_triangle, 100000, 3000000, "segment hits the triangle") {
    std::array<vector3, 3> v{gen::vec(c, 4), gen::vec(c, 4), gen::vec(c, 4)}; V a = tov(v[0]), b = tov(v[1]), d = tov(v[2]); V n = orc::cross(b - a, d - a); R ar = orc::len(n); R lmax = std::max(orc::dist(a, b), std::max(orc::dist(b, d), orc::dist(a, d))); if (ar < 0.02L * lmax * lmax || ar < 0.02L) c.discard(); vector3 nn = orc::toe(n / ar); n = n / ar;
    R u = c.uniform(-0.3, 1.3), w = c.uniform(-0.3, 1.3); if (c.boolean()) { u = c.unit(); w = c.unit() * (1 - u); } V q = a + (b - a) * u + (d - a) * w; V dir = tov(gen::dir(c)); bool par = c.chance(1, 10); if (par) { dir = dir - n * orc::dot(dir, n); if (orc::len(dir) < 0.1L) c.discard(); q = q + n * (R)c.real(2); }
    R l0 = c.uniform(-1, 4), l1 = c.uniform(-1, 4); vector3 p0 = orc::toe(q - dir * l0), p1 = orc::toe(q + dir * l1); V P = tov(p0), D = tov(p1) - P; R L = orc::len(D); if (L < 0.1L) c.discard(); c.note("p0=" VF " p1=" VF " tri=" VF VF VF, VA(p0), VA(p1), VA(a), VA(b), VA(d));
    R mag = 1 + orc::len(a) + orc::len(b) + orc::len(d) + orc::len(P) + L, dn = orc::dot(D, n), e = orc::dot(a - P, n); scalar t = -99; bool g = intersect_segment_triangle(p0, p1, v, nn, t); R np = 64 * EPS * mag;
    if (std::abs(dn) <= 4 * np) { if (std::abs(e) > 4 * np + std::abs(dn)) { c.label("parallel"); REQUIRE(!g, "parallel segment off the plane reported to hit"); } return; }
    R tt = e / dn, tm = np / std::abs(dn) * (1 + std::abs(tt)); V x = P + D * tt; R ed = 1e30L; V vv[3] = {a, b, d}; for (int i = 0; i < 3; ++i) { V ee = vv[(i + 1) % 3] - vv[i]; V in = orc::cross(n, ee) / orc::len(ee); ed = std::min(ed, orc::dot(x - vv[i], in)); }
    R em = (np + tm * L) * 4; if (std::min(std::abs(tt), std::abs(1 - tt)) < tm || std::abs(ed) < em) return; bool want = tt > 0 && tt < 1 && ed > 0; c.nontrivial(want); c.label(dn > 0 ? "from behind" : "from front"); REQUIRE(g == want, "hit=%d want %d (t=%Lg inside by %Lg)", (int)g, (int)want, tt, ed); if (g) REQUIRE(std::abs(t - tt) <= tm, "t=%.9g want %.9Lg", (double)t, tt);
}

PBT(minkowski_edge_pairs, 80000, 2000000, "arcs on the unit sphere cross") {
    // Face normals of edge (A,B) of one solid and (C,D) of the other: a face of the Minkowski difference arises iff arc AB meets arc (-C)(-D).
    V A = orc::unit(tov(gen::dir(c))), B = orc::unit(tov(gen::dir(c))), C, D; if (c.boolean()) { C = orc::unit(tov(gen::dir(c))); D = orc::unit(tov(gen::dir(c))); } else { V m = orc::unit(A + B * (R)c.uniform(0.2, 3)); V t = tov(gen::dir(c)); C = -orc::unit(m + t * (R)c.uniform(0.05, 1)); D = -orc::unit(m - t * (R)c.uniform(0.05, 1)); }
    auto eA = orc::toe(A), eB = orc::toe(B), eC = orc::toe(C), eD = orc::toe(D); A = tov(eA); B = tov(eB); C = tov(eC); D = tov(eD); V ab = orc::cross(A, B), cd = orc::cross(-C, -D); if (orc::len(ab) < 0.05L || orc::len(cd) < 0.05L) c.discard(); c.note("A=" VF " B=" VF " C=" VF " D=" VF, VA(A), VA(B), VA(C), VA(D));
    V x = orc::cross(ab, cd); if (orc::len(x) < 1e-2L) return; x = orc::unit(x); bool want = false; R mar = 1e30L; for (R sg : {1.0L, -1.0L}) { V p = x * sg; auto inarc = [&](V a, V b, V n) { R u = orc::dot(orc::cross(a, p), n), w = orc::dot(orc::cross(p, b), n); mar = std::min(mar, std::min(std::abs(u), std::abs(w))); return u > 0 && w > 0; }; bool i1 = inarc(A, B, ab), i2 = inarc(-C, -D, cd); if (i1 && i2) want = true; }
    if (mar < 1e-4L) return; bool g = edges_generate_minkowski_face(eA, eB, eC, eD, cross(eB, eA), cross(eD, eC)); c.nontrivial(want); REQUIRE(g == want, "reported %d, arcs cross: %d", (int)g, (int)want);
}
