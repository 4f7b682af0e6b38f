// P04: circle queries. Oracle: long double planar geometry, plus incidence of every reported point.
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::toq; using orc::near; using orc::EPS;
static const R SE = std::sqrt(orc::EPS);

struct Circ { vector3 pos; quaternion orn; scalar r; coordinate_axis axis; V c, n, u, v; };
static void frame(Circ &k) { k.c = tov(k.pos); V e{}, f{}; e[(int)k.axis] = 1; f[((int)k.axis + 1) % 3] = 1; k.n = orc::rot(toq(k.orn), e); k.u = orc::rot(toq(k.orn), f); k.v = orc::cross(k.n, k.u); }
static Circ circ(pbt::Case &c, double mag = 5) { Circ k; k.pos = gen::vec(c, mag); k.orn = gen::orient(c); k.r = gen::pos(c, 0.1, 3); k.axis = (coordinate_axis)c.draw(3); frame(k); return k; }
static R off_circle(const Circ &k, V p) { V w = p - k.c; R h = orc::dot(w, k.n); R l = orc::len(w - k.n * h); return std::sqrt(h * h + (l - k.r) * (l - k.r)); }
static R line_dist(V p0, V d, V p) { V w = p - p0; return orc::len(w - d * (orc::dot(w, d) / orc::len2(d))); }

PBT(circle_support, 60000, 1500000, "direction not along the circle axis") {
    auto k = circ(c); auto d = c.chance(1, 6) ? orc::toe(k.n) : gen::dir(c); c.note("r=%g axis=%d dir=" VF, k.r, (int)k.axis, VA(d)); R par = orc::dot(tov(d), k.n); c.nontrivial(std::abs(par) < 0.999L);
    auto s = support_point_circle(k.pos, k.orn, k.r, k.axis, d); R mag = orc::len(k.c) + k.r; R pl = orc::len(tov(d) - k.n * par);
    REQUIRE(off_circle(k, tov(s)) <= 32 * EPS * mag + (pl < 1e-2L ? 1e-2L * 0 : 0), "not on the circle"); REQUIRE(orc::dot(tov(s) - k.c, tov(d)) >= k.r * pl - 64 * EPS * mag - (pl < 1e-3L ? 2 * k.r * pl : 0), "not the extreme point");
}

PBT(circle_line_closest, 60000, 2000000, "line parallel to the circle plane, or meeting it outside the circle") {
    auto k = circ(c); int kind = (int)c.draw(4); V p, d; R th = c.uniform(0, 6.28318530717958); bool exact = false;
    if (kind <= 1) { // parallel to the plane of the circle
        d = k.u * std::cos(th) + k.v * std::sin(th); R h = c.chance(1, 4) ? 0 : (R)c.real(3); R o = (R)(c.chance(1, 8) ? 0.0 : c.uniform(-2.5, 2.5)) * k.r; p = k.c + k.n * h + (k.u * -std::sin(th) + k.v * std::cos(th)) * o + d * (R)c.real(3); exact = true; c.label(std::abs(o) < k.r ? "parallel crossing" : "parallel outside");
    } else if (kind == 2) { // crosses the plane at a ratio of the radius
        R ratio = c.uniform(0, 4), tilt = c.uniform(0, 1.3), ph = c.uniform(0, 6.28318530717958); d = k.n * std::cos(tilt) + (k.u * std::cos(ph) + k.v * std::sin(ph)) * std::sin(tilt); p = k.c + (k.u * std::cos(th) + k.v * std::sin(th)) * (ratio * k.r) + d * (R)c.real(3); exact = ratio > 1.35L; c.label(exact ? "crosses plane outside" : "crosses plane inside");
    } else { d = k.n; p = k.c + k.n * (R)c.real(3); exact = true; c.label("through the centre"); }
    R L = c.positive(0.3, 4); vector3 p0 = orc::toe(p), p1 = orc::toe(p + d * L); p = tov(p0); d = tov(p1) - p; R dl = orc::len(d); if (dl < 0.1L) c.discard();
    c.note("c=" VF " orn=" QF " r=%g axis=%d p0=" VF " p1=" VF, VA(k.c), QA(k.orn), k.r, (int)k.axis, VA(p0), VA(p1)); c.nontrivial(exact);
    // near-parallel lines within the parallel tolerance are handled as parallel: skip the band around the decision
    R tn = std::abs(orc::dot(d, k.n)) / std::max<R>(1e-12L, orc::len(d - k.n * orc::dot(d, k.n))) * k.r * k.r; if (kind == 2 && tn < 4 * (R)support_feature_tolerance) exact = false;
    size_t n = 99; scalar s0 = 0, s1 = 0; vector3 c0, l0, c1, l1, nn; R g = closest_point_circle_line(k.pos, k.orn, k.r, k.axis, p0, p1, n, s0, c0, l0, s1, c1, l1, nn);
    R mag = 1 + orc::len(k.c) + orc::len(p) + dl + k.r, amp = 1 + mag / dl; R tol = 256 * EPS * mag * amp; 
    REQUIRE(n == 1 || n == 2); REQUIRE(near(length(nn), 1, 1, 1e3L), "normal not a unit vector");
    if (kind <= 1) tol += 8 * SE * k.r; // a line tangent to the circle makes the crossing parameter ill conditioned
    for (size_t i = 0; i < n; ++i) { V cc = tov(i ? c1 : c0), ll = tov(i ? l1 : l0); R s = i ? s1 : s0; R t2 = tol + 64 * EPS * std::abs(s) * dl;
        REQUIRE(off_circle(k, cc) <= (kind <= 1 ? t2 : 64 * EPS * mag + 1e-3L * (kind > 1 && tn < 4 * (R)support_feature_tolerance)) , "point %zu is %Lg off the circle", i, off_circle(k, cc)); REQUIRE(orc::dist(p + d * s, ll) <= t2, "point %zu not at its line parameter", i); }
    if (kind > 1 && tn >= 4 * (R)support_feature_tolerance) { R t2 = tol + 64 * EPS * std::abs(s0) * dl; REQUIRE(n == 1); R dd = orc::dist(tov(c0), tov(l0)); REQUIRE(std::abs(dd - std::sqrt(std::max<R>(0, g))) <= t2 || std::abs(dd * dd - g) <= t2 * mag, "reported distance differs from the pair"); REQUIRE(std::abs(dd - line_dist(p, d, tov(c0))) <= t2, "line point is not the closest to the circle point"); }
    { V nv = tov(nn); R e = std::abs(orc::dot(nv, d)) / dl; V tg = orc::cross(k.n, tov(c0) - k.c); R tl = orc::len(tg), lx = orc::len(orc::cross(tg, d)) / std::max<R>(1e-9L, tl * dl); bool general = kind == 2 && tn >= 4 * (R)support_feature_tolerance;
        if (general && lx > 0.02L) { REQUIRE(e <= 1e-3L, "normal is not orthogonal to the line"); REQUIRE(std::abs(orc::dot(nv, tg)) <= 1e-3L * tl, "normal is not orthogonal to the circle"); } else if (kind != 2 && n == 2) REQUIRE(e <= 1e-3L, "normal is not orthogonal to the line"); else if (kind == 3) REQUIRE(e <= 1e-3L, "normal is not orthogonal to the line"); }
    if (exact) {
        R best = 1e30L; // dense search plus local refinement
        auto f = [&](R t) { return line_dist(p, d, k.c + (k.u * std::cos(t) + k.v * std::sin(t)) * (R)k.r); };
        R bt = 0; for (int i = 0; i < 90; ++i) { R t = i * orc::PI / 45, x = f(t); if (x < best) { best = x; bt = t; } }
        R lo = bt - 0.1L, hi = bt + 0.1L; for (int i = 0; i < 50; ++i) { R a = lo + (hi - lo) * 0.381966L, b = lo + (hi - lo) * 0.618034L; if (f(a) < f(b)) hi = b; else lo = a; } best = std::min(best, f((lo + hi) / 2));
        R got = std::sqrt(std::max<R>(0, g)); R t3 = tol + 64 * EPS * std::abs(s0) * dl + (kind == 2 ? 2e-3L * k.r : 0) + (kind <= 1 ? 4 * SE * mag : 0);
        REQUIRE(std::abs(got - best) <= t3, "distance %.9Lg, minimum %.9Lg", got, best);
        for (size_t i = 0; i < n; ++i) REQUIRE(orc::dist(tov(i ? c1 : c0), tov(i ? l1 : l0)) <= best + 2 * t3, "pair %zu is not closest", i);
        if (kind <= 1) { V w = p - k.c; V dn = d / dl; w = w - k.n * orc::dot(w, k.n); R o = orc::len(w - dn * orc::dot(w, dn)); if (o < 0.98L * k.r) REQUIRE(n == 2, "a crossing chord has two closest points"); if (o > 1.02L * k.r) REQUIRE(n == 1); if (n == 2 && o < 0.98L * k.r) REQUIRE(orc::dist(tov(c0), tov(c1)) > 0.1L * k.r, "both closest points coincide"); }
    }
}

PBT(circle_circle_parallel, 80000, 2000000, "circles neither concentric nor identical") {
    auto A = circ(c), B = circ(c); // make B parallel (or antiparallel) to A, whatever their axes
    V e{}; e[(int)B.axis] = 1; quaternion q = shortest_arc(orc::toe(e), orc::toe(A.n * (R)(c.boolean() ? -1 : 1))); V cur = orc::rot(toq(q), e); R spin = c.uniform(0, 6.28318530717958);
    orc::Q sp{cur.x * std::sin(spin / 2), cur.y * std::sin(spin / 2), cur.z * std::sin(spin / 2), std::cos(spin / 2)}; orc::Q o = sp * toq(q); R ol = orc::len(o); B.orn = {(scalar)(o.x / ol), (scalar)(o.y / ol), (scalar)(o.z / ol), (scalar)(o.w / ol)};
    if (c.chance(1, 8)) B.r = A.r;
    R h = c.chance(1, 4) ? 0 : (R)c.real(3), D, th = c.uniform(0, 6.28318530717958); R ra = A.r, rb = B.r;
    switch (c.draw(5)) { case 0: D = 0; break; case 1: D = c.unit() * std::abs(ra - rb); break; case 2: D = std::abs(ra - rb) + c.unit() * (ra + rb - std::abs(ra - rb)); break; default: D = ra + rb + (R)c.uniform(0, 3); }
    B.pos = orc::toe(A.c + A.n * h + (A.u * std::cos(th) + A.v * std::sin(th)) * D); frame(B);
    if (orc::len(orc::cross(A.n, B.n)) > 32 * EPS) c.discard(); // the generator's own rotation was not exact
    V w = B.c - A.c; h = orc::dot(w, A.n); D = orc::len(w - A.n * h);
    c.note("A=(" VF " " QF " r=%g ax=%d) B=(" VF " " QF " r=%g ax=%d)", VA(A.c), QA(A.orn), A.r, (int)A.axis, VA(B.c), QA(B.orn), B.r, (int)B.axis); c.nontrivial(D > 1e-3L);
    R mag = 1 + orc::len(A.c) + orc::len(B.c) + ra + rb; R nearest = std::min(std::abs(D - (ra + rb)), std::abs(D - std::abs(ra - rb))); bool tangent = nearest < 1e-3L * mag;
    R gap = D > ra + rb ? D - ra - rb : D < std::abs(ra - rb) ? std::abs(ra - rb) - D : 0, best = std::sqrt(h * h + gap * gap);
    if (D < 4 * SE && std::abs(ra - rb) < 4 * SE && !(D < SE / 4 && std::abs(ra - rb) < EPS / 4)) c.discard();
    size_t n = 99; vector3 a0, b0, a1, b1, nn; R g = closest_point_circle_circle(A.pos, A.orn, A.r, A.axis, B.pos, B.orn, B.r, B.axis, n, a0, b0, a1, b1, nn);
    c.label(gap == 0 ? "crossing" : D > ra + rb ? "outside" : "contained"); c.label_if(A.axis != B.axis, "different axes");
    R tol = 1e3L * EPS * mag * (1 + 1 / std::max<R>(1e-3L, D)) + (tangent ? 16 * SE * mag : 0) + SE * 4; REQUIRE(n == 1 || n == 2); REQUIRE(near(length(nn), 1, 1, 1e3L));
    for (size_t i = 0; i < n; ++i) { V a = tov(i ? a1 : a0), b = tov(i ? b1 : b0); REQUIRE(off_circle(A, a) <= tol, "A%zu is %Lg off its circle", i, off_circle(A, a)); REQUIRE(off_circle(B, b) <= tol, "B%zu is %Lg off its circle", i, off_circle(B, b)); REQUIRE(orc::dist(a, b) <= best + tol, "pair %zu at %.9Lg, minimum %.9Lg", i, orc::dist(a, b), best); }
    REQUIRE(std::abs(std::sqrt(std::max<R>(0, g)) - best) <= tol, "distance %.9Lg, minimum %.9Lg", std::sqrt(std::max<R>(0, g)), best);
    if (!tangent && gap == 0) { REQUIRE(n == 2, "crossing circles have two closest pairs"); REQUIRE(orc::dist(tov(a0), tov(a1)) > 1e-3L * mag / 8, "both pairs coincide"); } if (!tangent && gap > 0) REQUIRE(n == 1);
}

// The normal of a pair of points is orthogonal to the circles at both, and along the pair where these are parallel
static bool pair_normal(pbt::Case &c, const Circ &A, const Circ &B, V a, V b, V n) {
    V ta = orc::cross(A.n, a - A.c), tb = orc::cross(B.n, b - B.c); R la = orc::len(ta), lb = orc::len(tb), lx = orc::len(orc::cross(ta, tb)) / (la * lb), d = orc::dist(a, b); if (lx > 0.05L) { REQUIRE(std::abs(orc::dot(n, ta)) <= 1e-3L * la && std::abs(orc::dot(n, tb)) <= 1e-3L * lb, "normal is not orthogonal to both circles"); }
    if (lx < 0.5L * SE && d > 0.05L) { REQUIRE(std::abs(orc::dot(n, a - b)) >= 0.999L * d, "tangents are parallel, but the normal is not along the closest points"); return true; } return false; }

PBT(circle_circle_general, 80000, 2000000, "planes of the circles at more than 3 degrees") {
    auto A = circ(c, 2), B = circ(c, 5); R x = orc::len(orc::cross(A.n, B.n)); if (x < 2 * SE) { c.discard(); } c.nontrivial(x > 0.05L);
    c.note("A=(" VF " " QF " r=%g ax=%d) B=(" VF " " QF " r=%g ax=%d)", VA(A.c), QA(A.orn), A.r, (int)A.axis, VA(B.c), QA(B.orn), B.r, (int)B.axis);
    // configurations whose optimality function has a vanishing second derivative are outside the routine's domain
    if (c.chance(1, 8)) { B.pos = orc::toe(A.c + A.n * (R)c.real(2)); frame(B); c.label("on the axis"); } else if (c.chance(1, 6)) { B.pos = orc::toe(A.c + A.u * (R)c.real(2)); frame(B); }
    size_t n = 99; vector3 a0, b0, a1, b1, nn; R g = closest_point_circle_circle(A.pos, A.orn, A.r, A.axis, B.pos, B.orn, B.r, B.axis, n, a0, b0, a1, b1, nn); R mag = 1 + orc::len(A.c) + orc::len(B.c) + A.r + B.r, tol = 256 * EPS * mag;
    REQUIRE(n == 1); REQUIRE(near(length(nn), 1, 1, 1e3L)); REQUIRE(off_circle(A, tov(a0)) <= tol, "A is %Lg off its circle", off_circle(A, tov(a0))); REQUIRE(off_circle(B, tov(b0)) <= tol, "B is %Lg off its circle", off_circle(B, tov(b0)));
    R dd = orc::dist(tov(a0), tov(b0)); REQUIRE(std::abs(dd * dd - g) <= 4 * tol * (dd + tol), "reported distance differs from the pair");
    REQUIRE(std::abs(dd - off_circle(A, tov(b0))) <= tol, "the point on A is not the one closest to the point on B");
    pair_normal(c, A, B, tov(a0), tov(b0), tov(nn));
}

// Axes and centers in one plane: the tangents at the closest points are parallel and the normal must follow the pair
PBT(circle_circle_meridian, 40000, 1000000, "tangents at the closest points are parallel and the points do not coincide") {
    auto A = circ(c, 2), B = A; B.r = (scalar)c.positive(0.05, 3); R th = c.uniform(-3, 3); V k = orc::unit(A.v) * std::sin(th / 2); orc::Q q = orc::Q{k.x, k.y, k.z, std::cos(th / 2)} * orc::toq(A.orn); B.orn = normalize(quaternion{(scalar)q.x, (scalar)q.y, (scalar)q.z, (scalar)q.w}); B.pos = orc::toe(A.c + A.n * (R)c.uniform(-5, 5) + A.u * (R)c.uniform(-5, 5)); frame(B); if (orc::len(orc::cross(A.n, B.n)) < 2 * SE) c.discard();
    c.note("A=(" VF " " QF " r=%g ax=%d) B=(" VF " " QF " r=%g ax=%d)", VA(A.c), QA(A.orn), A.r, (int)A.axis, VA(B.c), QA(B.orn), B.r, (int)B.axis);
    size_t n = 99; vector3 a0, b0, a1, b1, nn; closest_point_circle_circle(A.pos, A.orn, A.r, A.axis, B.pos, B.orn, B.r, B.axis, n, a0, b0, a1, b1, nn); REQUIRE(n == 1); REQUIRE(near(length(nn), 1, 1, 1e3L)); c.nontrivial(pair_normal(c, A, B, tov(a0), tov(b0), tov(nn)));
}

// B well above the plane of A and seen edge-on from it rather than face-on: there the iteration must reach the global minimum
PBT(circle_circle_apart, 60000, 2000000, "circle B is above the plane of A, at more than 2.5 times the sum of radii") {
    auto A = circ(c, 2), B = circ(c, 5); R hA = c.uniform(0.65, 0.95), az = c.uniform(0, 6.28318530717958), D = (A.r + B.r) * (R)c.uniform(2.5, 8), side = std::sqrt(std::max<R>(0, 1 - hA * hA)); V w = A.n * (hA * (c.boolean() ? 1 : -1)) + (A.u * std::cos(az) + A.v * std::sin(az)) * side;
    B.pos = orc::toe(A.c + w * D); frame(B); R hB = std::abs(orc::dot(w, B.n)), x = orc::len(orc::cross(A.n, B.n)); if (hB > hA - 0.3L || x < 0.3L) c.discard(); c.nontrivial(true);
    c.note("A=(" VF " " QF " r=%g ax=%d) B=(" VF " " QF " r=%g ax=%d)", VA(A.c), QA(A.orn), A.r, (int)A.axis, VA(B.c), QA(B.orn), B.r, (int)B.axis);
    size_t n = 99; vector3 a0, b0, a1, b1, nn; R g = closest_point_circle_circle(A.pos, A.orn, A.r, A.axis, B.pos, B.orn, B.r, B.axis, n, a0, b0, a1, b1, nn); R mag = 1 + orc::len(A.c) + orc::len(B.c) + A.r + B.r;
    auto f = [&](R t) { return off_circle(A, B.c + (B.u * std::cos(t) + B.v * std::sin(t)) * (R)B.r); }; R best = 1e30L, bt = 0; for (int i = 0; i < 120; ++i) { R t = i * orc::PI / 60, y = f(t); if (y < best) { best = y; bt = t; } } R lo = bt - 0.06L, hi = bt + 0.06L; for (int i = 0; i < 40; ++i) { R a = lo + (hi - lo) * 0.381966L, b = lo + (hi - lo) * 0.618034L; if (f(a) < f(b)) hi = b; else lo = a; } best = std::min(best, f((lo + hi) / 2));
    REQUIRE(n == 1); REQUIRE(std::sqrt(std::max<R>(0, g)) <= best + 0.15L * B.r + 256 * EPS * mag, "distance %.9Lg, minimum %.9Lg", std::sqrt(std::max<R>(0, g)), best); REQUIRE(orc::dist(tov(a0), tov(b0)) <= best + 0.15L * B.r + 256 * EPS * mag, "pair is not closest");
    V ta = orc::cross(A.n, tov(a0) - A.c), tb = orc::cross(B.n, tov(b0) - B.c); R la = orc::len(ta), lb = orc::len(tb), lx = orc::len(orc::cross(ta, tb)) / (la * lb); if (lx > 0.05L) { REQUIRE(std::abs(orc::dot(tov(nn), ta)) <= 1e-3L * la && std::abs(orc::dot(tov(nn), tb)) <= 1e-3L * lb, "normal is not orthogonal to both circles"); }
}
