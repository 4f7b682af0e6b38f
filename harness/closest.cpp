// P03: closest-point queries between points, lines, segments, discs and boxes.
// Oracle: exact minimisation in long double (closed form over all candidate pairs).
#include "harness/common.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/transform.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::toq; using orc::near; using orc::EPS;

// Points whose geometry has exact coincidences (grid), arbitrary, or derived.
static V pt(pbt::Case &c) { return tov(gen::vec(c, 10)); }

PBT(point_segment_and_line, 60000, 3000000, "point projects strictly inside the segment") {
    V a = pt(c), b = pt(c), p = pt(c); if (orc::len(b - a) < 0.02L) b = a + V{1, 0.5L, 0};
    switch (c.draw(4)) { case 0: p = a + (b - a) * (R)c.uniform(-0.5, 1.5); break; case 1: p = a + (b - a) * (R)c.integer(0, 1); break; default: break; }
    auto ea = orc::toe(a), eb = orc::toe(b), ep = orc::toe(p); a = tov(ea); b = tov(eb); p = tov(ep);
    c.note("a=" VF " b=" VF " p=" VF, VA(a), VA(b), VA(p));
    R tt = orc::dot(p - a, b - a) / orc::len2(b - a); c.nontrivial(tt > 0 && tt < 1);
    R mag = orc::len(a) + orc::len(b) + orc::len(p), sc = mag / orc::len(b - a) * mag; // amplification of the parameter
    scalar t = -7; vector3 q; R d = closest_point_segment(ea, eb, ep, t, q); R wt = orc::clampr(tt, 0, 1); V w = a + (b - a) * wt;
    R tolp = 64 * EPS * (mag + sc);
    REQUIRE(t >= 0 && t <= 1); REQUIRE(orc::dist(tov(q), w) <= tolp, "q=" VF " want " VF, VA(q), VA(w)); REQUIRE(std::abs(d - orc::len2(p - w)) <= 2 * tolp * (orc::dist(p, w) + tolp)); REQUIRE(orc::dist(a + (b - a) * (R)t, tov(q)) <= 16 * EPS * mag);
    vector3 r; R dl = closest_point_line(ea, eb - ea, ep, t, r); V wl = a + (b - a) * tt; R tl = 64 * EPS * (mag + sc + orc::len(b - a) * std::abs(tt));
    REQUIRE(orc::dist(tov(r), wl) <= tl); REQUIRE(std::abs(dl - orc::len2(p - wl)) <= 2 * tl * (orc::dist(p, wl) + tl)); REQUIRE(orc::dist(a + (b - a) * (R)t, tov(r)) <= tl);
    R ds = distance_sqr_line(ea, eb - ea, ep); REQUIRE(std::abs(ds - orc::len2(p - wl)) <= 2 * tl * (orc::dist(p, wl) + tl));
}

// Exact minimum distance of two segments.
static R segseg(V p1, V q1, V p2, V q2) {
    auto ps = [](V a, V b, V p) { R l = orc::len2(b - a); R t = l > 0 ? orc::clampr(orc::dot(p - a, b - a) / l, 0, 1) : 0; return orc::len2(p - (a + (b - a) * t)); };
    R m = std::min(std::min(ps(p1, q1, p2), ps(p1, q1, q2)), std::min(ps(p2, q2, p1), ps(p2, q2, q1)));
    V d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; R a = orc::len2(d1), b = orc::dot(d1, d2), cc = orc::dot(d1, r), e = orc::len2(d2), f = orc::dot(d2, r), D = a * e - b * b;
    if (D > 1e-15L * a * e) { R s = (b * f - cc * e) / D, t = (a * f - b * cc) / D; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) m = std::min(m, orc::len2((p1 + d1 * s) - (p2 + d2 * t))); }
    return m;
}

PBT(line_line, 60000, 3000000, "lines not parallel") {
    V p1 = pt(c), d1 = tov(gen::dir(c)) * (R)gen::pos(c, 0.2, 5), p2 = pt(c), d2; 
    bool par = c.chance(1, 4); if (par) d2 = d1 * (R)(c.boolean() ? -1 : 1) * (R)gen::pos(c, 0.3, 3); else d2 = tov(gen::dir(c)) * (R)gen::pos(c, 0.2, 5);
    auto e1 = orc::toe(p1), f1 = orc::toe(p1 + d1), e2 = orc::toe(p2), f2 = orc::toe(p2 + d2); p1 = tov(e1); p2 = tov(e2); d1 = tov(f1) - p1; d2 = tov(f2) - p2; if (orc::len(d1) < 0.1L || orc::len(d2) < 0.1L) c.discard();
    c.note("p1=" VF " d1=" VF " p2=" VF " d2=" VF, VA(p1), VA(d1), VA(p2), VA(d2));
    R x2 = orc::len2(orc::cross(d1, d2)), aa = orc::len2(d1), ee = orc::len2(d2), mag = 1 + orc::len(p1) + orc::len(p2) + orc::len(d1) + orc::len(d2);
    scalar s = 0, t = 0; bool ok = closest_point_line_line(e1, f1, e2, f2, s, t); R noise = 32 * EPS * aa * ee;
    if (x2 > EPS + noise) { c.nontrivial(); REQUIRE(ok, "reported parallel, cross^2=%Lg", x2); }
    if (x2 < 0.25L * EPS * std::min<R>(1, aa * ee)) REQUIRE(!ok, "reported not parallel");
    if (ok && x2 > 200 * noise && x2 > 4 * EPS) { c.label("checked");
        R rel = aa * ee / x2, tol = 64 * EPS * rel * mag * mag; V c1 = p1 + d1 * (R)s, c2 = p2 + d2 * (R)t; // connecting vector orthogonal to both
        V n = orc::cross(d1, d2); R want = std::abs(orc::dot(p1 - p2, n)) / orc::len(n);
        REQUIRE(orc::dist(c1, c2) <= want + tol, "dist %Lg want %Lg tol %Lg", orc::dist(c1, c2), want, tol);
        R tol2 = tol * (1 + orc::len(d1) + orc::len(d2)); REQUIRE(std::abs(orc::dot(c1 - c2, d1)) <= tol2 && std::abs(orc::dot(c1 - c2, d2)) <= tol2); }
}

// The unit of length, and the lengths of the direction vectors, do not matter.
PBT(line_line_scaled, 40000, 1500000, "lines at more than a degree, scaled by at least four") {
    vector3 p1 = gen::vec(c, 3), d1 = gen::dir(c), r = gen::vec(c, 3), d2 = gen::dir(c); R x = orc::len(orc::cross(tov(d1), tov(d2))); if (x < 0.02L) c.discard(); int k = (int)c.integer(-7, 7), m = (int)c.integer(-5, 5); scalar u = (scalar)std::ldexp(1.0, k), w = (scalar)std::ldexp(1.0, m); c.note("d1=" VF " r=" VF " d2=" VF " unit 2^%d, second direction 2^%d", VA(d1), VA(r), VA(d2), k, m); c.nontrivial(std::abs(k) > 1 || std::abs(m) > 1);
    scalar s = 0, t = 0; p1 = p1 * (scalar)0; bool ok = closest_point_line_line(p1 * u, (p1 + d1) * u, (p1 + r) * u, (p1 + r + d2 * w) * u, s, t); REQUIRE(ok, "reported parallel"); V n = orc::cross(tov(d1), tov(d2)); R n2 = orc::len2(n), ws = orc::dot(orc::cross(tov(r), tov(d2)), n) / n2, wt = orc::dot(orc::cross(tov(r), tov(d1)), n) / n2 / (R)w;
    R tol = 64 * EPS * (1 + orc::len(tov(r))) / (x * x) * (1 + (1 + orc::len(tov(r))) / (R)w); REQUIRE(std::abs(s - ws) <= tol && std::abs(t - wt) <= tol * (1 + 1 / (R)w), "s %.9g instead of %.9Lg, t %.9g instead of %.9Lg", s, ws, t, wt);
}

PBT(segment_segment, 120000, 5000000, "segments parallel with overlap, or closest points interior to a segment") {
    V p1 = pt(c), q1 = pt(c), p2, q2; int kind = (int)c.draw(7); bool par = false;
    if (orc::len(q1 - p1) < 0.05L) q1 = p1 + V{1, 0, 0};
    switch (kind) {
    case 0: case 1: p2 = pt(c); q2 = pt(c); break;
    case 2: case 3: { // parallel or antiparallel, several overlap situations, on exactly representable directions half the time
        par = true; V d = q1 - p1; if (c.boolean()) { p1 = {(R)c.integer(-4, 4), (R)c.integer(-4, 4), (R)c.integer(-4, 4)}; d = V{}; d[(int)c.draw(3)] = (R)c.integer(1, 6) / 2; q1 = p1 + d; }
        R a = (R)c.integer(-12, 12) / 4, b = (R)c.integer(-12, 12) / 4; if (std::abs(b - a) < 0.2L) b = a + 1; V off = pt(c) / 4; if (c.boolean()) off = V{(R)c.integer(-8, 8) / 8, (R)c.integer(-8, 8) / 8, (R)c.integer(-8, 8) / 8}; if (c.chance(1, 8)) off = V{};
        p2 = p1 + d * a + off; q2 = p1 + d * b + off; break; }
    case 4: p2 = p1 + (q1 - p1) * (R)c.unit(); q2 = p2 + tov(gen::dir(c)) * (R)c.unit() * 3.0L; break; // touching
    case 5: p2 = pt(c); q2 = p2; break; // second is a point
    default: p2 = pt(c); q2 = pt(c); q1 = p1; if (c.boolean()) q2 = p2; break; // first (or both) is a point
    }
    auto P1 = orc::toe(p1), Q1 = orc::toe(q1), P2 = orc::toe(p2), Q2 = orc::toe(q2); if (c.boolean()) { std::swap(P1, P2); std::swap(Q1, Q2); }
    p1 = tov(P1); q1 = tov(Q1); p2 = tov(P2); q2 = tov(Q2); V d1 = q1 - p1, d2 = q2 - p2; R l1 = orc::len(d1), l2 = orc::len(d2);
    if ((l1 > 0 && l1 < 0.02L) || (l2 > 0 && l2 < 0.02L)) c.discard();
    c.note("p1=" VF " q1=" VF " p2=" VF " q2=" VF, VA(p1), VA(q1), VA(p2), VA(q2));
    R mag = 1 + orc::len(p1) + orc::len(q1) + orc::len(p2) + orc::len(q2); R want2 = segseg(p1, q1, p2, q2), want = std::sqrt(want2);
    R x2 = orc::len2(orc::cross(d1, d2)), den = l1 * l1 * l2 * l2;
    // The implementation may treat segments as parallel when |d1 x d2|^2 <= EPS (plus rounding); it then may be off by the divergence over the segments.
    R slack = 0; if (x2 <= 2 * EPS + 64 * EPS * den) { R sn = den > 0 ? std::sqrt(x2 / den) : 0; slack = sn * (l1 + l2) * 2; }
    R cond = x2 > 0 ? std::min<R>(std::sqrt(den / std::max(x2, EPS)), 1e9L) : 1; R tol = 64 * EPS * mag * (1 + mag / std::max<R>(0.1L, std::min(l1 > 0 ? l1 : 1, l2 > 0 ? l2 : 1))) * (1 + cond) + slack;
    scalar s = -3, t = -3, sp = -3, tp = -3; vector3 c1, c2, c1p, c2p; size_t n = 77;
    R g = closest_point_segment_segment(P1, Q1, P2, Q2, s, t, c1, c2);
    REQUIRE(s >= 0 && s <= 1 && t >= 0 && t <= 1, "s=%g t=%g", (double)s, (double)t);
    R gd = orc::dist(tov(c1), tov(c2)); REQUIRE(std::abs(std::sqrt(std::max<R>(g, 0)) - gd) <= tol);
    REQUIRE(orc::dist(tov(c1), p1 + d1 * (R)s) <= 16 * EPS * mag && orc::dist(tov(c2), p2 + d2 * (R)t) <= 16 * EPS * mag);
    REQUIRE(gd <= want + tol, "distance %.9Lg, minimum %.9Lg (tol %Lg)", gd, want, tol);
    vector3 a1, a2; R g2 = closest_point_segment_segment(P1, Q1, P2, Q2, s, t, a1, a2, &n, &sp, &tp, &c1p, &c2p);
    REQUIRE(n == 1 || n == 2, "number of closest points not reported: %zu", n); REQUIRE(s >= 0 && s <= 1 && t >= 0 && t <= 1);
    REQUIRE(orc::dist(tov(a1), p1 + d1 * (R)s) <= 16 * EPS * mag && orc::dist(tov(a2), p2 + d2 * (R)t) <= 16 * EPS * mag);
    REQUIRE(orc::dist(tov(a1), tov(a2)) <= want + tol, "with point count: distance %.9Lg, minimum %.9Lg", orc::dist(tov(a1), tov(a2)), want); REQUIRE(std::abs(std::sqrt(std::max<R>(g2, 0)) - orc::dist(tov(a1), tov(a2))) <= tol);
    if (n == 2) {
        REQUIRE(sp >= 0 && sp <= 1 && tp >= 0 && tp <= 1); REQUIRE(orc::dist(tov(c1p), p1 + d1 * (R)sp) <= 16 * EPS * mag && orc::dist(tov(c2p), p2 + d2 * (R)tp) <= 16 * EPS * mag);
        REQUIRE(orc::dist(tov(c1p), tov(c2p)) <= want + 2 * tol, "second pair at distance %.9Lg, minimum %.9Lg", orc::dist(tov(c1p), tov(c2p)), want);
        REQUIRE(x2 <= 4 * EPS + 128 * EPS * den, "two closest pairs for segments that are not parallel");
    }
    R wt = l2 > 0 ? orc::dot(p1 - p2, d2) / (l2 * l2) : 0; (void)wt;
    auto lattice = [](V v) { for (int i = 0; i < 3; ++i) if (v[i] * 8 != std::round(v[i] * 8) || std::abs(v[i]) > 64) return false; return true; }; // arithmetic on such points is exact
    if (par && l1 > 0 && l2 > 0 && (x2 + 8 * EPS * den <= EPS || (x2 == 0 && lattice(p1) && lattice(q1) && lattice(p2) && lattice(q2)))) { // exact overlap interval in parameters of the first segment
        R a = orc::dot(p2 - p1, d1) / (l1 * l1), b = orc::dot(q2 - p1, d1) / (l1 * l1); R lo = std::max<R>(0, std::min(a, b)), hi = std::min<R>(1, std::max(a, b)); R tt = 1e3L * EPS * mag * mag;
        c.label(orc::dot(d1, d2) > 0 ? "parallel" : "antiparallel");
        if (hi - lo > 0.01L && tt < 0.01L) { c.nontrivial(); c.label("overlap"); REQUIRE(n == 2, "overlap [%Lg,%Lg] but one point", lo, hi); R g0 = std::min(s, sp), g1 = std::max(s, sp); REQUIRE(std::abs(g0 - lo) <= tt && std::abs(g1 - hi) <= tt, "overlap [%Lg,%Lg], reported [%Lg,%Lg]", lo, hi, g0, g1); }
        else if (hi < lo - 0.01L) REQUIRE(n == 1, "no overlap but two points");
    } else c.nontrivial((s > 0 && s < 1) || (t > 0 && t < 1));
}

PBT(point_disc, 60000, 2000000, "point off the disc axis") {
    auto pos = gen::vec(c, 10); auto orn = gen::orient(c); auto r = gen::pos(c, 0.05, 5); auto ax = (coordinate_axis)c.draw(3);
    V e{}; e[(int)ax] = 1; V n = orc::rot(toq(orn), e), u{}; u[((int)ax + 1) % 3] = 1; u = orc::rot(toq(orn), u); V v = orc::cross(n, u);
    R rad = (R)(c.draw(5) == 0 ? 1.0 : c.uniform(0, 2.5)) * r, th = c.uniform(0, 6.28318530717958); if (c.chance(1, 10)) rad = 0;
    V p = tov(pos) + u * (rad * std::cos(th)) + v * (rad * std::sin(th)) + n * (R)c.real(5); auto ep = orc::toe(p); p = tov(ep);
    c.note("pos=" VF " orn=" QF " r=%g axis=%d p=" VF, VA(pos), QA(orn), r, (int)ax, VA(p));
    vector3 q; R d2 = closest_point_disc(pos, orn, r, ax, ep, q); V P = p - tov(pos); R h = orc::dot(P, n); V in = P - n * h; R l = orc::len(in); c.nontrivial(l > 1e-3L); c.label(l < r ? "inside" : "outside");
    V w = l <= r ? tov(pos) + in : tov(pos) + in * (r / l); R mag = 1 + orc::len(tov(pos)) + orc::len(P) + r, tol = 64 * EPS * mag;
    REQUIRE(orc::dist(tov(q), w) <= tol, "q=" VF " want " VF, VA(q), VA(w)); REQUIRE(std::abs(d2 - orc::len2(p - w)) <= 2 * tol * (orc::dist(p, w) + tol));
}

PBT(point_box, 60000, 2000000, "point inside the box") {
    vector3 h{gen::pos(c), gen::pos(c), gen::pos(c)}; bool inside = c.boolean(); vector3 p;
    if (inside) for (int i = 0; i < 3; ++i) { double f = c.draw(5) == 0 ? (double)c.integer(-2, 2) / 2 : c.uniform(-1, 1); p[i] = std::clamp((scalar)(h[i] * f), -h[i], h[i]); } else p = gen::vec(c, 10);
    c.note("h=" VF " p=" VF, VA(h), VA(p)); V P = tov(p), H = tov(h); inside = std::abs(P.x) <= H.x && std::abs(P.y) <= H.y && std::abs(P.z) <= H.z; c.nontrivial(inside); c.label(inside ? "inside" : "outside");
    auto o = closest_point_box_outside(h, p); for (int i = 0; i < 3; ++i) REQUIRE(o[i] == std::clamp(p[i], -h[i], h[i]));
    if (!inside) return;
    vector3 q, n; R d = closest_point_box_inside(h, p, q, n); R m = 1e30L; for (int i = 0; i < 3; ++i) m = std::min(m, std::min(H[i] - P[i], H[i] + P[i]));
    REQUIRE(near(d, m, orc::len(H)), "distance %.9Lg, nearest face is at %.9Lg", d, m); REQUIRE(near(orc::dist(tov(q), P), m, orc::len(H)));
    int k = -1; for (int i = 0; i < 3; ++i) if (n[i] != 0) { REQUIRE(k < 0 && std::abs(n[i]) == 1); k = i; } REQUIRE(k >= 0); REQUIRE(q[k] == n[k] * h[k], "closest point not on the face of the normal");
    for (int i = 0; i < 3; ++i) if (i != k) REQUIRE(q[i] == p[i]);
}
