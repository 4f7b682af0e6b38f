// P01: vector and matrix algebra and frame conversion. Oracle: long double arithmetic on the definitions.
#include "harness/common.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/math/coordinate_axis.hpp"
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::near;

PBT(vector3_ops, 60000, 3000000, "at least two operand components differ from zero") {
    auto a = gen::vec(c, 100), b = gen::vec(c, 100), d = gen::vec(c, 100); auto s = gen::s(c, 100);
    if (c.chance(1, 8)) b = a; if (c.chance(1, 8)) b = -a;
    c.note("a=" VF " b=" VF " c=" VF " s=%.9g", VA(a), VA(b), VA(d), (double)s);
    c.nontrivial((a.x != 0) + (a.y != 0) + (a.z != 0) + (b.x != 0) + (b.y != 0) + (b.z != 0) >= 2);
    for (int i = 0; i < 3; ++i) {
        REQUIRE((a + b)[i] == a[i] + b[i]); REQUIRE((a - b)[i] == a[i] - b[i]); REQUIRE((-a)[i] == -a[i]);
        REQUIRE((a * b)[i] == a[i] * b[i]); REQUIRE((a * s)[i] == a[i] * s); REQUIRE((s * a)[i] == a[i] * s);
        if (b[i] != 0) REQUIRE(near((a / b)[i], (R)a[i] / b[i], 0, 4));
        if (b[i] != 0) REQUIRE(near((s / b)[i], (R)s / b[i], 0, 4));
        if (s != 0) REQUIRE(near((a / s)[i], (R)a[i] / s, 0, 4));
        REQUIRE(edyn::min(a, b)[i] == std::min(a[i], b[i])); REQUIRE(edyn::max(a, b)[i] == std::max(a[i], b[i]));
        REQUIRE(edyn::abs(a)[i] == std::abs(a[i])); REQUIRE(edyn::floor(a)[i] == std::floor(a[i])); REQUIRE(edyn::ceil(a)[i] == std::ceil(a[i]));
    }
    auto t = a; t += b; REQUIRE(t == a + b); t = a; t -= b; REQUIRE(t == a - b); t = a; t *= s; REQUIRE(t == a * s); t = a; t *= b; REQUIRE(t == a * b);
    if (s != 0) { t = a; t /= s; REQUIRE(near(t, tov(a) / (R)s, 0, 4)); }
    if (b.x != 0 && b.y != 0 && b.z != 0) { t = a; t /= b; REQUIRE(near(t, V{(R)a.x / b.x, (R)a.y / b.y, (R)a.z / b.z}, 0, 4)); }
    REQUIRE((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z)); REQUIRE((a != b) == !(a == b));
    REQUIRE((a > b) == (a.x > b.x && a.y > b.y && a.z > b.z)); REQUIRE((a < b) == (b > a));
    REQUIRE((a >= b) == (a.x >= b.x && a.y >= b.y && a.z >= b.z)); REQUIRE((a <= b) == (b >= a));
    R la = orc::len(tov(a)), lb = orc::len(tov(b)), ld = orc::len(tov(d));
    REQUIRE(near(dot(a, b), orc::dot(tov(a), tov(b)), la * lb));
    REQUIRE(near(cross(a, b), orc::cross(tov(a), tov(b)), la * lb));
    REQUIRE(near(triple_product(a, b, d), orc::dot(tov(a), orc::cross(tov(b), tov(d))), la * lb * ld, 32));
    REQUIRE(near(length_sqr(a), la * la, 0)); REQUIRE(near(length(a), la, 0));
    REQUIRE(near(distance(a, b), orc::dist(tov(a), tov(b)), la + lb)); REQUIRE(near(distance_sqr(a, b), orc::len2(tov(a) - tov(b)), (la + lb) * (la + lb)));
    if (la > 1e-6L) { auto n = normalize(a); REQUIRE(near(n, orc::unit(tov(a)), 1)); }
    auto tn = a; bool did = try_normalize(tn);
    if (la * la > 1.01e-18L) { REQUIRE(did); REQUIRE(near(tn, orc::unit(tov(a)), 1)); }
    else if (la * la < 0.99e-18L) { REQUIRE(!did); REQUIRE(tn == a); }
    auto n = gen::dir(c); V N = tov(n);
    REQUIRE(near(project_direction(a, n), tov(a) - N * orc::dot(tov(a), N), la));
    REQUIRE(near(project_plane(a, b, n), tov(a) - N * orc::dot(tov(a) - tov(b), N), la + lb));
    auto mi = min_index(a), ma = max_index(a), mia = min_index_abs(a), maa = max_index_abs(a);
    for (int i = 0; i < 3; ++i) {
        REQUIRE(mi < 3 && a[mi] <= a[i]); REQUIRE(ma < 3 && a[ma] >= a[i]);
        REQUIRE(mia < 3 && std::abs(a[mia]) <= std::abs(a[i])); REQUIRE(maa < 3 && std::abs(a[maa]) >= std::abs(a[i]));
    }
    int k = 0; a.each([&](scalar v, int i) { REQUIRE(i == k && v == a[i]); ++k; }); REQUIRE(k == 3);
    k = 0; auto e = a; e.each([&](scalar &v) { v += 1; ++k; }); REQUIRE(k == 3 && e.x == a.x + 1 && e.y == a.y + 1 && e.z == a.z + 1);
}

PBT(vector2_ops, 30000, 1000000, "both operands non-zero") {
    REQUIRE(vector2_zero.x == 0 && vector2_zero.y == 0 && vector2_one.x == 1 && vector2_one.y == 1 && vector2_x.x == 1 && vector2_x.y == 0 && vector2_y.x == 0 && vector2_y.y == 1, "constants"); REQUIRE(vector3_zero.x == 0 && vector3_zero.y == 0 && vector3_zero.z == 0 && vector3_one.x == 1 && vector3_one.y == 1 && vector3_one.z == 1 && vector3_x.x == 1 && vector3_x.y == 0 && vector3_x.z == 0 && vector3_y.x == 0 && vector3_y.y == 1 && vector3_y.z == 0 && vector3_z.x == 0 && vector3_z.y == 0 && vector3_z.z == 1, "constants");
    auto a = gen::vec2(c, 100), b = gen::vec2(c, 100); auto s = gen::s(c, 100);
    c.note("a=(%g,%g) b=(%g,%g) s=%g", a.x, a.y, b.x, b.y, s);
    c.nontrivial((a.x != 0 || a.y != 0) && (b.x != 0 || b.y != 0));
    R la = std::sqrt((R)a.x * a.x + (R)a.y * a.y), lb = std::sqrt((R)b.x * b.x + (R)b.y * b.y);
    for (int i = 0; i < 2; ++i) {
        REQUIRE((a + b)[i] == a[i] + b[i]); REQUIRE((a - b)[i] == a[i] - b[i]); REQUIRE((-a)[i] == -a[i]); REQUIRE((a * b)[i] == a[i] * b[i]);
        REQUIRE((a * s)[i] == a[i] * s); REQUIRE((s * a)[i] == a[i] * s);
        if (s != 0) REQUIRE(near((a / s)[i], (R)a[i] / s, 0, 4));
        if (b[i] != 0) REQUIRE(near((s / b)[i], (R)s / b[i], 0, 4));
    }
    auto same = [](vector2 p, vector2 q) { return p.x == q.x && p.y == q.y; };
    auto t = a; t += b; REQUIRE(same(t, a + b)); t = a; t -= b; REQUIRE(same(t, a - b)); t = a; t *= s; REQUIRE(same(t, a * s));
    if (s != 0) { t = a; t /= s; REQUIRE(near(t.x, (R)a.x / s, 0, 4) && near(t.y, (R)a.y / s, 0, 4)); }
    REQUIRE(near(dot(a, b), (R)a.x * b.x + (R)a.y * b.y, la * lb)); REQUIRE(near(perp_product(a, b), (R)a.x * b.y - (R)a.y * b.x, la * lb));
    auto o = orthogonal(a); REQUIRE(dot(o, a) == 0 && near(length(o), la, 0)); REQUIRE(la == 0 || perp_product(a, o) >= 0);
    REQUIRE(near(length_sqr(a), la * la, 0)); REQUIRE(near(length(a), la, 0));
    R dx = (R)a.x - b.x, dy = (R)a.y - b.y; REQUIRE(near(distance(a, b), std::sqrt(dx * dx + dy * dy), la + lb)); REQUIRE(near(distance_sqr(a, b), dx * dx + dy * dy, (la + lb) * (la + lb)));
    if (la > 1e-5L) { auto n = normalize(a); REQUIRE(near(n.x, a.x / la, 1) && near(n.y, a.y / la, 1)); }
    vector3 v{a.x, a.y, b.x};
    REQUIRE(same(to_vector2_xy(v), {v.x, v.y}) && same(to_vector2_xz(v), {v.x, v.z}) && same(to_vector2_yz(v), {v.y, v.z}));
    REQUIRE(same(to_vector2_zy(v), {v.z, v.y}) && same(to_vector2_yx(v), {v.y, v.x}) && same(to_vector2_zx(v), {v.z, v.x}));
    // Lifting a planar vector to 3D and projecting it back on the same plane is the identity and the remaining coordinate is zero.
    REQUIRE(same(to_vector2_xy(to_vector3_xy(a)), a) && to_vector3_xy(a).z == 0); REQUIRE(same(to_vector2_xz(to_vector3_xz(a)), a) && to_vector3_xz(a).y == 0);
    REQUIRE(same(to_vector2_yz(to_vector3_yz(a)), a) && to_vector3_yz(a).x == 0); REQUIRE(same(to_vector2_zy(to_vector3_zy(a)), a) && to_vector3_zy(a).x == 0);
    REQUIRE(same(to_vector2_yx(to_vector3_yx(a)), a) && to_vector3_yx(a).z == 0); REQUIRE(same(to_vector2_zx(to_vector3_zx(a)), a) && to_vector3_zx(a).y == 0);
}

static R minorabs(const orc::M &m) { R s = 0; for (auto &r : m.r) s = std::max(s, orc::maxabs(r)); return s; }

PBT(matrix_ops, 60000, 2000000, "matrix has at least four non-zero entries") {
    auto A = gen::mat(c), B = gen::mat(c); auto v = gen::vec(c), d = gen::vec(c); auto s = gen::s(c);
    c.note("A=[" VF VF VF "] B=[" VF VF VF "] v=" VF, VA(A[0]), VA(A[1]), VA(A[2]), VA(B[0]), VA(B[1]), VA(B[2]), VA(v));
    int nz = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) nz += A[i][j] != 0; c.nontrivial(nz >= 4);
    auto oa = orc::tom(A), ob = orc::tom(B); R ma = minorabs(oa), mb = minorabs(ob), mv = orc::maxabs(tov(v));
    auto sum = A + B, dif = A - B, prod = A * B, tr = transpose(A), sc = A * s, sc2 = s * A, sd = scale_matrix(A, d), dg = diagonal_matrix(d), sk = skew_matrix(d), cols = matrix3x3_columns(A[0], A[1], A[2]), adj = adjugate_matrix(A);
    auto e = A; e += B; auto f = A; f -= B; auto g = A; g *= B;
    for (int i = 0; i < 3; ++i) {
        REQUIRE(A.column(i) == (vector3{A[0][i], A[1][i], A[2][i]}));
        REQUIRE(near(A.column_dot(i, v), (R)A[0][i] * v.x + (R)A[1][i] * v.y + (R)A[2][i] * v.z, ma * mv));
        for (int j = 0; j < 3; ++j) {
            REQUIRE(sum[i][j] == A[i][j] + B[i][j] && e[i][j] == sum[i][j]); REQUIRE(dif[i][j] == A[i][j] - B[i][j] && f[i][j] == dif[i][j]);
            R w = 0; for (int k = 0; k < 3; ++k) w += (R)A[i][k] * B[k][j];
            REQUIRE(near(prod[i][j], w, ma * mb) && g[i][j] == prod[i][j]);
            REQUIRE(tr[i][j] == A[j][i] && cols[i][j] == A[j][i]); REQUIRE(sc[i][j] == A[i][j] * s && sc2[i][j] == A[i][j] * s);
            REQUIRE(near(sd[i][j], (R)A[i][j] * d[j], 0)); REQUIRE(dg[i][j] == (i == j ? d[i] : 0));
        }
        REQUIRE(get_diagonal(A)[i] == A[i][i]);
    }
    REQUIRE(near(A * v, oa * tov(v), 3 * ma * mv)); REQUIRE(near(v * A, orc::tom(tr) * tov(v), 3 * ma * mv)); REQUIRE(near(sk * v, orc::cross(tov(d), tov(v)), orc::maxabs(tov(d)) * mv));
    R det = orc::dot(oa.r[0], orc::cross(oa.r[1], oa.r[2])); REQUIRE(near(A.determinant(), det, 6 * ma * ma * ma));
    // adjugate: A * adj(A) = det * I
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        R w = 0; for (int k = 0; k < 3; ++k) w += (R)A[i][k] * adj[k][j];
        REQUIRE(near(w, i == j ? det : 0, 10 * ma * ma * ma, 16), "adjugate (%d,%d): %.9Lg det %.9Lg", i, j, w, det);
    }
    auto inv = inverse_matrix(A);
    if (std::abs(det) > 8 * orc::EPS * 6 * ma * ma * ma + 2 * orc::EPS) {
        c.label("invertible");
        R minv = minorabs(orc::tom(inv)), cond = 9 * ma * minv, relerr = 64 * orc::EPS * 6 * ma * ma * ma / std::abs(det);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            R w = 0; for (int k = 0; k < 3; ++k) w += (R)A[i][k] * inv[k][j];
            REQUIRE(std::abs(w - (i == j)) <= relerr * (1 + cond) + 64 * orc::EPS * cond, "A*inv(A) (%d,%d)=%.9Lg cond=%Lg", i, j, w, cond);
        }
    } else if (det == 0 && A.determinant() == 0) { c.label("singular"); REQUIRE(inv == matrix3x3_zero); }
    REQUIRE((A == B) == (A[0] == B[0] && A[1] == B[1] && A[2] == B[2])); REQUIRE((A != B) == !(A == B)); REQUIRE(A == A && !(A != A));
    auto allc = [&](auto op) { bool r = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = r && op(A[i][j], B[i][j]); return r; };
    REQUIRE((A < B) == allc([](scalar x, scalar y) { return x < y; })); REQUIRE((A > B) == allc([](scalar x, scalar y) { return x > y; }));
    REQUIRE((A <= B) == allc([](scalar x, scalar y) { return x <= y; })); REQUIRE((A >= B) == allc([](scalar x, scalar y) { return x >= y; }));
    auto C = A; C[c.draw(3)][c.draw(3)] += scalar(0.25); if (C != A) REQUIRE(!(C == A));
    matrix3x3 lo{A[0] - vector3_one, A[1] - vector3_one, A[2] - vector3_one}; REQUIRE(lo < A && lo <= A && A > lo && A >= lo && !(A < lo));
}

PBT(symmetric_inverse, 30000, 1000000, "off-diagonal entries are present") {
    // Symmetric positive definite (an inertia tensor): U diag(e) U^T with known inverse.
    auto q = gen::orient(c); R ev[3] = {(R)gen::pos(c, 0.05, 20), (R)gen::pos(c, 0.05, 20), (R)gen::pos(c, 0.05, 20)}; auto Q = orc::toq(q);
    V ax[3] = {orc::rot(Q, {1, 0, 0}), orc::rot(Q, {0, 1, 0}), orc::rot(Q, {0, 0, 1})}; matrix3x3 m{}; 
    if (c.chance(1, 4)) ev[c.draw(3)] *= -1; // indefinite but invertible
    for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) { R w = 0; for (int k = 0; k < 3; ++k) w += ev[k] * ax[k][i] * ax[k][j]; m[i][j] = m[j][i] = (scalar)w; }
    c.note("m=[" VF VF VF "]", VA(m[0]), VA(m[1]), VA(m[2])); c.nontrivial(m[0][1] != 0 && m[0][2] != 0 && m[1][2] != 0);
    auto inv = inverse_matrix_symmetric(m); R mm = minorabs(orc::tom(m)), mi = minorabs(orc::tom(inv)); R det = std::abs(ev[0] * ev[1] * ev[2]);
    R tol = 64 * orc::EPS * (6 * mm * mm * mm / det) * (1 + 9 * mm * mi); if (tol > 0.05L) { c.discard(); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R w = 0; for (int k = 0; k < 3; ++k) w += (R)m[i][k] * inv[k][j]; REQUIRE(std::abs(w - (i == j)) <= tol, "(%d,%d)=%.9Lg", i, j, w); REQUIRE(inv[i][j] == inv[j][i]); }
}

PBT(frames, 60000, 2000000, "rotation is not the identity and position is not the origin") {
    auto q = gen::orient(c); auto p = gen::vec(c, 100), pos = gen::vec(c, 100); auto Q = orc::toq(q); auto m = to_matrix3x3(q);
    c.note("q=" QF " pos=" VF " p=" VF, QA(q), VA(pos), VA(p)); c.nontrivial(q != quaternion_identity && pos != vector3_zero);
    R mag = orc::len(tov(p)) + orc::len(tov(pos));
    V w = tov(pos) + orc::rot(Q, tov(p)), o = orc::rot(orc::conj(Q), tov(p) - tov(pos));
    REQUIRE(near(to_world_space(p, pos, q), w, mag, 32)); REQUIRE(near(to_world_space(p, pos, m), w, mag, 32)); REQUIRE(near(to_object_space(p, pos, q), o, mag, 32)); REQUIRE(near(to_object_space(p, pos, m), o, mag, 32));
    REQUIRE(near(to_object_space(to_world_space(p, pos, q), pos, q), tov(p), mag, 64)); REQUIRE(near(to_world_space(to_object_space(p, pos, m), pos, m), tov(p), mag, 64));
    for (auto ax : {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z}) { V e{}; e[(int)ax] = 1; REQUIRE(near(coordinate_axis_vector(ax), e, 0)); REQUIRE(near(coordinate_axis_vector(ax, q), orc::rot(Q, e), 1)); }
}

PBT(scalar_util, 40000, 1000000, "argument is non-zero") {
    auto s = gen::s(c, 50), a = gen::s(c), b = gen::s(c); c.note("s=%.9g a=%.9g b=%.9g", s, a, b); c.nontrivial(s != 0);
    R pr = orc::PI;
    REQUIRE(near(to_degrees(s), (R)s * 180 / pr, 0)); REQUIRE(near(to_radians(s), (R)s * pr / 180, 0)); REQUIRE(near(to_Nm_per_radian(s), (R)s * 180 / pr, 0)); REQUIRE(near(to_Nm_per_degree(s), (R)s * pr / 180, 0));
    REQUIRE(clamp_unit(s) == (s < 0 ? 0 : s > 1 ? 1 : s)); REQUIRE(square(s) == s * s); REQUIRE(to_sign(s > 0) == (s > 0 ? 1 : -1));
    auto t = (scalar)c.unit(); REQUIRE(near(lerp(a, b, t), (R)a * (1 - (R)t) + (R)b * t, std::abs(a) + std::abs(b))); REQUIRE(lerp(a, b, scalar(0)) == a && lerp(a, b, scalar(1)) == b);
    auto n = normalize_angle(s); REQUIRE(n >= -pi * (1 + 4 * EDYN_EPSILON) && n <= pi * (1 + 4 * EDYN_EPSILON));
    R turns = ((R)s - n) / (2 * (R)pi); REQUIRE(std::abs(turns - std::round(turns)) < 1e-5L, "not equal modulo a turn: %Lg", turns);
    if (s > -3.1L && s < 3.1L) REQUIRE(n == s);
    std::array<scalar, 4> arr{a, b, s, t}; REQUIRE(near(average(arr), ((R)a + b + s + t) / 4, std::abs(a) + std::abs(b) + std::abs(s) + 1));
}
