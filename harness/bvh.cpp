// P13: bounding volume hierarchy over static boxes. Oracle: linear scan.
#include "harness/common.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/collision/static_tree.hpp"
#include <set>
using namespace edyn;
using orc::R; using orc::V; using orc::tov; using orc::EPS;

PBT(static_tree_queries, 20000, 400000, "query reports some but not all objects") {
    size_t n = c.size(1, c.chance(1, 50) ? 400 : 40); std::vector<AABB> bs; int kind = (int)c.draw(4); for (size_t i = 0; i < n; ++i) { vector3 a = kind == 0 ? vector3{(scalar)c.integer(-3, 3), (scalar)c.integer(-3, 3), 0} : kind == 1 && i ? bs[0].min : gen::vec(c, 8); vector3 e; for (int k = 0; k < 3; ++k) e[k] = c.chance(1, 8) ? 0 : (scalar)c.uniform(0, kind == 0 ? 1 : 3); if (kind == 0) e = {1, 1, 1}; bs.push_back({a, a + e}); }
    uint32_t leaf = (uint32_t)c.size(1, 4); static_tree tree; std::vector<std::vector<uint32_t>> sets; auto rep = [&](static_tree::tree_node &node, auto b, auto e) { REQUIRE(b != e, "empty leaf"); REQUIRE((size_t)std::distance(b, e) <= leaf, "leaf holds %zu objects", (size_t)std::distance(b, e)); node.id = (uint32_t)sets.size(); sets.emplace_back(b, e); }; REQUIRE(tree.empty()); tree.build(bs.begin(), bs.end(), rep, leaf); REQUIRE(!tree.empty()); c.note("n=%zu leaf=%u kind=%d", n, leaf, kind);
    std::multiset<uint32_t> all; for (auto &s : sets) all.insert(s.begin(), s.end()); REQUIRE(all.size() == n, "%zu objects in the leaves of %zu", all.size(), n); for (uint32_t i = 0; i < n; ++i) REQUIRE(all.count(i) == 1, "object %u is in %zu leaves", i, all.count(i)); auto rb = tree.root_aabb(); for (int k = 0; k < 3; ++k) { scalar lo = bs[0].min[k], hi = bs[0].max[k]; for (auto &b : bs) { lo = std::min(lo, b.min[k]); hi = std::max(hi, b.max[k]); } REQUIRE(rb.min[k] == lo && rb.max[k] == hi, "root bounds"); }
    for (int q = 0; q < 4; ++q) { AABB box; V o = c.boolean() ? tov(bs[c.draw(n)].min) : tov(gen::vec(c, 8)); V h{(R)c.integer(0, 4) / 2, (R)c.integer(0, 4) / 2, (R)c.integer(0, 4) / 2}; box.min = orc::toe(o - h); box.max = orc::toe(o + h); std::multiset<uint32_t> got; tree.query(box, [&](auto id) { REQUIRE(tree.get_node(id).leaf()); for (auto x : sets[tree.get_node(id).id]) got.insert(x); }); size_t hits = 0; for (uint32_t i = 0; i < n; ++i) { bool ov = true; for (int k = 0; k < 3; ++k) ov &= bs[i].min[k] <= box.max[k] && bs[i].max[k] >= box.min[k]; hits += ov; if (ov) REQUIRE(got.count(i) == 1, "object %u overlaps the query but was reported %zu times", i, got.count(i)); else if (leaf == 1) REQUIRE(got.count(i) == 0, "object %u does not overlap the query", i); REQUIRE(got.count(i) <= 1); } c.nontrivial(hits > 0 && hits < n);
        vector3 p0 = gen::vec(c, 9), p1 = gen::vec(c, 9); if (c.boolean()) { auto &b = bs[c.draw(n)]; V x = (tov(b.min) + tov(b.max)) * 0.5L; p1 = orc::toe(tov(p0) + (x - tov(p0)) * (R)c.uniform(1.01, 2)); } V d = tov(p1) - tov(p0); if (orc::len(d) < 0.1L) continue; std::multiset<uint32_t> ray; tree.raycast(p0, p1, [&](auto id) { for (auto x : sets[tree.get_node(id).id]) ray.insert(x); }); R mar = 64 * EPS * 40 * (1 + 40 / orc::len(d)); for (uint32_t i = 0; i < n; ++i) { auto hit = [&](R f) { R lo = 0, hi = 1; for (int k = 0; k < 3; ++k) { R a = (R)bs[i].min[k] - f, b = (R)bs[i].max[k] + f, s = k == 0 ? (R)p0.x : k == 1 ? (R)p0.y : (R)p0.z; if (b < a) return false; if (d[k] == 0) { if (s < a || s > b) return false; } else { R x = (a - s) / d[k], y = (b - s) / d[k]; lo = std::max(lo, std::min(x, y)); hi = std::min(hi, std::max(x, y)); } } return lo <= hi; }; if (hit(-mar)) REQUIRE(ray.count(i) == 1, "segment meets object %u but it is not visited", i); if (leaf == 1 && !hit(mar)) REQUIRE(ray.count(i) == 0, "segment misses object %u but it is visited", i); } }
    tree.clear(); REQUIRE(tree.empty());
}

PBT(aabb_ops, 60000, 1000000, "boxes overlap partially") {
    auto mk = [&] { AABB b; for (int k = 0; k < 3; ++k) { scalar x = c.boolean() ? (scalar)c.integer(-6, 6) / 2 : gen::s(c, 5), y = c.boolean() ? (scalar)c.integer(-6, 6) / 2 : gen::s(c, 5); b.min[k] = std::min(x, y); b.max[k] = std::max(x, y); } return b; }; AABB a = mk(), b = mk(); c.note("a=" VF VF " b=" VF VF, VA(a.min), VA(a.max), VA(b.min), VA(b.max)); bool ov = true, in = true; auto u = enclosing_aabb(a, b); for (int k = 0; k < 3; ++k) { ov &= a.min[k] <= b.max[k] && b.min[k] <= a.max[k]; in &= a.min[k] <= b.min[k] && b.max[k] <= a.max[k]; REQUIRE(u.min[k] == std::min(a.min[k], b.min[k]) && u.max[k] == std::max(a.max[k], b.max[k]), "enclosing box"); } c.nontrivial(ov && !in); REQUIRE(intersect(a, b) == ov && intersect(b, a) == ov); REQUIRE(a.contains(b) == in, "contains box"); REQUIRE(u.contains(a) && u.contains(b)); V s = tov(a.max) - tov(a.min); R mag = orc::len(tov(a.min)) + orc::len(tov(a.max)); REQUIRE(orc::near(a.area(), 2 * (s.x * s.y + s.y * s.z + s.z * s.x), mag * mag)); REQUIRE(orc::near(a.size(), s, mag)); REQUIRE(orc::near(a.center(), (tov(a.min) + tov(a.max)) * 0.5L, mag)); REQUIRE(u.area() >= a.area() * (1 - 8 * (scalar)EPS)); vector3 p = gen::vec(c, 5); if (c.boolean()) p[c.draw(3)] = a.max[c.draw(3)]; bool pin = true; for (int k = 0; k < 3; ++k) pin &= a.min[k] <= p[k] && p[k] <= a.max[k]; REQUIRE(a.contains(p) == pin, "contains point"); vector3 v = gen::vec(c, 1); auto ins = a.inset(v); REQUIRE(orc::near(ins.min, tov(a.min) + tov(v), mag + 2) && orc::near(ins.max, tov(a.max) - tov(v), mag + 2), "inset");
}
