// P28: dynamic tree of boxes under histories of insertion, movement and removal. Oracle: a list of boxes searched exhaustively.
#include "harness/common.hpp"
#include "edyn/collision/dynamic_tree.hpp"
#include <entt/entity/registry.hpp>
#include <map>
#include <set>
using namespace edyn; using pbt::Case; using orc::R;
struct Leaf { entt::entity e; AABB tight, fat; };
static AABB box(Case &c, double ext) { vector3 a = gen::vec(c, ext), h; for (size_t i = 0; i < 3; ++i) h[i] = c.chance(1, 10) ? 0 : gen::pos(c, 0.01, ext / 4); return {a - h, a + h}; }
static bool overlap(const AABB &a, const AABB &b, double e) { for (size_t i = 0; i < 3; ++i) if ((double)a.min[i] > b.max[i] + e || (double)b.min[i] > a.max[i] + e) return false; return true; }
static bool crossed(const AABB &b, const vector3 &p, const vector3 &q, double e) { double t0 = 0, t1 = 1; for (size_t i = 0; i < 3; ++i) { double d = (double)q[i] - p[i], lo = b.min[i] - e, hi = b.max[i] + e; if (lo > hi) return false; if (std::abs(d) < 1e-12) { if (p[i] < lo || p[i] > hi) return false; continue; } double a = (lo - p[i]) / d, z = (hi - p[i]) / d; if (a > z) std::swap(a, z); t0 = std::max(t0, a); t1 = std::min(t1, z); if (t0 > t1) return false; } return true; }
static void check(Case &c, const dynamic_tree &t, const std::map<tree_node_id_t, Leaf> &m, double ext) {
    for (auto &[id, l] : m) { auto &n = t.get_node(id); REQUIRE(n.leaf() && n.entity == l.e, "node of entity %u is not its leaf", (unsigned)entt::to_integral(l.e)); REQUIRE(n.aabb.contains(l.tight), "box in the tree does not contain that of entity %u", (unsigned)entt::to_integral(l.e)); }
    for (int k = 0; k < 3; ++k) { AABB q = k == 0 ? AABB{-vector3_one * (scalar)1e6, vector3_one * (scalar)1e6} : box(c, ext); if (k == 2 && !m.empty()) { auto it = m.begin(); std::advance(it, (long)c.draw(m.size())); q = it->second.tight; } std::map<tree_node_id_t, int> got; t.query(q, [&](tree_node_id_t id) { ++got[id]; });
        for (auto &[id, n] : got) { REQUIRE(m.count(id), "query visited node %u which is not a leaf", (unsigned)id); REQUIRE(n == 1, "query visited a leaf %d times", n); REQUIRE(overlap(m.at(id).fat, q, 1e-4), "query visited entity %u, away from the box", (unsigned)entt::to_integral(m.at(id).e)); }
        for (auto &[id, l] : m) if (overlap(l.tight, q, 0)) REQUIRE(got.count(id), "query missed entity %u", (unsigned)entt::to_integral(l.e)); }
    vector3 p = gen::vec(c, ext), q = c.chance(1, 4) ? p + vector3{(scalar)(c.chance(1, 2) ? ext : 0), (scalar)(c.chance(1, 2) ? -ext : 0), (scalar)(c.chance(1, 2) ? ext : 0)} : gen::vec(c, ext); std::map<tree_node_id_t, int> got; t.raycast(p, q, [&](tree_node_id_t id) { ++got[id]; });
    for (auto &[id, n] : got) { REQUIRE(m.count(id), "ray visited node %u which is not a leaf", (unsigned)id); REQUIRE(n == 1, "ray visited a leaf %d times", n); REQUIRE(crossed(m.at(id).fat, p, q, 1e-3 * ext), "ray visited entity %u, away from it", (unsigned)entt::to_integral(m.at(id).e)); }
    for (auto &[id, l] : m) if (crossed(l.tight, p, q, -1e-4 * ext)) REQUIRE(got.count(id), "ray from " VF " to " VF " missed entity %u", VA(p), VA(q), (unsigned)entt::to_integral(l.e));
    // Depth stays proportional to the logarithm of the number of leaves.
    if (m.size() > 8) { size_t deepest = 0; for (auto &[id, l] : m) { size_t d = 0; auto i = id; while (t.get_node(i).parent != null_tree_node_id && d <= 2 * m.size()) { i = t.get_node(i).parent; ++d; } deepest = std::max(deepest, d); } REQUIRE((double)deepest <= 3 * std::log2((double)m.size()) + 3, "depth is %zu with %zu leaves", deepest, m.size()); }
}
static void history(Case &c, size_t maxops, size_t maxleaves) {
    dynamic_tree t; std::map<tree_node_id_t, Leaf> m; double ext = c.boolean() ? 10 : 100; uint32_t next = 0; size_t ops = c.size(1, maxops); bool sorted = c.chance(1, 3); int moved = 0, gone = 0; auto any = [&] { auto it = m.begin(); std::advance(it, (long)c.draw(m.size())); return it; };
    auto fat = [&](const AABB &b) { return AABB{b.min - vector3_one * (scalar)0.1, b.max + vector3_one * (scalar)0.1}; };
    for (size_t o = 0; o < ops; ++o) { int k = (int)c.draw(10);
        if (m.empty() || (k < 5 && m.size() < maxleaves)) { AABB b = box(c, ext); if (sorted) { vector3 s{(scalar)(next * 2), 0, 0}; b = {s - vector3_one, s + vector3_one}; } auto id = t.create(b, entt::entity{next}); c.note("create %u: " VF " to " VF, next, VA(b.min), VA(b.max)); REQUIRE(!m.count(id), "node %u is already in use", (unsigned)id); m[id] = {entt::entity{next++}, b, fat(b)}; }
        else if (k < 8) { auto it = any(); AABB b = it->second.tight; if (c.boolean()) b = box(c, ext); else { vector3 d = gen::vec(c, c.boolean() ? 0.05 : 0.5); b = {b.min + d, b.max + d}; } c.note("move %u: " VF " to " VF, (unsigned)entt::to_integral(it->second.e), VA(b.min), VA(b.max)); bool r = t.move(it->first, b); it->second.tight = b; if (r) { it->second.fat = fat(b); ++moved; } else REQUIRE(t.get_node(it->first).aabb.contains(b), "move was skipped though the box is outside"); }
        else if (k == 8) { auto it = any(); c.note("destroy %u", (unsigned)entt::to_integral(it->second.e)); t.destroy(it->first); m.erase(it); ++gone; }
        else if (c.chance(1, 20)) { c.note("clear"); t.clear(); m.clear(); }
        if (o + 1 == ops || c.chance(1, 3)) check(c, t, m, ext); }
    c.nontrivial(moved > 0 && gone > 0); c.label_if(sorted, "inserted in order"); c.label_if(m.size() > 16, "more than 16 leaves");
}
PBT(tree_history, 15000, 300000, "leaves were moved and removed") { history(c, 40, 12); }
PBT(tree_large, 500, 8000, "leaves were moved and removed") { history(c, 500, 300); }
