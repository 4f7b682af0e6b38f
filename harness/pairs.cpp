// P30: contact pairs, manifolds and bounding boxes under histories of operations.
#include "harness/worldhist.hpp"
PBT(world_history, 30000, 1000000, "two bodies touched or were joined, and something was then removed or changed") { history(c, PAIRS | STATE); }

// Groups, masks and exclusions over many bodies, against a model, without steps.
PBT(exclusion_history, 40000, 1500000, "an exclusion was removed while another one of the same body remained") {
    Hist h; auto &r = h.w.reg; int ops = (int)c.size(1, 40); bool hit = false;
    auto count = [&](E e) { size_t k = 0; for (auto &p : h.excl) k += p.first == e || p.second == e; return k; };
    for (int i = 0; i < 3; ++i) add_body(c, h);
    for (int i = 0; i < ops; ++i) {
        size_t n = h.b.size(), op = c.draw(10); E a = h.b[c.draw(n)].e, b = h.b[c.draw(n)].e; bool has = r.all_of<collision_exclusion>(a) && r.all_of<collision_exclusion>(b);
        auto drop = [&](E e) { for (auto it = h.excl.begin(); it != h.excl.end();) it = it->first == e || it->second == e ? h.excl.erase(it) : std::next(it); };
        if (op == 0) { if (n < 22) add_body(c, h); }
        else if (op == 1) { if (n < 3) continue; c.note("destroy %u", id(a)); forget(h, a); r.destroy(a); }
        else if (a == b) continue;
        else if (op < 6) { if (count(a) >= 16 || count(b) >= 16) continue; c.note("exclude %u and %u", id(a), id(b)); c.boolean() ? exclude_collision(r, a, b) : exclude_collision(r, entity_pair{a, b}); h.excl.insert(std::minmax(a, b)); }
        else if (op < 9) { if (!has) continue; c.note("include %u and %u", id(a), id(b)); hit |= h.excl.count(std::minmax(a, b)) && (count(a) > 1 || count(b) > 1); remove_collision_exclusion(r, a, b); h.excl.erase(std::minmax(a, b)); }
        else { if (!r.all_of<collision_exclusion>(a)) continue; c.note("include %u and all", id(a)); hit |= count(a) > 1; clear_collision_exclusion(r, a); drop(a); }
        for (auto &x : h.b) for (auto &y : h.b) REQUIRE(should_collide_default(r, x.e, y.e) == allowed(h, x.e, y.e), "bodies %u and %u %s collide", id(x.e), id(y.e), allowed(h, x.e, y.e) ? "cannot" : "can");
    }
    c.nontrivial(hit);
}
