// P27: entity graph. Oracle: explicit lists of nodes and edges, with connected components by union-find.
#include "harness/common.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/core/entity_pair.hpp"
#include <entt/entity/registry.hpp>
#include <map>
#include <set>
using namespace edyn; using pbt::Case; using G = entity_graph; using I = G::index_type;
struct ME { entt::entity e; I a, b; };
struct MN { entt::entity e; bool connecting; };
struct Model { std::map<I, MN> n; std::map<I, ME> e; };
using ES = std::multiset<entt::entity>;
static std::vector<std::pair<ES, ES>> components(const Model &m) { // one per group of connecting nodes; others belong to all groups they touch
    std::map<I, I> p; for (auto &[i, x] : m.n) if (x.connecting) p[i] = i; std::function<I(I)> find = [&](I i) { while (p[i] != i) i = p[i]; return i; };
    for (auto &[k, x] : m.e) if (m.n.at(x.a).connecting && m.n.at(x.b).connecting) p[find(x.a)] = find(x.b);
    std::map<I, std::pair<std::set<I>, std::set<I>>> g; for (auto &[i, x] : m.n) if (x.connecting) g[find(i)].first.insert(i);
    for (auto &[k, x] : m.e) { bool ca = m.n.at(x.a).connecting, cb = m.n.at(x.b).connecting; for (auto [u, v, cu] : {std::tuple{x.a, x.b, ca}, std::tuple{x.b, x.a, cb}}) if (cu) { auto &gr = g[find(u)]; gr.first.insert(v); gr.second.insert(k); } }
    std::vector<std::pair<ES, ES>> r; for (auto &[k, x] : g) { ES a, b; for (auto i : x.first) a.insert(m.n.at(i).e); for (auto i : x.second) b.insert(m.e.at(i).e); r.push_back({a, b}); } std::sort(r.begin(), r.end()); return r;
}
static void verify(Case &c, const G &g, const Model &m, bool deep) {
    REQUIRE(g.num_nodes() == m.n.size() && g.num_edges() == m.e.size(), "%zu nodes and %zu edges, expected %zu and %zu", (size_t)g.num_nodes(), (size_t)g.num_edges(), m.n.size(), m.e.size());
    for (auto &[k, x] : m.e) { REQUIRE(g.edge_entity(k) == x.e, "edge %zu has another entity", k); auto i = g.edge_node_indices(k); REQUIRE((i[0] == x.a && i[1] == x.b), "edge %zu joins %zu and %zu, expected %zu and %zu", k, i[0], i[1], x.a, x.b); auto p = g.edge_node_entities(k); REQUIRE((p == entity_pair{m.n.at(x.a).e, m.n.at(x.b).e}), "entities of nodes of edge %zu", k); }
    for (auto &[i, x] : m.n) { REQUIRE(g.node_entity(i) == x.e, "node %zu has another entity", i); REQUIRE(g.is_connecting_node(i) == x.connecting, "node %zu connecting", i);
        std::set<I> nb; std::multiset<I> ed, got; for (auto &[k, y] : m.e) if (y.a == i || y.b == i) { nb.insert(y.a == i ? y.b : y.a); ed.insert(k); } ES nbe, gote; for (auto j : nb) nbe.insert(m.n.at(j).e);
        g.visit_neighbors(i, [&](entt::entity e) { gote.insert(e); }); REQUIRE(gote == nbe, "node %zu has %zu neighbors, expected %zu", i, gote.size(), nbe.size()); g.visit_edges(i, [&](I k) { got.insert(k); }); REQUIRE(got == ed, "node %zu has %zu edges, expected %zu", i, got.size(), ed.size());
        if (!nb.empty()) { int n = 0; g.visit_neighbors(i, [&](entt::entity) { ++n; return false; }); REQUIRE(n == 1, "visit of neighbors not interrupted"); n = 0; g.visit_edges(i, [&](I) { ++n; return false; }); REQUIRE(n == 1, "visit of edges not interrupted"); }
        if (deep) for (auto &[j, y] : m.n) { std::multiset<I> w, h; for (auto &[k, z] : m.e) if ((z.a == i && z.b == j) || (z.a == j && z.b == i)) w.insert(k); g.visit_edges(i, j, [&](I k) { h.insert(k); }); REQUIRE(w == h, "%zu edges between %zu and %zu, expected %zu", h.size(), i, j, w.size()); REQUIRE(g.has_adjacency(i, j) == !w.empty(), "adjacency of %zu and %zu", i, j); } }
    if (!deep) return; auto want = components(m); std::vector<std::pair<ES, ES>> got; for (auto &x : g.connected_components()) if (!x.nodes.empty() || !x.edges.empty()) got.push_back({ES(x.nodes.begin(), x.nodes.end()), ES(x.edges.begin(), x.edges.end())}); std::sort(got.begin(), got.end());
    REQUIRE(got == want, "%zu connected components, expected %zu", got.size(), want.size()); if (!m.n.empty()) REQUIRE(g.is_single_connected_component() == (want.size() <= 1), "single component: %d, but there are %zu", (int)g.is_single_connected_component(), want.size());
    std::vector<I> start; for (auto &[i, x] : m.n) if (x.connecting && c.boolean()) start.push_back(i);
    if (!start.empty()) { std::vector<std::pair<ES, ES>> r; ES a, b; g.reach(start.begin(), start.end(), [&](entt::entity e) { a.insert(e); }, [&](entt::entity e) { b.insert(e); }, [](I) { return true; }, [&] { r.push_back({a, b}); a.clear(); b.clear(); }); std::sort(r.begin(), r.end()); std::vector<std::pair<ES, ES>> w; for (auto &x : want) { bool in = false; for (auto i : start) in |= x.first.count(m.n.at(i).e) > 0; if (in) w.push_back(x); } REQUIRE(r == w, "%zu components reached from %zu nodes, expected %zu", r.size(), start.size(), w.size());
        I s = start[c.draw(start.size())]; std::multiset<I> tn, te; g.traverse(s, [&](I i) { tn.insert(i); }, [&](I k) { te.insert(k); }); ES tne, tee; for (auto i : tn) tne.insert(m.n.at(i).e); for (auto k : te) tee.insert(m.e.at(k).e); for (auto &x : want) if (x.first.count(m.n.at(s).e)) { REQUIRE(tne == x.first, "traversed %zu nodes, expected %zu", tne.size(), x.first.size()); REQUIRE(tee == x.second, "traversed %zu edges, expected %zu", tee.size(), x.second.size()); } std::multiset<I> tn2; g.traverse(s, [&](I i) { tn2.insert(i); }); REQUIRE(tn2 == tn, "nodes traversed without edges differ"); }
}
static void history(Case &c, size_t maxops, size_t maxnodes) {
    G g; Model m; uint32_t next = 0; auto ent = [&] { return entt::entity{next++}; }; size_t ops = c.size(1, maxops); int removed = 0, parallel = 0, self = 0, cleared = 0; auto anyn = [&] { auto it = m.n.begin(); std::advance(it, (long)c.draw(m.n.size())); return it->first; }; auto anye = [&] { auto it = m.e.begin(); std::advance(it, (long)c.draw(m.e.size())); return it->first; };
    for (size_t o = 0; o < ops; ++o) {
        int k = (int)c.draw(20);
        if (m.n.empty() || (k < 6 && m.n.size() < maxnodes)) { bool nc = c.chance(1, 4); auto e = ent(); I i = g.insert_node(e, nc); c.note("node %zu%s", i, nc ? " non-connecting" : ""); REQUIRE(!m.n.count(i), "node %zu is already in use", i); m.n[i] = {e, !nc}; }
        else if (k < 13) { I a = anyn(), b = anyn(); if (a == b && !c.chance(1, 4)) { b = anyn(); } auto e = ent(); for (auto &[q, z] : m.e) if ((z.a == a && z.b == b) || (z.a == b && z.b == a)) ++parallel; if (a == b) ++self; I i = g.insert_edge(e, a, b); c.note("edge %zu: %zu-%zu", i, a, b); REQUIRE(!m.e.count(i), "edge %zu is already in use", i); m.e[i] = {e, a, b}; }
        else if (k < 16 && !m.e.empty()) { I i = anye(); c.note("remove edge %zu", i); g.remove_edge(i); m.e.erase(i); ++removed; }
        else if (k == 16) { I i = anyn(); c.note("remove all edges of %zu", i); if (c.boolean()) g.remove_all_edges(i); else { c.note("one by one while visiting"); g.visit_edges(i, [&](I x) { g.remove_edge(x); }); } for (auto it = m.e.begin(); it != m.e.end();) if (it->second.a == i || it->second.b == i) { it = m.e.erase(it); ++removed; } else ++it; if (c.boolean()) { c.note("remove node %zu", i); g.remove_node(i); m.n.erase(i); } }
        else if (k == 17) { I i = anyn(); bool f = c.boolean(); c.note("connecting %zu %d", i, (int)f); g.set_connecting_node(i, f); m.n[i].connecting = f; }
        else if (k == 18 && c.chance(1, 4)) { c.note("clear"); g.clear(); m = {}; ++cleared; }
        else if (k == 19) g.optimize_if_needed();
        verify(c, g, m, c.chance(1, 4) || o + 1 == ops);
    }
    c.nontrivial(removed > 0 && parallel > 0); c.label_if(self > 0, "self edges"); c.label_if(parallel > 0, "parallel edges"); c.label_if(cleared > 0, "cleared"); c.label_if(m.n.size() > 16, "more than 16 nodes");
}
PBT(graph_history, 20000, 400000, "edges were removed and some were parallel") { history(c, 40, 8); }
PBT(graph_large, 600, 10000, "edges were removed and some were parallel") { history(c, 250, 60); }
