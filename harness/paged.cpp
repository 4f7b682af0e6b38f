// P37: paged triangle meshes. Oracle: the same triangles in one ordinary list, and a model of the page cache.
#include "harness/meshgen.hpp"
#include "harness/cvx.hpp"
#include <map>
#include <set>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include "edyn/collision/collide.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/shapes/create_paged_triangle_mesh.hpp"
#include "edyn/serialization/paged_triangle_mesh_s11n.hpp"
#include "edyn/parallel/message_dispatcher.hpp"
#include "edyn/util/paged_mesh_load_reporting.hpp"
#include "edyn/parallel/message.hpp"
using namespace edyn; using pbt::Case; using orc::R; using orc::V; using orc::tov; using orc::EPS;
using Key = std::array<scalar, 9>;
static Key key(const triangle_vertices &t) { Key k; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) k[i * 3 + j] = t[i][j]; return k; }
static bool degenerate(const gen::TriMesh &m) { for (size_t t = 0; t < m.idx.size() / 3; ++t) { V a = tov(m.v[m.idx[t * 3]]), b = tov(m.v[m.idx[t * 3 + 1]]), d = tov(m.v[m.idx[t * 3 + 2]]); R l = std::max(orc::len(b - a), std::max(orc::len(d - b), orc::len(a - d))); if (orc::len(gen::tri_area2(m, t)) < 0.02L * l * l) return true; } return false; }
static void wait_tasks(task_delegate_t task, unsigned size) { std::vector<std::thread> th; unsigned n = std::max(1u, std::min(size, 4u)); for (unsigned i = 0; i < n; ++i) th.emplace_back([=] { auto t = task; t(size * i / n, size * (i + 1) / n); }); for (auto &t : th) t.join(); }
struct Mesh {
    gen::TriMesh m; std::map<Key, size_t> ids; std::vector<vector3> col; vector3 sc{1, 1, 1}; std::shared_ptr<triangle_mesh> whole; size_t nt = 0, limit = 1;
    explicit Mesh(Case &c, size_t side = 6) {
        m = gen::trimesh(c, side); if (degenerate(m) || m.v.size() > 3000) c.discard(); nt = m.idx.size() / 3; whole = std::make_shared<triangle_mesh>(); gen::fill(*whole, m); whole->initialize();
        std::map<std::pair<uint32_t, uint32_t>, int> e; for (size_t t = 0; t < nt; ++t) for (int i = 0; i < 3; ++i) { auto a = m.idx[t * 3 + i], b = m.idx[t * 3 + (i + 1) % 3]; if (++e[{std::min(a, b), std::max(a, b)}] > 2) c.discard(); }
        for (size_t t = 0; t < nt; ++t) if (!ids.emplace(key(whole->get_triangle_vertices(t)), t).second) c.discard();
        if (c.boolean()) { for (size_t i = 0; i < m.v.size(); ++i) col.push_back({(scalar)c.unit(), (scalar)c.unit(), (scalar)c.draw(256) / 255}); sc = {gen::pos(c, 0.2, 3), gen::pos(c, 0.2, 3), 1}; }
        limit = c.size(1, c.boolean() ? 4 : nt);
    }
    void create(paged_triangle_mesh &p, bool threads = false) const { create_paged_triangle_mesh(p, m.v.begin(), m.v.end(), m.idx.begin(), m.idx.end(), limit, col, sc, threads ? &wait_tasks : nullptr); }
    vector3 values(size_t v) const { return {col[v].x * sc.x, col[v].y * sc.y, std::round(col[v].z * 255)}; }
};
// A submesh equals the corresponding triangles of the whole mesh.
static void same(Case &c, const Mesh &w, const triangle_mesh &s, std::vector<size_t> *count = nullptr) {
    REQUIRE(s.num_triangles() > 0 && s.num_triangles() <= w.limit, "page of %zu triangles, at most %zu are wanted", s.num_triangles(), w.limit); std::set<std::array<scalar, 3>> used;
    REQUIRE(s.has_per_vertex_friction() == !w.col.empty() && s.has_per_vertex_restitution() == !w.col.empty() && s.has_per_vertex_material_id() == !w.col.empty(), "per vertex values of a page");
    for (size_t t = 0; t < s.num_triangles(); ++t) { auto tv = s.get_triangle_vertices(t); auto it = w.ids.find(key(tv)); REQUIRE(it != w.ids.end(), "triangle %zu of a page is none of the mesh", t); size_t g = it->second; if (count) ++(*count)[g];
        REQUIRE(s.get_triangle_normal(t) == w.whole->get_triangle_normal(g), "normal of triangle %zu", g);
        for (int i = 0; i < 3; ++i) { REQUIRE(s.get_adjacent_face_normal(t, i) == w.whole->get_adjacent_face_normal(g, i), "normal across edge %d of triangle %zu", i, g); auto e = s.get_face_edge_index(t, i), ge = w.whole->get_face_edge_index(g, i); REQUIRE(e < s.num_edges()); auto ev = s.get_edge_vertices(e); vector3 a = tv[i], b = tv[(i + 1) % 3]; REQUIRE((ev[0] == a && ev[1] == b) || (ev[0] == b && ev[1] == a), "edge %d of triangle %zu", i, g); REQUIRE(s.is_convex_edge(e) == w.whole->is_convex_edge(ge), "edge %d of triangle %zu is convex=%d in the page", i, g, (int)s.is_convex_edge(e));
            auto vi = s.get_face_vertex_index(t, i); REQUIRE(vi < s.num_vertices() && s.get_vertex_position(vi) == a); used.insert({a.x, a.y, a.z}); if (!w.col.empty()) { auto val = w.values(w.m.idx[g * 3 + i]); REQUIRE(orc::near(s.get_vertex_friction(vi), (R)val.x, 4, 4) && orc::near(s.get_vertex_restitution(vi), (R)val.y, 4, 4) && (scalar)s.get_vertex_material_id(vi) == val.z, "values of a vertex are %g %g %d, want %g %g %g", (double)s.get_vertex_friction(vi), (double)s.get_vertex_restitution(vi), (int)s.get_vertex_material_id(vi), (double)val.x, (double)val.y, (double)val.z); } } }
    size_t all = 0; auto box = s.get_aabb(); s.visit_triangles(box, [&](auto) { ++all; }); REQUIRE(all == s.num_triangles(), "query of a page finds %zu of %zu", all, s.num_triangles()); (void)used;
}
static bool overlap(const AABB &a, const AABB &b) { for (int k = 0; k < 3; ++k) if (a.max[k] < b.min[k] || b.max[k] < a.min[k]) return false; return true; }
static AABB tri_box(const triangle_vertices &t) { AABB b{t[0], t[0]}; for (int i = 1; i < 3; ++i) { b.min = min(b.min, t[i]); b.max = max(b.max, t[i]); } return b; }
static AABB query(Case &c, const Mesh &w) { size_t t = c.draw(w.nt); V ctr = tov(w.m.v[w.m.idx[t * 3]]); V h{(R)c.uniform(0, 2), (R)c.uniform(0, 2), (R)c.uniform(0, 2)}; if (c.chance(1, 5)) h = h * 10; return {orc::toe(ctr - h), orc::toe(ctr + h)}; }
struct Keep : triangle_mesh_page_loader_base { std::vector<std::shared_ptr<triangle_mesh>> org; std::vector<size_t> loads, pending; bool defer = false; std::function<void(size_t)> on; // pages come from memory
    void load(paged_triangle_mesh *p, size_t i) override { loads.push_back(i); if (on) on(i); if (defer) pending.push_back(i); else p->assign_mesh(i, std::make_shared<triangle_mesh>(*org.at(i))); } };

PBT(pages, 6000, 120000, "several pages, one with several triangles") {
    Mesh w(c); auto ld = std::make_shared<Keep>(); paged_triangle_mesh p(ld); bool th = c.chance(1, 4); w.create(p, th); c.label_if(th, "threads"); c.note("triangles=%zu vertices=%zu per page=%zu colors=%d v0=" VF, w.nt, w.m.v.size(), w.limit, (int)!w.col.empty(), VA(w.m.v[0])); c.nontrivial(p.num_submeshes() > 1 && p.num_submeshes() < w.nt);
    std::vector<size_t> count(w.nt); size_t nv = 0; for (size_t i = 0; i < p.num_submeshes(); ++i) { auto s = p.get_submesh(i); REQUIRE((bool)s, "page %zu is missing", i); same(c, w, *s, &count); nv += s->num_vertices(); for (size_t t = 0; t < s->num_triangles(); ++t) REQUIRE(key(p.get_triangle_vertices(i, t)) == key(s->get_triangle_vertices(t))); } for (size_t t = 0; t < w.nt; ++t) REQUIRE(count[t] == 1, "triangle %zu is in %zu pages", t, count[t]); REQUIRE(p.cache_num_vertices() == nv, "%zu vertices in the cache, want %zu", p.cache_num_vertices(), nv);
    auto bb = p.get_aabb(), wb = w.whole->get_aabb(); REQUIRE(bb.min == wb.min && bb.max == wb.max, "bounds"); REQUIRE(p.has_per_vertex_friction() == !w.col.empty() && p.has_per_vertex_restitution() == !w.col.empty() && p.has_per_vertex_material_id() == !w.col.empty());
    auto q = query(c, w); for (int how = 0; how < 2; ++how) { std::map<size_t, int> got; auto f = [&](size_t mi, size_t ti) { auto it = w.ids.find(key(p.get_triangle_vertices(mi, ti))); if (it != w.ids.end()) ++got[it->second]; }; if (how) p.visit_cached_triangles(q, f); else p.visit_triangles(q, f); for (size_t t = 0; t < w.nt; ++t) { bool ov = overlap(q, tri_box(w.whole->get_triangle_vertices(t))); int n = got.count(t) ? got[t] : 0; REQUIRE(n == (ov ? 1 : 0), "triangle %zu overlaps=%d visited %d times", t, (int)ov, n); } }
    size_t ne = 0, n2 = 0, want_e = 0; p.visit_all_cached_triangles([&](size_t, size_t) { ++n2; }); REQUIRE(n2 == w.nt); p.visit_all_cached_edges([&](size_t mi, size_t e) { REQUIRE(e < p.get_submesh(mi)->num_edges()); ++ne; }); for (size_t i = 0; i < p.num_submeshes(); ++i) want_e += p.get_submesh(i)->num_edges(); REQUIRE(ne == want_e);
    REQUIRE(ld->loads.empty(), "a page was loaded though all are present");
}

PBT(cache, 5000, 100000, "a page was dropped and loaded again") {
    Mesh w(c); auto ld = std::make_shared<Keep>(); paged_triangle_mesh p(ld); w.create(p); size_t n = p.num_submeshes(), big = 0; std::vector<AABB> box(n); std::vector<size_t> nv(n); for (size_t i = 0; i < n; ++i) { auto s = p.get_submesh(i); ld->org.push_back(std::make_shared<triangle_mesh>(*s)); nv[i] = s->num_vertices(); big = std::max(big, nv[i]); box[i] = s->get_aabb(); } size_t tot = 0; for (auto x : nv) tot += x;
    p.m_max_cache_num_vertices = c.chance(1, 4) ? 1 << 13 : big + 1 + c.draw(tot); ld->defer = c.chance(1, 4); c.label_if(ld->defer, "pages arrive later"); auto queue = message_dispatcher::global().make_queue<msg::paged_triangle_mesh_load_page>(internal::paged_mesh_load_queue_identifier); struct Count { std::map<size_t, int> n; paged_triangle_mesh *p; void on(message<msg::paged_triangle_mesh_load_page> &m) { if (m.content.trimesh == p) ++n[m.content.mesh_index]; } } seen; seen.p = &p; queue.sink<msg::paged_triangle_mesh_load_page>().connect<&Count::on>(seen);
    std::vector<long> ts(n, 0); std::vector<char> in(n, 1); long now = 0; std::map<size_t, int> changes; scalar thick = p.get_thickness(); bool exact = true; AABB cur; bool reload = false; std::set<size_t> ever;
    ld->on = [&](size_t i) { // pages dropped for this one must be the least recently visited, and only as many as needed
        if (in[i]) c.fail("page %zu is present but loaded again", i); size_t left = 0; std::vector<size_t> out; for (size_t k = 0; k < n; ++k) { bool has = (bool)p.get_submesh(k); if (in[k] && !has) { out.push_back(k); in[k] = 0; ++changes[k]; } if (has) left += nv[k]; }
        if (!ld->defer) REQUIRE(left + nv[i] <= p.m_max_cache_num_vertices, "%zu vertices are present with the limit %zu", left + nv[i], p.m_max_cache_num_vertices); for (auto e : out) for (size_t k = 0; k < n; ++k) if (!ld->defer && in[k] && (exact || !overlap(cur, box[k]))) REQUIRE(ts[e] <= ts[k], "page %zu visited at %ld was dropped, page %zu visited at %ld was kept", e, ts[e], k, ts[k]);
        if (!out.empty() && !ld->defer && exact) { long mt = -1; size_t ms = 0; for (auto e : out) { if (ts[e] > mt) { mt = ts[e]; ms = 0; } if (ts[e] == mt) ms = std::max(ms, nv[e]); } REQUIRE(left + ms + nv[i] > p.m_max_cache_num_vertices, "a page was dropped without need"); }
        if (ld->defer) for (auto x : ld->pending) REQUIRE(x != i, "page %zu is requested twice", i); else { in[i] = 1; ++changes[i]; } reload |= ever.count(i) != 0; ever.insert(i); };
    size_t ops = c.size(1, 25); c.note("triangles=%zu pages=%zu limit=%zu of %zu vertices, %zu operations", w.nt, n, p.m_max_cache_num_vertices, tot, ops); auto flush = [&] { for (auto i : ld->pending) { in[i] = 1; ++changes[i]; p.assign_mesh(i, std::make_shared<triangle_mesh>(*ld->org[i])); } ld->pending.clear(); };
    for (size_t o = 0; o < ops; ++o) { ++now; switch (c.draw(7)) {
        case 0: case 1: { cur = query(c, w); exact = true; std::map<size_t, int> got; auto before = in; p.visit_submeshes(cur, [&](size_t i) { ++got[i]; ts[i] = ++now; REQUIRE((bool)p.get_submesh(i)); }); for (size_t i = 0; i < n; ++i) { bool ov = overlap(cur, box[i]); int g = got.count(i) ? got[i] : 0; if (!ov || !ld->defer) REQUIRE(g == (ov ? 1 : 0), "page %zu overlaps=%d visited %d times", i, (int)ov, g); if (ov && ld->defer) REQUIRE(g <= 1); } break; }
        case 2: case 3: { cur = query(c, w); exact = false; std::map<size_t, int> got; p.visit_triangles(cur, [&](size_t mi, size_t ti) { auto s = p.get_submesh(mi); REQUIRE((bool)s); auto it = w.ids.find(key(s->get_triangle_vertices(ti))); REQUIRE(it != w.ids.end()); ++got[it->second]; }); for (size_t t = 0; t < w.nt; ++t) { bool ov = overlap(cur, tri_box(w.whole->get_triangle_vertices(t))); int g = got.count(t) ? got[t] : 0; if (!ov || !ld->defer) REQUIRE(g == (ov ? 1 : 0), "triangle %zu overlaps=%d visited %d times", t, (int)ov, g); } ++now; for (size_t i = 0; i < n; ++i) if (overlap(cur, box[i])) ts[i] = now; break; }
        case 4: { size_t tt = c.draw(w.nt); auto tv = w.whole->get_triangle_vertices(tt); V mid = (tov(tv[0]) + tov(tv[1]) + tov(tv[2])) / 3; V d = tov(gen::dir(c)) * 3; vector3 p0 = orc::toe(mid - d), p1 = orc::toe(mid + d); cur = {min(p0, p1) - vector3_one * 100, max(p0, p1) + vector3_one * 100}; exact = false; bool hit = false; p.raycast(p0, p1, [&](size_t mi, size_t ti) { hit |= p.get_submesh(mi) && key(p.get_submesh(mi)->get_triangle_vertices(ti)) == key(tv); }); if (!ld->defer) REQUIRE(hit, "a ray through triangle %zu misses it", tt); ++now; for (auto &x : ts) x = now; break; }
        case 5: { if (c.boolean()) { thick = gen::pos(c, 0.1, 5); p.set_thickness(thick); REQUIRE(p.get_thickness() == thick, "thickness is %g, %g was set", (double)p.get_thickness(), (double)thick); } else { p.clear_cache(); for (auto &x : in) x = 0; REQUIRE(p.cache_num_vertices() == 0); REQUIRE(!p.has_per_vertex_friction()); } break; }
        default: flush(); }
        queue.update(); size_t sum = 0; for (size_t i = 0; i < n; ++i) { auto s = p.get_submesh(i); if (in[i] && !s) { in[i] = 0; ++changes[i]; REQUIRE(ld->defer, "page %zu vanished", i); } REQUIRE(!s == !in[i], "page %zu present=%d", i, (int)!!s); if (s) { sum += nv[i]; REQUIRE(s->get_thickness() == thick, "page %zu has thickness %g, the mesh has %g", i, (double)s->get_thickness(), (double)thick); } REQUIRE((seen.n.count(i) ? seen.n[i] : 0) == (changes.count(i) ? changes[i] : 0), "page %zu changed %d times, %d reported", i, changes.count(i) ? changes[i] : 0, seen.n.count(i) ? seen.n[i] : 0); } REQUIRE(p.cache_num_vertices() == sum, "%zu vertices counted, %zu present", p.cache_num_vertices(), sum); }
    c.nontrivial(reload); for (size_t i = 0; i < n; ++i) if (auto s = p.get_submesh(i)) same(c, w, *s);
}

static std::mutex g_mx; static std::vector<std::thread> g_threads;
static void later(task_delegate_t task, unsigned size, task_completion_delegate_t done) { std::lock_guard<std::mutex> l(g_mx); g_threads.emplace_back([=] { auto t = task; t(0, size); auto d = done; if (d) d(); }); }
static void join_all() { std::vector<std::thread> t; { std::lock_guard<std::mutex> l(g_mx); t.swap(g_threads); } for (auto &x : t) x.join(); }
struct Dir { std::string path; Dir() { char b[] = "/tmp/pbt_paged_XXXXXX"; path = mkdtemp(b) ? b : "/tmp"; } ~Dir() { if (path.rfind("/tmp/pbt_paged_", 0) == 0) { std::string cmd = "rm -rf '" + path + "'"; (void)!system(cmd.c_str()); } } };
PBT(files, 400, 8000, "several pages") {
    Mesh w(c, 5); Dir dir; static const char *names[] = {"mesh.bin", "mesh", "a.b/mesh", "a.b/mesh.x", "m.e.sh", "./mesh", "d/mesh"}; std::string name = names[c.draw(7)]; std::string path = dir.path + "/" + name; mkdir((dir.path + "/a.b").c_str(), 0700); mkdir((dir.path + "/d").c_str(), 0700); auto mode = c.boolean() ? paged_triangle_mesh_serialization_mode::embedded : paged_triangle_mesh_serialization_mode::external; bool em = mode == paged_triangle_mesh_serialization_mode::embedded, th = c.boolean(); scalar thick; size_t n; std::vector<std::vector<Key>> tris; AABB bb;
    { paged_triangle_mesh p(nullptr); w.create(p); n = p.num_submeshes(); if (c.boolean()) p.set_thickness(gen::pos(c, 0.1, 5)); thick = p.get_thickness(); bb = p.get_aabb(); for (size_t i = 0; i < n; ++i) { auto s = p.get_submesh(i); tris.emplace_back(); for (size_t t = 0; t < s->num_triangles(); ++t) tris.back().push_back(key(s->get_triangle_vertices(t))); } paged_triangle_mesh_file_output_archive out(path, mode); REQUIRE(out.get_serialization_mode() == mode); serialize(out, p); out.close(); }
    c.note("triangles=%zu pages=%zu %s threads=%d name=%s", w.nt, n, em ? "embedded" : "external", (int)th, name.c_str()); c.nontrivial(n > 1); c.label(em ? "one file" : "a file per page"); c.label_if(th, "background"); if (!em) { std::set<std::string> ps; for (size_t i = 0; i < n; ++i) { auto sp = get_submesh_path(path, i); REQUIRE(ps.insert(sp).second); REQUIRE(access(sp.c_str(), R_OK) == 0, "the file %s of page %zu was not written", sp.c_str(), i); } }
    auto in = std::make_shared<paged_triangle_mesh_file_input_archive>(path, th ? &later : nullptr); REQUIRE(in->is_file_open()); paged_triangle_mesh r(in); serialize(*in, r); REQUIRE(r.num_submeshes() == n, "%zu pages of %zu", r.num_submeshes(), n); REQUIRE(r.get_thickness() == thick, "thickness %g, want %g", (double)r.get_thickness(), (double)thick); REQUIRE(r.get_aabb().min == bb.min && r.get_aabb().max == bb.max, "bounds"); for (size_t i = 0; i < n; ++i) REQUIRE(!r.get_submesh(i));
    size_t rounds = c.size(1, 3); for (size_t k = 0; k < rounds; ++k) { if (k) r.clear_cache(); size_t got = 0; r.visit_submeshes(bb, [&](size_t) { ++got; }); join_all(); if (th) { got = 0; r.visit_submeshes(bb, [&](size_t) { ++got; }); join_all(); } REQUIRE(got == n, "%zu pages visited of %zu", got, n); std::vector<size_t> count(w.nt); for (size_t i = 0; i < n; ++i) { auto s = r.get_submesh(i); REQUIRE((bool)s, "page %zu was not loaded", i); REQUIRE(s->num_triangles() == tris[i].size(), "page %zu has %zu triangles, want %zu", i, s->num_triangles(), tris[i].size()); for (size_t t = 0; t < tris[i].size(); ++t) REQUIRE(key(s->get_triangle_vertices(t)) == tris[i][t], "triangle %zu of page %zu", t, i); same(c, w, *s, &count); REQUIRE(s->get_thickness() == thick, "thickness of a page"); } for (auto x : count) REQUIRE(x == 1); }
}

static V closest_on(V p, V a, V b, V d) { using namespace orc; V n = cross(b - a, d - a); R nn = dot(n, n); V q = p - n * (dot(p - a, n) / nn); V t[3] = {a, b, d}; bool inside = true; V best{}; R bd = 1e30L; for (int i = 0; i < 3; ++i) { V e0 = t[i], e = t[(i + 1) % 3] - e0; if (dot(cross(e, q - e0), n) < 0) inside = false; R s = std::max<R>(0, std::min<R>(1, dot(p - e0, e) / dot(e, e))); V x = e0 + e * s; R l = dist(p, x); if (l < bd) { bd = l; best = x; } } return inside ? q : best; }
PBT(surface_values, 8000, 160000, "values differ among the vertices") {
    Mesh w(c); if (w.col.empty()) c.discard(); paged_triangle_mesh p(nullptr); w.create(p); size_t t = c.draw(w.nt); auto tv = w.whole->get_triangle_vertices(t); R u = c.unit(), v = c.unit() * (1 - u); V pt = tov(tv[0]) * (1 - u - v) + tov(tv[1]) * u + tov(tv[2]) * v; vector3 P = orc::toe(pt); R mag = 1; for (auto &x : w.m.v) mag = std::max(mag, orc::len(tov(x))); c.note("triangle %zu of %zu at %Lg %Lg point " VF, t, w.nt, u, v, VA(P)); c.nontrivial();
    scalar fr = p.get_friction(P), re = p.get_restitution(P); auto mi = p.get_material_id(P); bool ok = false, idok = false; R bf = 0, br = 0; R tol = 0;
    for (size_t k = 0; k < w.nt; ++k) { auto kv = w.whole->get_triangle_vertices(k); V x = closest_on(pt, tov(kv[0]), tov(kv[1]), tov(kv[2])); if (orc::dist(x, pt) > 1e-4L * mag) continue; V n = gen::tri_area2(w.m, k); R A = orc::dot(n, n), b[3]; for (int i = 0; i < 3; ++i) b[i] = orc::dot(orc::cross(tov(kv[(i + 2) % 3]) - tov(kv[(i + 1) % 3]), x - tov(kv[(i + 1) % 3])), n) / A; R f = 0, r = 0; for (int i = 0; i < 3; ++i) { auto val = w.values(w.m.idx[k * 3 + i]); f += b[i] * val.x; r += b[i] * val.y; } tol = 0.01L + 512 * EPS * mag * mag / std::sqrt(A) * (1 + mag); if (k == t) { bf = f; br = r; } ok |= std::abs(fr - f) <= tol && std::abs(re - r) <= tol; bool im = true; for (int i = 0; i < 3; ++i) im &= (scalar)mi[i].id == w.values(w.m.idx[k * 3 + i]).z && std::abs(mi[i].fraction - b[i]) <= tol; idok |= im; }
    REQUIRE(ok, "friction and restitution are %g %g, the triangle has %Lg %Lg there", (double)fr, (double)re, bf, br); REQUIRE(idok, "material ids %d %d %d with %g %g %g do not belong to the triangle", (int)mi[0].id, (int)mi[1].id, (int)mi[2].id, (double)mi[0].fraction, (double)mi[1].fraction, (double)mi[2].fraction);
}

// Feature of a contact as a set of points in space.
static std::set<std::array<scalar, 3>> feature(const triangle_mesh &m, const collision_feature &f) { std::set<std::array<scalar, 3>> s; auto add = [&](vector3 v) { s.insert({v.x, v.y, v.z}); }; auto tf = std::get<triangle_feature>(f.feature); if (tf == triangle_feature::face) { if (f.index < m.num_triangles()) for (auto &v : m.get_triangle_vertices(f.index)) add(v); } else if (tf == triangle_feature::edge) { if (f.index < m.num_edges()) for (auto &v : m.get_edge_vertices(f.index)) add(v); } else if (f.index < m.num_vertices()) add(m.get_vertex_position(f.index)); return s; }
// Distance of a point to the hull of the (up to three) contact points.
static R hull(const vector3 &x, const collision_result &r, bool A) { std::vector<V> p; for (size_t i = 0; i < r.num_points && i < 3; ++i) p.push_back(tov(A ? r.point[i].pivotA : r.point[i].pivotB)); if (p.empty()) return 1e30L; V q = tov(x); R d = 1e30L; for (auto &a : p) for (auto &b : p) { V e = b - a; R l = orc::dot(e, e), s = l > 0 ? std::max<R>(0, std::min<R>(1, orc::dot(q - a, e) / l)) : 0; d = std::min(d, orc::dist(q, a + e * s)); } if (p.size() == 3 && orc::len(orc::cross(p[1] - p[0], p[2] - p[0])) > 1e-6L) d = std::min(d, orc::dist(q, closest_on(q, p[0], p[1], p[2]))); return d; }
static void contacts(Case &c, int kind) {
    Mesh w(c, 5); paged_triangle_mesh one(nullptr); size_t lim = w.limit; w.limit = 1; w.create(one); w.limit = lim; auto ld = std::make_shared<Keep>(); auto pg = std::make_shared<paged_triangle_mesh>(ld); w.create(*pg); for (size_t i = 0; i < pg->num_submeshes(); ++i) ld->org.push_back(pg->get_submesh(i)); bool cold = c.chance(1, 3); if (cold) pg->clear_cache(); mesh_shape ms{w.whole}; paged_mesh_shape ps{pg};
    auto a = cvx::make(c, kind); size_t t = c.draw(w.nt); auto tv = w.whole->get_triangle_vertices(t); R u = c.unit(), v = c.unit() * (1 - u); V at = tov(tv[0]) * (1 - u - v) + tov(tv[1]) * u + tov(tv[2]) * v, n = orc::unit(gen::tri_area2(w.m, t)); a.place({0, 0, 0}, gen::orient(c)); cvx::D nd{(double)n.x, (double)n.y, (double)n.z}; double gap = c.boolean() ? c.uniform(-0.02, 0.02) : c.uniform(-0.3, 0.02); a.place(orc::toe(at + n * (R)(gap - a.lo(nd))), a.q);
    collision_context ctx; ctx.posA = a.p; ctx.ornA = a.q; ctx.posB = vector3_zero; ctx.ornB = quaternion_identity; ctx.threshold = (scalar)0.02; collision_result rm, rp; std::vector<std::pair<collision_result::collision_point, std::set<std::array<scalar, 3>>>> cand; c.note("%s at " VF " next to triangle %zu of %zu, %zu pages", a.desc.c_str(), VA(a.p), t, w.nt, pg->num_submeshes()); collision_result rs;
    a.with([&](auto &sh) { if constexpr (!std::is_same_v<std::decay_t<decltype(sh)>, plane_shape>) { ctx.aabbA = shape_aabb(sh, a.p, a.q); ctx.aabbB = w.whole->get_aabb(); collide(sh, ms, ctx, rm); collide(sh, ps, ctx, rp); collide(ps, sh, ctx.swapped(), rs); for (size_t i = 0; i < one.num_submeshes(); ++i) { collision_result r; collide(sh, *one.get_submesh(i), ctx, r); for (size_t k = 0; k < r.num_points; ++k) cand.push_back({r.point[k], feature(*one.get_submesh(i), *r.point[k].featureB)}); } } });
    c.nontrivial(!cand.empty() && pg->num_submeshes() > 1); c.label_if(cold, "not loaded before"); c.label(std::string("points ") + char('0' + std::min<size_t>(9, rm.num_points))); 
    for (int k = 0; k < 2; ++k) { auto &r = k ? rp : rm; REQUIRE(r.num_points <= max_contacts); for (size_t i = 0; i < r.num_points; ++i) { auto &p = r.point[i]; REQUIRE(p.featureB.has_value(), "contact without a feature of the mesh"); std::set<std::array<scalar, 3>> f; if (k) { REQUIRE(p.featureB->part < pg->num_submeshes(), "page %zu of %zu", p.featureB->part, pg->num_submeshes()); f = feature(*pg->get_submesh(p.featureB->part), *p.featureB); } else f = feature(*w.whole, *p.featureB); bool found = false; for (auto &q : cand) found |= distance(q.first.normal, p.normal) < 1e-4 && q.first.normal_attachment == p.normal_attachment && q.second == f; { cvx::D pa = a.toworld(cvx::tod(p.pivotA)); double pd = cvx::dot(pa - cvx::tod(p.pivotB), cvx::tod(p.normal)); REQUIRE(std::abs(pd - p.distance) < 0.02, "distance %g, the pivots are %g apart", (double)p.distance, pd); } REQUIRE(found, "contact %zu with the %s mesh (normal " VF " distance %g feature of %zu vertices) is none of any triangle", i, k ? "paged" : "whole", VA(p.normal), (double)p.distance, f.size()); }
        REQUIRE((r.num_points > 0) == !cand.empty(), "the %s mesh reports %zu contacts, its triangles %zu", k ? "paged" : "whole", r.num_points, cand.size()); if (cand.size() <= 2) for (auto &q : cand) { bool near = std::min(hull(q.first.pivotA, r, true), hull(q.first.pivotB, r, false)) < 3 * contact_merging_threshold + 0.03 * a.size; REQUIRE(near, "a contact of a triangle (pivot " VF ") is missing among the %zu of the %s mesh", VA(q.first.pivotB), r.num_points, k ? "paged" : "whole"); } }
    REQUIRE(rs.num_points == rp.num_points, "%zu contacts, %zu after exchanging the shapes", rp.num_points, rs.num_points); for (size_t i = 0; i < rs.num_points; ++i) REQUIRE(rs.point[i].pivotA == rp.point[i].pivotB && rs.point[i].pivotB == rp.point[i].pivotA && rs.point[i].normal == -rp.point[i].normal && rs.point[i].featureA && rs.point[i].featureA->part == rp.point[i].featureB->part && rs.point[i].featureA->index == rp.point[i].featureB->index, "contact %zu is not mirrored", i);
}
PBT(sphere_contacts, 3000, 60000, "a contact with a mesh of several pages") { contacts(c, cvx::SPHERE); }
PBT(capsule_contacts, 3000, 60000, "a contact with a mesh of several pages") { contacts(c, cvx::CAPSULE); }
PBT(cylinder_contacts, 3000, 60000, "a contact with a mesh of several pages") { contacts(c, cvx::CYLINDER); }
PBT(box_contacts, 3000, 60000, "a contact with a mesh of several pages") { contacts(c, cvx::BOX); }
PBT(polyhedron_contacts, 3000, 60000, "a contact with a mesh of several pages") { contacts(c, cvx::POLY); }

PBT(rays, 6000, 120000, "the segment crosses a triangle") {
    Mesh w(c); auto pg = std::make_shared<paged_triangle_mesh>(nullptr); w.create(*pg); mesh_shape ms{w.whole}; paged_mesh_shape ps{pg}; size_t tt = c.draw(w.nt); auto tv = w.whole->get_triangle_vertices(tt); R u = c.unit(), v = c.unit() * (1 - u); V at = tov(tv[0]) * (1 - u - v) + tov(tv[1]) * u + tov(tv[2]) * v; vector3 p0 = gen::vec(c, 6); vector3 p1 = orc::toe(tov(p0) + (at - tov(p0)) * (R)c.uniform(0.8, 2)); if (distance(p0, p1) < 0.1) c.discard(); raycast_context ctx; ctx.pos = vector3_zero; ctx.orn = quaternion_identity; ctx.p0 = p0; ctx.p1 = p1; c.note("ray " VF " to " VF ", %zu pages", VA(p0), VA(p1), pg->num_submeshes());
    auto a = shape_raycast(ms, ctx), b = shape_raycast(ps, ctx); bool hit = a.fraction < 1; c.nontrivial(hit); REQUIRE(a.fraction == b.fraction, "fraction %g, paged %g", (double)a.fraction, (double)b.fraction); if (a.fraction <= 1) { auto ia = std::get<mesh_raycast_info>(a.info_var); auto ib = std::get<paged_mesh_raycast_info>(b.info_var); auto ka = w.whole->get_triangle_vertices(ia.triangle_index); REQUIRE(ib.submesh_index < pg->num_submeshes()); auto sub = pg->get_submesh(ib.submesh_index); REQUIRE(ib.triangle_index < sub->num_triangles()); auto kb = sub->get_triangle_vertices(ib.triangle_index); auto gb = w.ids.find(key(kb)); REQUIRE(gb != w.ids.end()); if (key(ka) != key(kb)) { scalar t0 = 2; REQUIRE(intersect_segment_triangle(p0, p1, kb, sub->get_triangle_normal(ib.triangle_index), t0) && t0 == a.fraction, "the triangle reported is not the one hit"); } else REQUIRE(a.normal == b.normal); }
}
