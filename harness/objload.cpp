// P14: loading Wavefront OBJ text. Oracle: the generated document itself.
#include "harness/common.hpp"
#include "edyn/util/shape_io.hpp"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace edyn; using pbt::Case;
using orc::R; using orc::V; using orc::tov; using orc::near; using orc::EPS;

struct Obj { std::string name; std::vector<vector3> v, col; std::vector<std::vector<uint32_t>> f; /* local, zero based */ };
struct Doc { std::vector<Obj> objs; std::string text; };

static std::string num(Case &c, scalar x) { char b[64]; switch (c.draw(3)) { case 0: snprintf(b, sizeof b, "%.17g", (double)x); break; case 1: snprintf(b, sizeof b, "%.17e", (double)x); break; default: snprintf(b, sizeof b, "%.25f", (double)x); } return b; }
static scalar coord(Case &c) { return c.chance(1, 4) ? (scalar)c.integer(0, 10) - 5 : gen::s(c, 100); }

static Doc document(Case &c, bool faces_ordered) {
    Doc d; std::string &t = d.text; size_t no = c.size(1, 4), base = 0; bool crlf = c.chance(1, 4); const char *nl = crlf ? "\r\n" : "\n"; bool lead = c.boolean(); // lead: first object has no "o" line
    auto junk = [&] { static const char *J[] = {"# a comment", "", "s off", "vn 0.0 1.0 0.0", "vt 0.5 0.5", "g group 1", "usemtl Material.001", "mtllib x.mtl", "s", "l 1 2", "vp 0.1 0.2", "of 1 2 3", "fo 9 9 9", "vv 1 2 3", "# v 1 2 3", "#f 1 2 3"}; while (c.chance(1, 3)) { t += J[c.draw(sizeof J / sizeof *J)]; t += nl; } };
    junk();
    for (size_t o = 0; o < no; ++o) {
        Obj x; if (!(o == 0 && lead)) { static const char *N[] = {"Cube", "Cube.001", "a", "two words", "v", "f 1 2 3", "name/with/slash"}; x.name = N[c.draw(7)]; if (c.boolean()) x.name += std::to_string(o); t += "o " + x.name + nl; } junk();
        size_t nv = c.size(o == 0 && c.chance(1, 8) ? 1 : 3, c.chance(1, 30) ? 300 : 12), colored = c.chance(1, 3); bool interleave = c.chance(1, 4);
        auto vert = [&] { vector3 p{coord(c), coord(c), coord(c)}; t += c.chance(1, 6) ? "v  " : "v "; const char *sep = c.chance(1, 6) ? "  " : " "; t += num(c, p.x) + sep + num(c, p.y) + sep + num(c, p.z); x.v.push_back(p); if (colored) { vector3 k{(scalar)c.unit(), (scalar)c.unit(), (scalar)c.unit()}; t += sep + num(c, k.x) + sep + num(c, k.y) + sep + num(c, k.z); x.col.push_back(k); } if (c.chance(1, 8)) t += " "; t += nl; };
        auto face = [&] { size_t k = c.size(3, c.chance(1, 10) ? 12 : 5); std::vector<uint32_t> f; t += "f"; int style = (int)c.draw(4); for (size_t i = 0; i < k; ++i) { uint32_t l = (uint32_t)c.draw(x.v.size()); f.push_back(l); std::string s = std::to_string(base + l + 1); size_t a = c.draw(400) + 1, b = c.draw(400) + 1; if (style == 1) s += "/" + std::to_string(a); if (style == 2) s += "//" + std::to_string(b); if (style == 3) s += "/" + std::to_string(a) + "/" + std::to_string(b); t += " " + s; } if (c.chance(1, 8)) t += " "; t += nl; x.f.push_back(f); };
        size_t nf = c.size(0, 10); for (size_t i = 0; i < nv; ++i) { vert(); if (interleave && x.f.size() < nf && c.chance(1, 3)) face(); if (c.chance(1, 10)) junk(); } junk(); while (x.f.size() < nf) { face(); if (c.chance(1, 6)) junk(); }
        base += x.v.size(); d.objs.push_back(x);
    }
    if (c.boolean() && !t.empty()) { while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); } // no newline at the end
    return d;
}

static V place(vector3 p, vector3 pos, quaternion q, vector3 sc) { V v{(R)p.x * sc.x, (R)p.y * sc.y, (R)p.z * sc.z}; return orc::rot(orc::toq(q), v) + tov(pos); }
struct Xf { vector3 pos{vector3_zero}; quaternion orn{quaternion_identity}; vector3 sc{vector3_one}; };
static Xf xform(Case &c) { Xf x; if (c.boolean()) x.pos = gen::vec(c, 10); if (c.boolean()) x.orn = gen::orient(c); if (c.boolean()) { scalar u = gen::pos(c, 0.1, 4); x.sc = c.boolean() ? vector3{u, u, u} : vector3{gen::pos(c, 0.1, 4), gen::pos(c, 0.1, 4), gen::pos(c, 0.1, 4)}; if (c.chance(1, 3)) { if (c.boolean()) x.sc = vector3_one; for (int i = 0; i < 3; ++i) if (c.boolean()) x.sc[i] = -x.sc[i]; } } return x; }
static std::string strip_cr(std::string s) { while (!s.empty() && s.back() == '\r') s.pop_back(); return s; }

struct TempFile { std::string path; TempFile(const std::string &t) { char b[] = "/tmp/pbt_obj_XXXXXX"; int fd = mkstemp(b); path = b; if (fd >= 0) { (void)!write(fd, t.data(), t.size()); close(fd); } } ~TempFile() { unlink(path.c_str()); } };

PBT(meshes, 20000, 400000, "two or more objects with faces and a transform") {
    auto d = document(c, true); auto x = xform(c); c.note("objects=%zu text=%zu bytes pos=" VF " scale=" VF " first lines: %.160s", d.objs.size(), d.text.size(), VA(x.pos), VA(x.sc), d.text.c_str()); std::vector<obj_mesh> got; if (c.chance(1, 10)) { TempFile f(d.text); REQUIRE(load_meshes_from_obj(f.path, got, x.pos, x.orn, x.sc), "file not loaded"); c.label("file"); } else { std::stringstream ss(d.text); load_meshes_from_obj(ss, got, x.pos, x.orn, x.sc); }
    size_t nf = 0; for (auto &o : d.objs) nf += !o.f.empty(); c.nontrivial(d.objs.size() > 1 && nf > 1 && !(x.pos == vector3_zero)); REQUIRE(got.size() == d.objs.size(), "%zu meshes of %zu", got.size(), d.objs.size());
    for (size_t o = 0; o < got.size(); ++o) { auto &g = got[o]; auto &w = d.objs[o]; REQUIRE(strip_cr(g.name) == w.name, "name of mesh %zu is '%s', want '%s'", o, g.name.c_str(), w.name.c_str()); REQUIRE(g.vertices.size() == w.v.size(), "mesh %zu has %zu vertices of %zu", o, g.vertices.size(), w.v.size()); for (size_t i = 0; i < w.v.size(); ++i) { V p = place(w.v[i], x.pos, x.orn, x.sc); R mag = orc::len(tov(w.v[i])) * 4 + orc::len(tov(x.pos)) + 1; REQUIRE(near(g.vertices[i], p, mag), "vertex %zu of mesh %zu is " VF ", want " VF, i, o, VA(g.vertices[i]), VA(p)); }
        REQUIRE(g.colors.size() == w.col.size(), "mesh %zu has %zu colors of %zu", o, g.colors.size(), w.col.size()); for (size_t i = 0; i < w.col.size(); ++i) REQUIRE(near(g.colors[i], tov(w.col[i]), 1, 4), "color"); REQUIRE(g.faces.size() == w.f.size() * 2, "mesh %zu has %zu faces of %zu", o, g.faces.size() / 2, w.f.size()); size_t at = 0; for (size_t i = 0; i < w.f.size(); ++i) { REQUIRE(g.faces[i * 2] == at && g.faces[i * 2 + 1] == w.f[i].size(), "face %zu starts at %u with %u", i, g.faces[i * 2], g.faces[i * 2 + 1]); for (size_t k = 0; k < w.f[i].size(); ++k) { REQUIRE(at < g.indices.size()); REQUIRE(g.indices[at] == w.f[i][k], "index %zu of face %zu of mesh %zu is %u, want %u", k, i, o, g.indices[at], w.f[i][k]); ++at; } } REQUIRE(at == g.indices.size(), "extra indices"); }
}

PBT(triangles, 20000, 400000, "a face with more than three vertices, or several objects") {
    auto d = document(c, true); auto x = xform(c); c.note("objects=%zu text=%zu bytes first lines: %.160s", d.objs.size(), d.text.size(), d.text.c_str()); std::vector<vector3> v, col; std::vector<uint32_t> idx; bool wc = c.chance(3, 4); if (c.chance(1, 10)) { TempFile f(d.text); REQUIRE(load_tri_mesh_from_obj(f.path, v, idx, wc ? &col : nullptr, x.pos, x.orn, x.sc)); c.label("file"); } else { std::stringstream ss(d.text); load_tri_mesh_from_obj(ss, v, idx, wc ? &col : nullptr, x.pos, x.orn, x.sc); }
    std::vector<V> wv; std::vector<vector3> wcol; std::vector<uint32_t> wi; bool poly = false; for (auto &o : d.objs) { uint32_t b = (uint32_t)wv.size(); for (auto &p : o.v) wv.push_back(place(p, x.pos, x.orn, x.sc)); for (auto &k : o.col) wcol.push_back(k); for (auto &f : o.f) { poly |= f.size() > 3; for (size_t k = 1; k + 1 < f.size(); ++k) { wi.push_back(b + f[0]); wi.push_back(b + f[k]); wi.push_back(b + f[k + 1]); } } } c.nontrivial(poly || d.objs.size() > 1);
    REQUIRE(v.size() == wv.size(), "%zu vertices of %zu", v.size(), wv.size()); for (size_t i = 0; i < v.size(); ++i) REQUIRE(near(v[i], wv[i], 800 + orc::len(wv[i])), "vertex %zu", i); REQUIRE(idx == wi, "triangle indices differ"); if (wc) { REQUIRE(col.size() == wcol.size(), "colors"); for (size_t i = 0; i < col.size(); ++i) REQUIRE(near(col[i], tov(wcol[i]), 1, 4), "color %zu", i); }
}

PBT(missing_file, 200, 2000, "every case") { std::vector<obj_mesh> m; std::vector<vector3> v; std::vector<uint32_t> i; c.nontrivial(); std::string p = "/nonexistent_dir_" + std::to_string(c.draw(1000)) + "/x.obj"; REQUIRE(!load_meshes_from_obj(p, m) && m.empty()); REQUIRE(!load_tri_mesh_from_obj(p, v, i) && v.empty() && i.empty()); }
