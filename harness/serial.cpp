// P17/P18: serialization. Oracle: round trips through every kind of archive; malformed input must be contained.
#include "harness/meshgen.hpp"
#include <cstring>
#include <unistd.h>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include "edyn/math/coordinate_axis.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/file_archive.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/static_tree_s11n.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/roll_direction.hpp"
#include "edyn/comp/inertia.hpp"
#include "edyn/comp/mass.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/shape_index.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/collision/contact_normal_attachment.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/networking/packet/set_aabb_of_interest.hpp"
#include "edyn/networking/packet/time_request.hpp"
#include "edyn/networking/packet/time_response.hpp"
#include "edyn/networking/packet/set_playout_delay.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/sphere_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/plane_shape.hpp"
using namespace edyn; using pbt::Case; using Bytes = std::vector<uint8_t>;

// ---- arbitrary values and equality, per type
template<typename T> struct Arb;
template<typename T> T arb(Case &c) { T t{}; Arb<T>::make(c, t); return t; }
template<typename T> bool eq(const T &a, const T &b) { return Arb<T>::eq(a, b); }
template<typename T> struct ArbInt { static void make(Case &c, T &t) { uint64_t v = c.chance(1, 4) ? (c.boolean() ? ~0ull : 1ull << c.draw(64)) : c.chance(1, 2) ? c.draw(300) : ((uint64_t)c.draw(1u << 31) << 33 ^ (uint64_t)c.draw(1u << 31) << 8 ^ c.draw(256)); t = (T)v; } static bool eq(T a, T b) { return a == b; } };
template<> struct Arb<uint8_t> : ArbInt<uint8_t> {}; template<> struct Arb<char> : ArbInt<char> {}; template<> struct Arb<uint16_t> : ArbInt<uint16_t> {}; template<> struct Arb<uint32_t> : ArbInt<uint32_t> {}; template<> struct Arb<uint64_t> : ArbInt<uint64_t> {}; template<> struct Arb<int32_t> : ArbInt<int32_t> {}; template<> struct Arb<int64_t> : ArbInt<int64_t> {};
template<> struct Arb<bool> { static void make(Case &c, bool &t) { t = c.boolean(); } static bool eq(bool a, bool b) { return a == b; } };
template<typename T> struct ArbF { static void make(Case &c, T &t) { switch (c.draw(6)) { case 0: t = (T)c.integer(-3, 3); break; case 1: t = std::numeric_limits<T>::max(); break; case 2: t = c.boolean() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::denorm_min(); break; default: t = (T)c.real(1e6); } } static bool eq(T a, T b) { return a == b; } };
template<> struct Arb<float> : ArbF<float> {}; template<> struct Arb<double> : ArbF<double> {};
template<typename T> struct ArbV3 { static void make(Case &c, T &t) { t.x = arb<scalar>(c); t.y = arb<scalar>(c); t.z = arb<scalar>(c); } static bool eq(const T &a, const T &b) { return a.x == b.x && a.y == b.y && a.z == b.z; } };
template<> struct Arb<vector3> : ArbV3<vector3> {}; template<> struct Arb<position> : ArbV3<position> {}; template<> struct Arb<linvel> : ArbV3<linvel> {}; template<> struct Arb<angvel> : ArbV3<angvel> {}; template<> struct Arb<gravity> : ArbV3<gravity> {}; template<> struct Arb<center_of_mass> : ArbV3<center_of_mass> {}; template<> struct Arb<roll_direction> : ArbV3<roll_direction> {};
template<typename T> struct ArbQ { static void make(Case &c, T &t) { t.x = arb<scalar>(c); t.y = arb<scalar>(c); t.z = arb<scalar>(c); t.w = arb<scalar>(c); } static bool eq(const T &a, const T &b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; } };
template<> struct Arb<quaternion> : ArbQ<quaternion> {}; template<> struct Arb<orientation> : ArbQ<orientation> {};
template<typename T> struct ArbM { static void make(Case &c, T &t) { for (int i = 0; i < 3; ++i) t.row[i] = arb<vector3>(c); } static bool eq(const T &a, const T &b) { for (int i = 0; i < 3; ++i) if (!::eq(a.row[i], b.row[i])) return false; return true; } };
template<> struct Arb<matrix3x3> : ArbM<matrix3x3> {}; template<> struct Arb<inertia> : ArbM<inertia> {}; template<> struct Arb<inertia_inv> : ArbM<inertia_inv> {}; template<> struct Arb<inertia_world_inv> : ArbM<inertia_world_inv> {};
template<typename T> struct ArbS { static void make(Case &c, T &t) { t.s = arb<scalar>(c); } static bool eq(const T &a, const T &b) { return a.s == b.s; } };
template<> struct Arb<mass> : ArbS<mass> {}; template<> struct Arb<mass_inv> : ArbS<mass_inv> {};
#define FIELDS(T, MAKE, EQ) template<> struct Arb<T> { static void make(Case &c, T &t) { MAKE; } static bool eq(const T &a, const T &b) { return EQ; } }
#define AR(f) t.f = arb<std::decay_t<decltype(t.f)>>(c)
#define EQF(f) ::eq(a.f, b.f)
FIELDS(AABB, (AR(min), AR(max)), EQF(min) && EQF(max));
FIELDS(material, (AR(restitution), AR(friction), AR(spin_friction), AR(roll_friction), AR(stiffness), AR(damping), AR(id)), EQF(restitution) && EQF(friction) && EQF(spin_friction) && EQF(roll_friction) && EQF(stiffness) && EQF(damping) && EQF(id));
FIELDS(collision_filter, (AR(group), AR(mask)), EQF(group) && EQF(mask));
FIELDS(shape_index, AR(value), EQF(value));
FIELDS(coordinate_axis, t = (coordinate_axis)c.draw(3), a == b);
FIELDS(contact_normal_attachment, t = (contact_normal_attachment)c.draw(3), a == b);
FIELDS(box_shape, AR(half_extents), EQF(half_extents));
FIELDS(sphere_shape, AR(radius), EQF(radius));
FIELDS(capsule_shape, (AR(radius), AR(half_length), AR(axis)), EQF(radius) && EQF(half_length) && EQF(axis));
FIELDS(cylinder_shape, (AR(radius), AR(half_length), AR(axis)), EQF(radius) && EQF(half_length) && EQF(axis));
FIELDS(plane_shape, (AR(normal), AR(constant)), EQF(normal) && EQF(constant));
FIELDS(packet::set_aabb_of_interest, (AR(min), AR(max)), EQF(min) && EQF(max));
FIELDS(packet::time_request, AR(id), EQF(id));
FIELDS(packet::time_response, (AR(id), AR(timestamp)), EQF(id) && EQF(timestamp));
FIELDS(packet::set_playout_delay, AR(value), EQF(value));
static size_t len(Case &c) { return c.chance(1, 40) ? c.pick({255, 256, 257, 300, 32767, 32768, 65535}) : c.chance(1, 4) ? c.draw(3) : c.size(0, 40); }
template<> struct Arb<std::string> { static void make(Case &c, std::string &t) { size_t n = len(c); for (size_t i = 0; i < n; ++i) t.push_back((char)(i < 50 ? c.draw(256) : i * 7)); } static bool eq(const std::string &a, const std::string &b) { return a == b; } };
template<typename T> struct Arb<std::vector<T>> { static void make(Case &c, std::vector<T> &t) { size_t n = len(c); if constexpr (!std::is_arithmetic_v<T>) n = n > 300 ? 300 : n; for (size_t i = 0; i < n; ++i) { if (i >= 60) t.push_back(t[i - 60]); else t.push_back(arb<T>(c)); } } static bool eq(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!::eq<T>(a[i], b[i])) return false; return true; } };
template<typename T, size_t N> struct Arb<std::array<T, N>> { static void make(Case &c, std::array<T, N> &t) { for (auto &x : t) x = arb<T>(c); } static bool eq(const std::array<T, N> &a, const std::array<T, N> &b) { for (size_t i = 0; i < N; ++i) if (!::eq(a[i], b[i])) return false; return true; } };
template<typename T, typename U> struct Arb<std::pair<T, U>> { static void make(Case &c, std::pair<T, U> &t) { t.first = arb<T>(c); t.second = arb<U>(c); } static bool eq(const std::pair<T, U> &a, const std::pair<T, U> &b) { return ::eq(a.first, b.first) && ::eq(a.second, b.second); } };
template<typename K, typename V> struct Arb<std::map<K, V>> { static void make(Case &c, std::map<K, V> &t) { size_t n = c.chance(1, 20) ? 300 : c.size(0, 20); for (size_t i = 0; i < n; ++i) t[i < 20 ? arb<K>(c) : (K)(i * 3)] = i < 20 ? arb<V>(c) : V{}; } static bool eq(const std::map<K, V> &a, const std::map<K, V> &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!::eq(i->first, j->first) || !::eq(i->second, j->second)) return false; return true; } };
template<typename T> struct Arb<std::optional<T>> { static void make(Case &c, std::optional<T> &t) { if (c.boolean()) t = arb<T>(c); } static bool eq(const std::optional<T> &a, const std::optional<T> &b) { return a.has_value() == b.has_value() && (!a || ::eq(*a, *b)); } };
using Var = std::variant<sphere_shape, cylinder_shape, capsule_shape, box_shape, uint32_t>;
template<> struct Arb<Var> { static void make(Case &c, Var &t) { switch (c.draw(5)) { case 0: t = arb<sphere_shape>(c); break; case 1: t = arb<cylinder_shape>(c); break; case 2: t = arb<capsule_shape>(c); break; case 3: t = arb<box_shape>(c); break; default: t = arb<uint32_t>(c); } } static bool eq(const Var &a, const Var &b) { if (a.index() != b.index()) return false; return std::visit([&](auto &x) { return ::eq(x, std::get<std::decay_t<decltype(x)>>(b)); }, a); } };
template<typename T> struct Arb<action_list<T>> { static void make(Case &c, action_list<T> &t) { size_t n = c.chance(1, 20) ? 255 : c.size(0, 20); for (size_t i = 0; i < n; ++i) t.actions.push_back(arb<T>(c)); } static bool eq(const action_list<T> &a, const action_list<T> &b) { return ::eq(a.actions, b.actions); } };
template<> struct Arb<action_history> { static void make(Case &c, action_history &t) { size_t n = c.chance(1, 20) ? 255 : c.size(0, 12); for (size_t i = 0; i < n; ++i) t.entries.emplace_back(arb<double>(c), arb<uint8_t>(c), i < 12 ? arb<Bytes>(c) : Bytes{1, 2}); } static bool eq(const action_history &a, const action_history &b) { if (a.entries.size() != b.entries.size()) return false; for (size_t i = 0; i < a.entries.size(); ++i) if (!(a.entries[i].timestamp == b.entries[i].timestamp && a.entries[i].action_index == b.entries[i].action_index && a.entries[i].data == b.entries[i].data)) return false; return true; } };
template<typename T> struct Arb<flat_nested_array<T>> { static void make(Case &c, flat_nested_array<T> &t) { size_t n = c.size(0, 10); for (size_t i = 0; i < n; ++i) { t.push_array(); size_t k = c.draw(6); for (size_t j = 0; j < k; ++j) t.push_back(arb<T>(c)); } } static bool eq(const flat_nested_array<T> &a, const flat_nested_array<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { auto x = a[i], y = b[i]; if (x.size() != y.size()) return false; for (size_t j = 0; j < x.size(); ++j) if (!::eq(x[j], y[j])) return false; } return true; } };
template<> struct Arb<unordered_pair<uint32_t>> { static void make(Case &c, unordered_pair<uint32_t> &t) { AR(first); AR(second); } static bool eq(const unordered_pair<uint32_t> &a, const unordered_pair<uint32_t> &b) { return a.first == b.first && a.second == b.second; } };

#ifndef MALFORMED
template<typename T> static Bytes dump(const T &t) { Bytes b; memory_output_archive ar(b); ar(t); return b; }
template<typename T> static void through_file(Case &c, T &t, T &back) { char p[] = "/tmp/pbt_ser_XXXXXX"; int fd = mkstemp(p); if (fd < 0) c.discard(); close(fd); uint32_t tail = 0xdeadbeef, got = 0; bool pos_ok; { file_output_archive o(p); o(t, tail); o.close(); } { file_input_archive i(p); if (!i.is_file_open()) { unlink(p); REQUIRE(false, "file does not open"); } i(back, got); size_t end = dump(t).size(); pos_ok = i.tell_position() == end + 4; uint32_t again = 0; i.seek_position(end); i(again); pos_ok &= again == tail && i.tell_position() == end + 4; i.close(); pos_ok &= !i.is_file_open(); again = 0; file_input_archive j; pos_ok &= !j.is_file_open(); j.open(p); pos_ok &= j.is_file_open(); if (j.is_file_open()) { j.seek_position(end); j(again); pos_ok &= again == tail && !j.is_file_at_end(); } } unlink(p); REQUIRE(got == tail && pos_ok, "file archive lost its position"); }

template<typename T> static void round_trip(Case &c, const char *name) {
    T v = arb<T>(c), orig = v; c.label(name); Bytes b = dump(v); REQUIRE(eq(v, orig), "writing changed the %s", name); c.note("%s %zu bytes", name, b.size()); c.nontrivial(b.size() > 2); { Bytes b2; memory_output_archive o(b2); o(v); REQUIRE(b2 == b, "%s written twice differs", name); }
    // Reading into a fresh and into a used object.
    for (int used = 0; used < 2; ++used) { T r = used ? arb<T>(c) : T{}; memory_input_archive in(b.data(), b.size()); REQUIRE(in.eof() == b.empty()); in(r); REQUIRE(!in.failed() && in.eof(), "%s: reading %zu bytes back %s", name, b.size(), in.failed() ? "failed" : "left some"); REQUIRE(eq(r, orig), "%s read %s differs from the one written (%zu bytes)", name, used ? "into a used object" : "back", b.size()); }
    // Fixed-size buffers: exact fit works, smaller ones fail and never write past the end.
    { Bytes f(b.size() + 16, 0xA5); fixed_memory_output_archive o(f.data(), b.size()); o(v); REQUIRE(!o.failed() && std::equal(b.begin(), b.end(), f.begin()), "%s: fixed buffer of exact size", name); for (size_t i = b.size(); i < f.size(); ++i) REQUIRE(f[i] == 0xA5, "%s: wrote past a fixed buffer", name); }
    if (!b.empty()) { size_t k = c.boolean() ? b.size() - 1 : c.draw(b.size()); Bytes f(k + 16, 0xA5); fixed_memory_output_archive o(f.data(), k); o(v); REQUIRE(o.failed(), "%s: %zu bytes written to a buffer of %zu without failing", name, b.size(), k); for (size_t i = k; i < f.size(); ++i) REQUIRE(f[i] == 0xA5, "%s: wrote past a fixed buffer", name); REQUIRE(eq(v, orig)); }
    // Several values in sequence.
    { T w = arb<T>(c), w0 = w, r0{}, r1{}; uint16_t mark = 0xBEEF, got = 0; Bytes s; memory_output_archive o(s); o(v, mark, w); memory_input_archive in(s.data(), s.size()); in(r0, got, r1); REQUIRE(!in.failed() && in.eof() && got == mark && eq(r0, orig) && eq(r1, w0), "%s: sequence of values", name); }
    if (c.chance(1, 16)) { T r{}; through_file(c, v, r); REQUIRE(eq(r, orig), "%s read from a file differs", name); c.label("file"); }
    // A prefix is never enough.
    if (!b.empty()) { size_t k = c.draw(b.size()); Bytes pre(b.begin(), b.begin() + (long)k); T r{}; memory_input_archive in(pre.data(), pre.size()); in(r); REQUIRE(in.failed(), "%s: reading %zu of %zu bytes did not fail", name, k, b.size()); }
}
#define RT(T) round_trip<T>(c, #T); break
PBT(plain_types, 60000, 1000000, "at least three bytes") { switch (c.draw(10)) { case 0: RT(uint8_t); case 1: RT(uint16_t); case 2: RT(uint32_t); case 3: RT(uint64_t); case 4: RT(float); case 5: RT(double); case 6: RT(bool); case 7: RT(int64_t); case 8: RT(coordinate_axis); default: RT(contact_normal_attachment); } }
PBT(component_types, 60000, 1000000, "every case") { switch (c.draw(20)) { case 0: RT(position); case 1: RT(orientation); case 2: RT(linvel); case 3: RT(angvel); case 4: RT(gravity); case 5: RT(center_of_mass); case 6: RT(roll_direction); case 7: RT(inertia); case 8: RT(inertia_inv); case 9: RT(inertia_world_inv); case 10: RT(mass); case 11: RT(mass_inv); case 12: RT(material); case 13: RT(collision_filter); case 14: RT(shape_index); case 15: RT(AABB); case 16: RT(vector3); case 17: RT(quaternion); case 18: RT(matrix3x3); default: RT(material); } }
PBT(shape_types, 30000, 500000, "every case") { switch (c.draw(5)) { case 0: RT(box_shape); case 1: RT(sphere_shape); case 2: RT(capsule_shape); case 3: RT(cylinder_shape); default: RT(plane_shape); } }
PBT(packet_types, 30000, 500000, "every case") { switch (c.draw(7)) { case 0: RT(packet::set_aabb_of_interest); case 1: RT(packet::time_request); case 2: RT(packet::time_response); case 3: RT(packet::set_playout_delay); case 4: RT(action_history); case 5: RT(action_list<uint32_t>); default: RT(action_list<vector3>); } }
using PairT = std::pair<uint16_t, double>; using MapT = std::map<uint32_t, std::string>; using MapI = std::map<uint16_t, uint64_t>; using ArrT = std::array<vector3, 4>; using ArrU = std::array<uint16_t, 7>;
PBT(standard_types, 60000, 1000000, "at least three bytes") { switch (c.draw(18)) { case 0: RT(std::string); case 1: RT(std::vector<uint8_t>); case 2: RT(std::vector<uint32_t>); case 3: case 4: case 5: RT(std::vector<bool>); case 6: RT(std::vector<vector3>); case 7: RT(std::vector<std::string>); case 8: RT(std::vector<std::vector<uint16_t>>); case 9: RT(ArrT); case 10: RT(ArrU); case 11: RT(PairT); case 12: RT(MapT); case 13: RT(MapI); case 14: RT(std::optional<uint64_t>); case 15: RT(std::optional<std::string>); case 16: RT(Var); default: RT(std::vector<std::optional<Var>>); } }
PBT(nested_types, 30000, 400000, "at least three bytes") { switch (c.draw(3)) { case 0: RT(flat_nested_array<uint32_t>); case 1: RT(flat_nested_array<vector3>); default: RT(std::vector<unordered_pair<uint32_t>>); } }

template<typename T> static void size_of(Case &c, const char *name) { T v = arb<T>(c); Bytes b = dump(v); c.label(name); c.nontrivial(b.size() > 2); REQUIRE(serialization_sizeof(v) == b.size(), "serialization_sizeof(%s) is %zu, %zu bytes are written", name, (size_t)serialization_sizeof(v), b.size()); }
#define SZ(T) size_of<T>(c, #T); break
using VarF = std::variant<uint16_t, double>; template<> struct Arb<VarF> { static void make(Case &c, VarF &t) { if (c.boolean()) t = arb<uint16_t>(c); else t = arb<double>(c); } static bool eq(const VarF &a, const VarF &b) { return a == b; } };
PBT(announced_sizes, 30000, 400000, "at least three bytes") { switch (c.draw(10)) { case 0: SZ(std::vector<uint32_t>); case 1: SZ(std::vector<bool>); case 2: SZ(std::vector<vector3>); case 3: SZ(ArrT); case 4: SZ(PairT); case 5: SZ(MapI); case 6: SZ(std::optional<std::vector<uint16_t>>); case 7: SZ(flat_nested_array<uint32_t>); case 8: SZ(VarF); default: SZ(unordered_pair<uint32_t>); } }

// An archive that only looks for the list of material ids of a mesh, to be able to set it.
struct set_ids { using is_input = std::true_type; using is_output = std::false_type; std::vector<material::id_type> ids; int found = 0; template<typename T> void operator()(T &t) { if constexpr (std::is_same_v<T, std::vector<material::id_type>>) { t = ids; ++found; } } template<typename... Ts> void operator()(Ts &...t) { ((*this)(t), ...); } };
PBT(triangle_meshes, 4000, 60000, "mesh with more than 4 triangles") {
    auto m = gen::trimesh(c); if (m.v.size() > 20000) c.discard(); triangle_mesh tm; gen::fill(tm, m); size_t nt = m.idx.size() / 3; std::vector<scalar> fr, re; std::vector<material::id_type> ids; if (c.boolean()) { for (size_t i = 0; i < m.v.size(); ++i) fr.push_back((scalar)i / 8); tm.insert_friction_coefficients(fr.begin(), fr.end()); } if (c.boolean()) { for (size_t i = 0; i < m.v.size(); ++i) re.push_back((scalar)i / 16); tm.insert_restitution_coefficients(re.begin(), re.end()); } tm.initialize(); scalar th = gen::pos(c, 0.1, 4); tm.set_thickness(th); if (c.boolean()) { set_ids s; for (size_t i = 0; i < m.v.size(); ++i) s.ids.push_back((material::id_type)c.draw(9)); serialize(s, tm); if (s.found == 1) ids = s.ids; } c.note("triangles=%zu vertices=%zu friction=%zu ids=%zu", nt, m.v.size(), fr.size(), ids.size()); c.nontrivial(nt > 4);
    Bytes b = dump(tm); REQUIRE(serialization_sizeof(tm) == b.size(), "serialization_sizeof is %zu, %zu bytes are written", serialization_sizeof(tm), b.size()); triangle_mesh r; if (c.boolean()) { gen::fill(r, gen::trimesh(c)); r.initialize(); } if (c.chance(1, 8)) through_file(c, tm, r); else { memory_input_archive in(b.data(), b.size()); in(r); REQUIRE(!in.failed() && in.eof()); }
    REQUIRE(r.num_vertices() == m.v.size() && r.num_triangles() == nt && r.num_edges() == tm.num_edges() && r.get_thickness() == th); for (size_t i = 0; i < m.v.size(); ++i) { REQUIRE(r.get_vertex_position(i) == m.v[i]); if (!fr.empty()) REQUIRE(r.get_vertex_friction(i) == fr[i], "friction"); if (!re.empty()) REQUIRE(r.get_vertex_restitution(i) == re[i], "restitution"); if (!ids.empty()) REQUIRE(r.get_vertex_material_id(i) == ids[i], "material id"); } REQUIRE(r.has_per_vertex_friction() == !fr.empty() && r.has_per_vertex_restitution() == !re.empty() && r.has_per_vertex_material_id() == !ids.empty());
    for (size_t e = 0; e < r.num_edges(); ++e) REQUIRE(r.get_edge_vertex_indices(e) == tm.get_edge_vertex_indices(e) && r.get_edge_face_indices(e) == tm.get_edge_face_indices(e) && r.is_boundary_edge(e) == tm.is_boundary_edge(e) && r.is_convex_edge(e) == tm.is_convex_edge(e), "edge %zu", e); for (size_t t = 0; t < nt; ++t) { REQUIRE(r.get_triangle_normal(t) == tm.get_triangle_normal(t)); for (int i = 0; i < 3; ++i) REQUIRE(r.get_face_vertex_index(t, i) == m.idx[t * 3 + i] && r.get_face_edge_index(t, i) == tm.get_face_edge_index(t, i) && r.get_adjacent_face_normal(t, i) == tm.get_adjacent_face_normal(t, i), "face %zu", t); }
    for (int q = 0; q < 3; ++q) { vector3 o = m.v[c.draw(m.v.size())]; AABB box{o - vector3{1, 1, 1} * scalar(0.5), o + vector3{1, 1, 1} * scalar(0.7)}; std::vector<size_t> x, y; tm.visit_triangles(box, [&](auto i) { x.push_back(i); }); r.visit_triangles(box, [&](auto i) { y.push_back(i); }); REQUIRE(x == y && !x.empty(), "query on the mesh that was read"); } Bytes again = dump(r); REQUIRE(again == b, "mesh that was read is written differently");
}
// P12 (material ids of a mesh): influences along edges and over faces.
#else
// P18: any byte string, including truncated and corrupted messages, read as any type.
static void corrupt(Case &c, Bytes &b) { size_t n = c.draw(4); for (size_t i = 0; i < n; ++i) switch (c.draw(4)) { case 0: if (!b.empty()) b.resize(c.draw(b.size())); break; case 1: if (!b.empty()) b[c.draw(b.size())] = (uint8_t)c.draw(256); break; case 2: if (!b.empty()) b[c.draw(std::min<size_t>(b.size(), 4))] = 0xff; break; default: b.insert(b.end(), c.draw(8), (uint8_t)c.draw(256)); } }
template<typename T> static void malformed(Case &c, const char *name) {
    Bytes b; if (c.chance(1, 3)) { size_t n = c.size(0, 64); for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)c.draw(256)); } else { T v = arb<T>(c); memory_output_archive o(b); o(v); } size_t full = b.size(); corrupt(c, b); c.label(name); c.note("%s %zu bytes (of %zu)", name, b.size(), full); c.nontrivial(b.size() != full || b.size() > 4);
    // An exactly sized heap copy, so that any read beyond the end is an error.
    std::unique_ptr<uint8_t[]> heap(new uint8_t[b.size()]); std::copy(b.begin(), b.end(), heap.get()); T r = c.boolean() ? T{} : arb<T>(c); memory_input_archive in(heap.get(), b.size()); in(r); bool f1 = in.failed(); uint8_t extra = 0; in(extra); if (f1) { REQUIRE(in.failed(), "%s: archive recovered from a failure", name); REQUIRE(extra == 0, "%s: something was read after a failure", name); c.label("failed"); } else c.label("accepted");
    if (!f1) { Bytes again; memory_output_archive o(again); o(r); REQUIRE(again.size() <= b.size() || strstr(name, "Var"), "%s: %zu bytes were accepted as a value of %zu bytes", name, b.size(), again.size()); T r2{}; memory_input_archive in2(again.data(), again.size()); in2(r2); REQUIRE(!in2.failed() && in2.eof(), "%s: value read from arbitrary bytes does not survive a round trip", name); }
}
#define MF(T) malformed<T>(c, #T); break
using PairT = std::pair<uint16_t, double>; using MapT = std::map<uint32_t, uint16_t>; // values of fixed size: see DESIGN.md about the cost of truncated maps of strings
 using MapI = std::map<uint16_t, uint64_t>; using ArrT = std::array<vector3, 4>;
PBT(corrupted, 60000, 1500000, "truncated, extended or more than four bytes") { switch (c.draw(22)) { case 0: MF(std::string); case 1: MF(std::vector<uint8_t>); case 2: MF(std::vector<uint32_t>); case 3: MF(std::vector<bool>); case 4: MF(std::vector<vector3>); case 5: MF(std::vector<std::string>); case 6: MF(std::vector<std::vector<uint16_t>>); case 7: MF(ArrT); case 8: MF(PairT); case 9: MF(MapT); case 10: MF(MapI); case 11: MF(std::optional<uint64_t>); case 12: MF(std::optional<std::string>); case 13: MF(Var); case 14: MF(std::vector<std::optional<Var>>); case 15: MF(action_history); case 16: MF(action_list<vector3>); case 17: MF(packet::time_response); case 18: MF(packet::set_aabb_of_interest); case 19: MF(material); case 20: MF(bool); default: MF(collision_filter); } }
#endif
