// Generated worlds: bodies of every kind and shape, joints and histories of operations through the public interface.
#pragma once
#include "harness/common.hpp"
#include "harness/polygen.hpp"
#include "edyn/edyn.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/collision/should_collide.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/collision_exclusion.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/comp/inertia.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/mass.hpp"
#include "edyn/comp/origin.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/comp/tree_resident.hpp"
#include "edyn/config/constants.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/util/aabb_util.hpp"
#include <entt/entity/registry.hpp>
#include <algorithm>
#include <map>
#include <set>
namespace wld {
using pbt::Case; using edyn::scalar; using edyn::vector3; using edyn::quaternion; using E = entt::entity; using orc::R; using orc::V; using orc::tov;
inline unsigned id(E e) { return (unsigned)entt::to_integral(e); }
inline const char *kname(edyn::rigidbody_kind k) { return k == edyn::rigidbody_kind::rb_dynamic ? "dynamic" : k == edyn::rigidbody_kind::rb_kinematic ? "kinematic" : "static"; }
inline edyn::polyhedron_shape polyhedron(Case &c) { auto p = gen::poly(c, 0.2); auto m = std::make_shared<edyn::convex_mesh>(); m->vertices = p.v; p.flatten(m->indices, m->faces); m->initialize(); return edyn::polyhedron_shape(m); }
inline edyn::coordinate_axis axis(Case &c) { return (edyn::coordinate_axis)c.draw(3); }
// Solid shapes of about unit size.
inline edyn::shapes_variant_t solid(Case &c, bool compound = true) {
    auto r = [&] { return (scalar)c.uniform(0.2, 0.6); };
    switch (c.draw(compound ? 7 : 6)) {
    case 0: return edyn::sphere_shape{r()};
    case 1: case 2: return edyn::box_shape{vector3{r(), r(), r()}};
    case 3: return edyn::capsule_shape{r(), r(), axis(c)};
    case 4: return edyn::cylinder_shape{r(), r(), axis(c)};
    case 5: return polyhedron(c);
    default: { edyn::compound_shape s; size_t n = c.size(1, 3); for (size_t i = 0; i < n; ++i) { vector3 p = gen::vec(c, 0.5); quaternion q = gen::orient(c); switch (c.draw(4)) { case 0: s.add_shape(edyn::sphere_shape{r()}, p, q); break; case 1: s.add_shape(edyn::capsule_shape{r(), r(), axis(c)}, p, q); break; case 2: s.add_shape(edyn::cylinder_shape{r(), r(), axis(c)}, p, q); break; default: s.add_shape(edyn::box_shape{vector3{r(), r(), r()}}, p, q); } } s.finish(); return s; }
    }
}
inline edyn::shapes_variant_t ground(Case &c) { // static shapes
    if (c.chance(1, 2)) return edyn::plane_shape{edyn::vector3_y, (scalar)c.uniform(-2, 0)};
    auto m = std::make_shared<edyn::triangle_mesh>(); std::vector<vector3> v; std::vector<uint32_t> ix; int n = (int)c.size(2, 4); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) v.push_back({(scalar)(i * 2 - n + 1), (scalar)c.uniform(-0.5, 0.5), (scalar)(j * 2 - n + 1)});
    for (int j = 0; j + 1 < n; ++j) for (int i = 0; i + 1 < n; ++i) { uint32_t a = (uint32_t)(j * n + i), b = a + 1, d = a + (uint32_t)n, e = d + 1; ix.insert(ix.end(), {a, d, b, b, d, e}); } m->insert_vertices(v.begin(), v.end()); m->insert_indices(ix.begin(), ix.end()); m->initialize(); return edyn::mesh_shape{m};
}
struct World {
    entt::registry reg; double t = 0; bool paused = true;
    explicit World(edyn::execution_mode mode = edyn::execution_mode::sequential, scalar dt = (scalar)(1.0 / 60)) { edyn::init_config cfg; cfg.execution_mode = mode; cfg.timestamp = 0.0; cfg.fixed_dt = dt; edyn::attach(reg, cfg); edyn::set_paused(reg, true); }
    void step(double dt = 1.0 / 60) { t += dt; edyn::step_simulation(reg, t); }
    ~World() { edyn::detach(reg); }
};
}
