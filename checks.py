import os


def P(harness, variant="plain", mode="free", **kw):
    return dict(harness="harness/" + harness, variant=variant, mode=mode, **kw)


# Stand-in for a header of EnTT which is included but not used.
STUB = "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")

# Sources for collision detection between shapes.
GEOMETRY = ["math/*", "shapes/*", "sys/update_rotated_meshes.cpp", "collision/collide/*", "collision/collision_result.cpp", "util/aabb_util.cpp", "util/shape_util.cpp", "collision/dynamic_tree.cpp", "dynamics/moment_of_inertia.cpp"]

CHECKS = {
    "P01": dict(parts=[P("algebra.cpp", "asan", scale=3), P("algebra.cpp", "double", scale=8)]),
    "P02": dict(parts=[P("rotation.cpp", "plain", scale=8), P("rotation.cpp", "double", scale=8)]),
    "P03": dict(parts=[P("closest.cpp", "plain", scale=8), P("closest.cpp", "double", scale=8)]),
    "P04": dict(parts=[P("circles.cpp", "plain", scale=8), P("circles.cpp", "double", scale=8)]),
    "P05": dict(parts=[P("intersect.cpp", "plain", scale=8), P("intersect.cpp", "double", scale=8)]),
    "P06": dict(parts=[P("support.cpp", "plain", scale=8), P("support.cpp", "double", scale=8)]),
    "P07": dict(parts=[P("boxtopo.cpp", "plain", scale=8), P("boxtopo.cpp", "double", scale=8)]),
    "P08": dict(parts=[P("polygon.cpp", "plain", scale=8), P("polygon.cpp", "double", scale=8)]),
    "P09": dict(parts=[P("volume.cpp", "plain", scale=8), P("volume.cpp", "double", scale=8)]),
    "P10": dict(parts=[P("insertion.cpp", "plain", scale=8), P("insertion.cpp", "double", scale=8)]),
    "P11": dict(parts=[P("triclip.cpp", "plain", scale=8), P("triclip.cpp", "double", scale=8)]),
    "P12": dict(parts=[P("trimesh.cpp", "plain", scale=8, flags=STUB), P("trimesh.cpp", "double", scale=8, flags=STUB)]),
    "P13": dict(parts=[P("bvh.cpp", "plain", scale=8), P("bvh.cpp", "double", scale=8)]),
    "P14": dict(parts=[P("objload.cpp", "asan"), P("objload.cpp", "double", scale=3)]),
    "P15": dict(parts=[P("containers.cpp", "asan"), P("containers.cpp", "double", scale=3)]),
    "P16": dict(parts=[P("materials.cpp", "plain", scale=4), P("materials.cpp", "double", scale=4)]),
    "P19": dict(parts=[P("history.cpp", "asan"), P("history.cpp", "double", scale=4)]),
    "P20": dict(parts=[P("exporter.cpp", "plain", scale=8)]),
    "P17": dict(parts=[P("serial.cpp", "asan", flags=STUB), P("serial.cpp", "double", scale=2, flags=STUB)]),
    "P18": dict(parts=[P("malformed.cpp", "asan", flags=STUB), P("malformed.cpp", "dasan", flags=STUB)]),
    "P21": dict(parts=[P("rows.cpp", "plain", scale=6), P("rows.cpp", "double", scale=6), P("rowfriction.cpp", "plain", "entt", scale=30), P("rowfriction.cpp", "double", "entt", scale=30)]),
    "P22": dict(parts=[P("jobs.cpp", "plain", scale=8), P("jobs.cpp", "tsan", scale=2)]),
    "P23": dict(parts=[P("clock.cpp", "plain", scale=2)]),
    "P24": dict(parts=[P("collide.cpp", "plain", "entt", sources=GEOMETRY, scale=2), P("collide.cpp", "double", "entt", sources=GEOMETRY, scale=2)]),
    "P26": dict(parts=[P("mass.cpp", "plain", "entt", sources=GEOMETRY, scale=4), P("mass.cpp", "double", "entt", sources=GEOMETRY, scale=4)]),
    "P27": dict(parts=[P("graph.cpp", "asan", "entt", sources=["core/entity_graph.cpp"], scale=1)]),
    "P28": dict(parts=[P("dyntree.cpp", "asan", "entt", sources=["collision/dynamic_tree.cpp", "math/geom.cpp", "math/quaternion.cpp"]), P("dyntree.cpp", "double", "entt", sources=["collision/dynamic_tree.cpp", "math/geom.cpp", "math/quaternion.cpp"])]),
    "P25": dict(parts=[P("raycast.cpp", "plain", "entt"), P("raycast.cpp", "double", "entt")]),
    "P29": dict(parts=[P("islands.cpp", "plain", "entt"), P("islands.cpp", "double", "entt")]),
    "P35": dict(parts=[P("async.cpp", "plain", "entt"), P("async.cpp", "double", "entt")]),
    "P37": dict(parts=[P("paged.cpp", "plain", "entt", scale=10), P("paged.cpp", "double", "entt", scale=10)]),
    "P39": dict(parts=[P("convex.cpp", "plain", "entt", sources=GEOMETRY + ["util/shape_io.cpp"], scale=12), P("convex.cpp", "double", "entt", sources=GEOMETRY + ["util/shape_io.cpp"], scale=12)]),
    "P38": dict(parts=[P("meshcollide.cpp", "plain", "entt", sources=GEOMETRY, scale=12), P("meshcollide.cpp", "double", "entt", sources=GEOMETRY, scale=12)]),
    "P36": dict(parts=[P("net.cpp", "plain", "entt"), P("net.cpp", "double", "entt")]),
    "P34": dict(parts=[P("queries.cpp", "plain", "entt", scale=4), P("aqueries.cpp", "plain", "entt"), P("queries.cpp", "double", "entt", scale=4), P("aqueries.cpp", "double", "entt")]),
    "P33": dict(parts=[P("contacts.cpp", "plain", "entt"), P("contacts.cpp", "double", "entt"), P("mixing.cpp", "plain", "entt"), P("mixing.cpp", "double", "entt")]),
    "P32": dict(parts=[P("joints.cpp", "plain", "entt"), P("joints.cpp", "double", "entt")]),
    "P31": dict(parts=[P("motion.cpp", "plain", "entt"), P("motion.cpp", "double", "entt")]),
    "P30": dict(parts=[P("pairs.cpp", "plain", "entt"), P("pairs.cpp", "double", "entt")]),
}
