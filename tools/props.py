NOT_APPLICABLE = {}

GEN = "random structured inputs (choice-sequence generator with shrinking) against "
NOTE = ("Search, not proof: holds for every generated case of the reported counts, in single and double precision builds; "
        "tolerances of the oracle are scaled to the precision of the build.")


def prop(id, title, statement, over, forall, why, files, mechanism, technique, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note, **kw))


PROPS = []

prop("P01", "Vector, matrix and scalar arithmetic agrees with real linear algebra",
     "Every operation offered on two- and three-component vectors and 3x3 matrices (sums, products, dot, cross, length, normalisation, projection, "
     "transpose, determinant, inverse, adjugate, scaling of rows and columns, diagonal forms, frame changes) and every scalar helper (clamping, angle "
     "normalisation, squares, lerp, degree conversion) equals its mathematical definition up to rounding. Points converted from world to object space and "
     "back, and matrices multiplied by their inverse, return to where they started.",
     ["inputs"], "every finite vector, matrix and scalar operand within magnitude limits that avoid overflow, in float and double builds",
     "The tests evaluate a few random vectors and two matrices; most operators and every component-dependent formula (each index of a matrix product, the symmetric inverse) are never compared with a reference.",
     ["include/edyn/math/vector3.hpp", "include/edyn/math/vector2.hpp", "include/edyn/math/matrix3x3.hpp", "include/edyn/math/math.hpp", "include/edyn/math/transform.hpp", "include/edyn/math/vector2_3_util.hpp", "include/edyn/math/scalar.hpp"],
     [("component-wise operators, dot, cross", "include/edyn/math/vector3.hpp"), ("inverse_matrix, inverse_matrix_symmetric, adjugate_matrix", "include/edyn/math/matrix3x3.hpp"), ("to_world_space/to_object_space", "include/edyn/math/transform.hpp")],
     GEN + "an extended-precision reference implementation and algebraic laws")

prop("P02", "Quaternions and orientation matrices represent and integrate rotations",
     "Quaternion operations compose, invert, normalise, integrate and interpolate rotations exactly as the rotations they denote: rotating by a quaternion, by its matrix, "
     "and by axis and angle agree, and conversions between quaternions, matrices, Euler angles and axis-angle round-trip to the same rotation. Rotation never changes lengths or "
     "handedness, the result of integrating an angular velocity stays a unit quaternion rotated by that velocity times the time step, the shortest arc takes one direction onto another, "
     "and the angle between two orientations is the smallest rotation between them and is never undefined.",
     ["inputs"], "every unit quaternion, axis, angle (including zero, half turns, several turns), angular velocity and time step",
     "No test touches quaternions; identities must hold over the whole rotation group, including half turns, opposite vectors and gimbal lock.",
     ["include/edyn/math/quaternion.hpp", "src/edyn/math/quaternion.cpp", "include/edyn/math/matrix3x3.hpp", "include/edyn/math/geom.hpp"],
     [("quaternion operators, slerp, integrate, shortest_arc, angle_between", "src/edyn/math/quaternion.cpp"), ("to_matrix3x3, to_quaternion", "include/edyn/math/matrix3x3.hpp"), ("plane_space", "src/edyn/math/geom.cpp")],
     GEN + "Rodrigues' formula in extended precision, group laws and round trips")

prop("P03", "Closest points on segments, lines, discs and boxes are the nearest ones",
     "For any point, segment, line, disc or box, the reported closest points lie on their respective objects, agree with the reported parameters and squared distance, and no other pair of points of "
     "the objects is nearer. Degenerate (zero-length) and parallel segments are handled: one pair is reported when it is unique, and when parallel segments overlap two distinct valid pairs are reported.",
     ["inputs"], "every position, orientation and size of the two objects, including degenerate, parallel, touching and coincident ones",
     "Tests fix a handful of configurations with known coordinates; optimality over all relative placements and the degenerate branches are not sampled.",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp"],
     [("closest_point_segment/line/disc, closest_point_segment_segment, closest_point_box_inside/outside", "src/edyn/math/geom.cpp")],
     GEN + "first-order optimality conditions and brute-force minimisation in extended precision")

prop("P04", "Closest points and support points of circles are correct",
     "The point of a circle reported as furthest along a direction lies on the circle and no other point of it is further. The closest points between a circle and a line, and between two circles, always lie on "
     "their objects and are consistent with the reported distance and normal; they are nearest when the line is parallel to the plane of the circle or clearly outside of it, for all pairs of parallel circles, and for circles well apart of which the second stands above the plane of the first (to 15% of its radius). Normals are orthogonal to the line and to the circles.",
     ["inputs"], "every placement, radius and axis of the circles and lines",
     "The tests evaluate three fixed configurations; each of the many cases of two circles (inside, outside, crossing, coaxial, equal) needs every placement.",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp"],
     [("support_point_circle, closest_point_circle_line, closest_point_circle_circle", "src/edyn/math/geom.cpp")],
     GEN + "densely sampled and analytically refined minimum distances")

prop("P05", "Intersection queries report exactly the intersections that exist",
     "Intersection tests between boxes, segments, lines, rays, circles, spheres, cylinders and triangles report an intersection exactly when there is one, outside of a band of rounding around touching configurations. "
     "Every reported parameter, point, normal and count describes a real intersection, in order, and the first one along a ray is reported.",
     ["inputs"], "every placement and size of both objects, including tangent, parallel, collinear, contained and degenerate ones",
     "Tests sample some ten fixed configurations of lines against boxes and circles; rays against cylinders, spheres and triangles are not tested at all.",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp", "src/edyn/math/triangle.cpp"],
     [("intersect_aabb, intersect_segments, intersect_line_circle, intersect_circle_circle, intersect_line_aabb, intersect_segment_aabb, intersect_ray_cylinder, intersect_ray_sphere, intersect_segment_triangle", "src/edyn/math/geom.cpp")],
     GEN + "independent analytic solutions in extended precision with a rounding band")

prop("P06", "Support points and support features of shapes are extreme along a direction",
     "For any direction, the support point, support projection and support feature reported for boxes, cylinders, convex polyhedra, point clouds and triangles are those of the furthest points of the shape along that direction. "
     "The feature kind (vertex, edge, face, side edge, cap) and its index contain exactly the vertices within the given threshold of the furthest one, for every orientation and offset of the shape.",
     ["inputs"], "every shape size, orientation, position, direction and threshold",
     "No test calls these functions directly; wrong answers appear only for particular directions near feature transitions.",
     ["src/edyn/shapes/box_shape.cpp", "src/edyn/shapes/cylinder_shape.cpp", "src/edyn/util/shape_util.cpp", "src/edyn/math/triangle.cpp", "include/edyn/math/geom.hpp"],
     [("box_shape::support_point/support_feature", "src/edyn/shapes/box_shape.cpp"), ("cylinder_shape::support_feature", "src/edyn/shapes/cylinder_shape.cpp"), ("point_cloud_support_point, polyhedron_support_projection", "src/edyn/util/shape_util.cpp"), ("get_triangle_support_feature", "src/edyn/math/triangle.cpp")],
     GEN + "exhaustive maximisation over vertices and feature sampling")

prop("P07", "The vertices, edges and faces of a box fit together",
     "For every box, the vertices, edges, faces, face normals, face centres and face bases reported by index are consistent with each other and with the half extents: each edge joins two adjacent vertices on a common pair of faces, each face is a counter-clockwise "
     "rectangle with outward normal, and all are transformed alike by position and orientation. Looking up an index from vertices inverts the listing, and the feature nearest to a point on a face is the vertex, edge or face whose distance says so.",
     ["inputs", "configurations"], "every half extent, position, orientation and every feature index, and every point on a face and tolerance",
     "The tests never call these; the correspondence must hold for every one of 8 vertices, 12 edges and 6 faces under any transform.",
     ["src/edyn/shapes/box_shape.cpp", "include/edyn/shapes/box_shape.hpp"],
     [("get_vertex/get_edge/get_face/get_face_normal, get_edge_index, get_closest_feature_on_face", "src/edyn/shapes/box_shape.cpp")],
     GEN + "a combinatorial and geometric model of the cuboid")

prop("P08", "Convex polygons: hull, containment, closest point and winding are right",
     "The convex hull of coplanar points is a counter-clockwise convex polygon made of input points that contains all of them; containment and closest-point queries on convex polygons give the true answer for any point, and winding tests identify the orientation of triangles. "
     "The support polygon of a point cloud along a direction contains exactly the vertices within the threshold of the furthest one.",
     ["inputs"], "every set of points (including duplicates, collinear and nearly vertical ones), plane, query point and direction",
     "The tests contain no polygon queries; results depend on the position of the query among edges and vertices and on the order of points.",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp", "include/edyn/util/shape_util.hpp", "src/edyn/util/shape_util.cpp"],
     [("calculate_convex_hull, point_inside_convex_polygon, closest_point_convex_polygon, point_cloud_support_polygon", "include/edyn/math/geom.hpp")],
     GEN + "O(n^2) reference predicates in extended precision")

prop("P10", "Contact point selection keeps the deepest point and a large area",
     "When contact points are inserted one after another into a set limited to four, every decision either appends, replaces one existing point or discards the new one within bounds; a new point that coincides with an existing one replaces it, the deepest point is never "
     "lost, and the area spanned by the kept points never shrinks in favour of an arbitrary one. Among collinear points the middle one is the one given up.",
     ["inputs", "histories"], "every sequence of points, depths and prior sets",
     "No test exercises the selection; it depends on the whole history of points inserted so far.",
     ["include/edyn/math/geom.hpp", "src/edyn/math/geom.cpp"],
     [("insertion_point_index", "src/edyn/math/geom.cpp")],
     "stateful random insertion histories against a reference selection rule and invariants")

prop("P11", "Collision normals against triangles respect the neighbouring faces",
     "A separating axis against a triangle of a mesh is kept when it already lies within the region of normals of the touched feature; beyond a convex edge it becomes the normal of the neighbouring triangle, and at a concave edge and on the face it becomes the normal of the triangle itself. "
     "The result is always a unit vector, and features of a triangle report the vertex, edge and face indices of the mesh they correspond to.",
     ["inputs"], "every triangle, set of adjacent normals, feature and axis",
     "Untested today; correctness depends on the dihedral angle with each neighbour and on the axis.",
     ["src/edyn/math/triangle.cpp", "include/edyn/math/triangle.hpp"],
     [("clip_triangle_separating_axis, get_triangle_feature helpers", "src/edyn/math/triangle.cpp")],
     GEN + "the analytic allowed arc between adjacent normals")

prop("P12", "A triangle mesh derives right adjacency, normals and interpolated values",
     "After a triangle mesh is initialised from vertices and indices, its normals, adjacent normals, edges, boundary flags, face-edge relation and convexity flags describe exactly the topology and geometry of the input, for open, closed and multi-component meshes. Spatial queries over the "
     "mesh report every triangle that meets the queried box or ray region and each only once, and per-vertex friction and restitution are interpolated linearly on faces and edges and exactly at vertices.",
     ["inputs"], "every indexed triangle mesh with manifold edges, every query box, and every per-vertex value",
     "The tests build one small grid mesh; adjacency bookkeeping depends on the order and orientation in which triangles share edges.",
     ["src/edyn/shapes/triangle_mesh.cpp", "include/edyn/shapes/triangle_mesh.hpp"],
     [("initialize, init_edge_indices, calculate_adjacent_normals, calculate_is_convex", "src/edyn/shapes/triangle_mesh.cpp")],
     "random mesh generation against a recomputed topology and linear interpolation oracle")

prop("P13", "Bounding-volume queries never miss and never invent overlaps",
     "A static bounding-volume tree built over any set of boxes reports, for any query, exactly those leaves whose boxes overlap the query, each once. The operations on bounding boxes (union, intersection, containment, inset, area) are those of sets of points.",
     ["inputs"], "every set of boxes, including duplicated and degenerate, and every query box",
     "No test builds a tree directly; a partitioning mistake shows only for particular distributions of boxes.",
     ["include/edyn/collision/static_tree.hpp", "include/edyn/comp/aabb.hpp", "include/edyn/collision/query_tree.hpp"],
     [("static_tree::build, query_tree", "include/edyn/collision/static_tree.hpp"), ("aabb operations", "include/edyn/comp/aabb.hpp")],
     "random box sets against exhaustive overlap enumeration")

prop("P09", "Volumes, centroids and generated meshes have the right measure",
     "The volume reported for spheres, cylinders, capsules, boxes and closed polyhedral meshes, and the centroid of the latter, are the geometric ones, wherever the solid lies in space; a mesh with its winding reversed has the opposite volume and the same centroid. "
     "Meshes generated for boxes and planes have the requested extents and closed, consistently outward (or upward) faces.",
     ["inputs"], "every dimension, every convex or extruded polyhedron, position and grid resolution",
     "No test computes a volume; an error in one term disappears for solids centred at the origin or of equal extents.",
     ["src/edyn/math/shape_volume.cpp", "include/edyn/math/shape_volume.hpp", "src/edyn/util/shape_util.cpp", "include/edyn/util/shape_util.hpp"],
     [("mesh_volume, polyhedron volume", "src/edyn/math/shape_volume.cpp"), ("mesh_centroid, make_box_mesh, make_plane_mesh", "src/edyn/util/shape_util.cpp")],
     GEN + "independent tetrahedral decomposition in extended precision")

prop("P14", "Wavefront OBJ models are loaded exactly as written",
     "Reading an OBJ document yields one mesh per object with its name, its vertices in file order, its faces in file order with their winding and its colours, whatever mix of vertex/texture/normal references, comments, blank lines, unrelated statements and line spacing the file contains; "
     "the triangle form splits each polygon into triangles covering it. The requested scale, rotation and translation are applied in that order, and a file that does not exist is reported as failure without output.",
     ["inputs"], "every well-formed document with positive indices and either all or none of the vertices of an object coloured, and every transform",
     "The test reads a single fixed document.",
     ["src/edyn/util/shape_io.cpp", "include/edyn/util/shape_io.hpp"],
     [("load_meshes_from_obj, load_tri_mesh_from_obj", "src/edyn/util/shape_io.cpp")],
     "grammar-based generation of OBJ text against the document model it was printed from")

prop("P15", "Core containers behave as their abstract models",
     "A free list returns distinct slots for live elements, reuses only freed slots and yields exactly the live elements; nested arrays return each nested sequence as inserted; unordered pairs compare, order and hash independently of element order; the constraint row cache gives back the rows of every constraint in "
     "order; helpers that search or erase in vectors and move elements between arrays and tuples do exactly that.",
     ["inputs", "histories"], "every sequence of operations and element values",
     "The tests touch none of these containers; defects depend on the history of insertions and removals.",
     ["include/edyn/core/free_list.hpp", "include/edyn/core/flat_nested_array.hpp", "include/edyn/core/unordered_pair.hpp", "include/edyn/util/vector_util.hpp", "include/edyn/util/array_util.hpp", "include/edyn/util/tuple_util.hpp", "include/edyn/dynamics/row_cache.hpp"],
     [("add/remove/for_each/range", "include/edyn/core/free_list.hpp"), ("push_back/nested", "include/edyn/core/flat_nested_array.hpp"), ("operator==, operator<", "include/edyn/core/unordered_pair.hpp")],
     "stateful model-based testing against std:: containers, under AddressSanitizer")

prop("P16", "Material mixing is symmetric and custom entries take effect",
     "Combining the friction, restitution, stiffness and damping of two materials does not depend on their order and follows fixed rules: the smaller restitution, the geometric mean of frictions, the larger spin and roll friction, and stiffness and damping in series. A custom entry inserted for a pair of material ids is found for that pair in either order, replaces the previous one, and never appears for another pair.",
     ["inputs", "histories"], "every pair of coefficients and every sequence of insertions and lookups",
     "Nothing in the test suite mixes materials; a lookup may only fail for ids in a particular order or number.",
     ["include/edyn/dynamics/material_mixing.hpp", "include/edyn/comp/material.hpp"],
     [("material_mix_* functions, material_mix_table", "include/edyn/dynamics/material_mixing.hpp")],
     "random operands and stateful insert/lookup histories against a map model")

prop("P17", "Serialized values read back identical and with the announced size",
     "Whatever is written by an output archive, in memory, in a fixed buffer or in a file, is read back equal by the corresponding input archive, in the same order and consuming exactly the bytes written, for every serializable component, shape, packet, standard container and triangle mesh, even when read into an object "
     "that already holds other values. The announced serialized size equals the number of bytes written and file and memory archives produce the same bytes. A triangle mesh read back answers every query as the original.",
     ["inputs"], "every value of the supported types, in every order, up to the container sizes the format can hold (65535 elements; 255 actions), in float and double builds",
     "No test serializes anything but one mesh; a field left out of an archive is noticed only when values other than the defaults are used.",
     ["include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/file_archive.hpp", "include/edyn/serialization/s11n_util.hpp", "include/edyn/serialization/std_s11n.hpp", "include/edyn/serialization/math_s11n.hpp", "include/edyn/serialization/triangle_mesh_s11n.hpp"],
     [("memory/fixed archives", "include/edyn/serialization/memory_archive.hpp"), ("file archives", "include/edyn/serialization/file_archive.hpp"), ("standard containers", "include/edyn/serialization/std_s11n.hpp"), ("triangle_mesh", "include/edyn/serialization/triangle_mesh_s11n.hpp")],
     "round trips of random values of some sixty types, with byte-count and archive-differential oracles, under AddressSanitizer/UBSan")

prop("P18", "Malformed serialized input is contained",
     "Reading truncated, corrupted or arbitrary bytes from memory never reads outside the buffer, never produces invalid values and always terminates; the archive reports failure when it ran out of data and keeps reporting it, and reading a valid message extended by other bytes gives the message.",
     ["inputs", "faults"], "every byte string, and every truncation or corruption of a valid message, for the supported types",
     "Network data is untrusted; the tests do not read any malformed input.",
     ["include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/std_s11n.hpp"],
     [("memory_input_archive bounds", "include/edyn/serialization/memory_archive.hpp"), ("containers", "include/edyn/serialization/std_s11n.hpp")],
     "structured corruption of valid messages and random bytes, deserialized under AddressSanitizer and UBSan")

prop("P19", "Merging action histories and offsets loses, repeats or reorders nothing",
     "Merging the windows of actions received from a peer keeps every action after the last merged timestamp exactly once, in order of time and with its data, however windows overlap or are lost; sorting keeps each action with its data. Merging lists of actions appends them in order, and merging discontinuities adds up offsets and composes rotations.",
     ["histories"], "every sequence of overlapping, repeated or lost windows",
     "Untested; depends on delivery history.",
     ["include/edyn/comp/action_list.hpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/networking/comp/discontinuity.hpp"],
     [("action_history::merge/sort", "include/edyn/networking/comp/action_history.hpp"), ("merge_component", "include/edyn/comp/action_list.hpp")],
     "stateful generation of lossy, overlapping windows against a list model")

prop("P20", "A modified component is exported for the whole time window and no longer",
     "Marking a component as modified keeps it among the exported ones for its full time-out, counted from the latest marking, after which it disappears; each component appears at most once and marking one never disturbs another, even at full capacity.",
     ["histories"], "every sequence of markings and time decays, for every capacity",
     "Not tested; depends on the order in which entries are renewed and expire.",
     ["include/edyn/networking/comp/exporter_modified_components.hpp"],
     [("bump_index, decay", "include/edyn/networking/comp/exporter_modified_components.hpp")],
     "stateful generation of mark/decay histories against a map of remaining times")

prop("P21", "Constraint rows apply bounded, equal and opposite impulses",
     "Solving a velocity constraint row drives the relative velocity along it to the target while the accumulated impulse never leaves its limits; impulses conserve momentum between the two bodies and move each body by its inverse mass and inertia. Warm starting applies the stored impulse, an approaching contact rebounds with its restitution, and spin "
     "friction opposes relative spin about its axis with a torque bounded by the normal impulse. A pair of friction rows together never exceeds the friction coefficient times the normal impulse, and keeps its direction when limited.",
     ["inputs", "histories"], "every pair of bodies, Jacobian, limits, and sequence of solves",
     "No test runs the solver; the sign or a single Jacobian block matters only in asymmetric configurations.",
     ["src/edyn/constraints/constraint_row.cpp", "include/edyn/constraints/constraint_row.hpp", "src/edyn/constraints/constraint_row_spin_friction.cpp", "src/edyn/constraints/constraint_row_friction.cpp"],
     [("prepare_row, solve, apply_row_impulse, warm_start", "src/edyn/constraints/constraint_row.cpp"), ("solve_spin_friction", "src/edyn/constraints/constraint_row_spin_friction.cpp"), ("solve_friction", "src/edyn/constraints/constraint_row_friction.cpp")],
     "random bodies and sequences of solves against an extended-precision reference solver and conservation laws")

prop("P22", "Every dispatched job runs, once, and waiting ends when it should",
     "Jobs pushed to a queue come out once, in order per producer, with their data intact. Jobs given to a dispatcher run exactly once unless it is stopped before, never after stop() returned, and jobs which need to run simultaneously do when there are as many workers. A worker runs all jobs pushed to it and stops when told to, whenever that is; waiting on a counter returns after "
     "the last decrement and not before; a started thread runs its function once in another thread. None of these operations races.",
     ["schedules", "histories"], "every interleaving of producers, consumers, workers and stop requests",
     "A test samples one schedule; lost wake-ups, double execution and races show only in particular interleavings.",
     ["src/edyn/parallel/job_queue.cpp", "src/edyn/parallel/job_dispatcher.cpp", "include/edyn/parallel/worker.hpp", "include/edyn/parallel/atomic_counter_sync.hpp", "src/edyn/context/start_thread.cpp"],
     [("push/pop/try_pop", "src/edyn/parallel/job_queue.cpp"), ("start/stop/async", "src/edyn/parallel/job_dispatcher.cpp"), ("worker::run/stop", "include/edyn/parallel/worker.hpp"), ("wait/decrement", "include/edyn/parallel/atomic_counter_sync.hpp")],
     "randomised schedules (random delays, threads, stop points) against exactly-once models, with hang detection and ThreadSanitizer")

prop("P23", "Clocks advance with real time and delays last as requested",
     "Millisecond ticks, the performance counter and its frequency, and performance time are proportional to elapsed monotonic time for any uptime, and never go backwards; a delay lasts at least as long as asked, and no longer than needed, however often it is interrupted by signals.",
     ["inputs", "faults"], "every uptime and interval, every delay, and every pattern of interruptions",
     "Tests use no clock; carries between seconds and nanoseconds and interrupted sleeps cannot be sampled with real time.",
     ["src/edyn/time/unix/time.cpp", "src/edyn/time/common/time.cpp", "include/edyn/time/time.hpp"],
     [("ticks, performance_counter, delay", "src/edyn/time/unix/time.cpp")],
     "random clock readings and interruptions injected by interposing clock_gettime/nanosleep, plus real delays")

prop("P24", "Collision detection between shapes reports the contacts that exist",
     "For every pair of spheres, capsules, cylinders, boxes, convex polyhedra and planes, contact points are reported when the shapes are nearer than the threshold and none when they are further. Normals have unit length, point from the second shape towards the first, and are (nearly) "
     "those of greatest separation; pivots lie on the surfaces and their distance along the normal is the distance reported, the smallest of which is the distance between the shapes. Exchanging the shapes mirrors the result. Nothing is ever infinite or undefined, and there are never more than the maximum number of points.",
     ["inputs"], "every pair of convex shapes, size and relative placement down to moderate penetration, including parallel, aligned, and touching features; pairs whose algorithm is approximate (cylinders against edges) are held to looser bounds",
     "No test of the repository places shapes at general orientations; each pair has its own routine with dozens of feature combinations that only particular placements reach.",
     ["src/edyn/collision/collide/", "include/edyn/collision/collide.hpp", "src/edyn/collision/collision_result.cpp", "src/edyn/math/geom.cpp", "src/edyn/util/shape_util.cpp"],
     [("collide overloads", "src/edyn/collision/collide/"), ("swap_collide", "include/edyn/collision/collide.hpp"), ("add_point, maybe_add_point", "src/edyn/collision/collision_result.cpp")],
     GEN + "GJK distance and sampled separating directions computed independently in double precision, and the mirrored call")

prop("P25", "Casting a ray at a shape reports the first point where it enters",
     "For every shape, a ray from one point to another reports a hit exactly when the segment enters the shape, outside of a band of rounding around grazing rays. The fraction lies between zero and one and is that of the first entry, zero when the segment starts inside, and the normal is the outward unit normal of the surface there; "
     "for compounds and meshes it is the nearest hit among children or triangles.",
     ["inputs"], "every shape, placement and segment, including rays parallel to axes and faces, rays that start inside, point away or end short",
     "No test casts rays at shapes at general orientations; parallel and inside rays are separate branches.",
     ["src/edyn/collision/raycast.cpp", "include/edyn/collision/raycast.hpp", "src/edyn/math/geom.cpp"],
     [("shape_raycast overloads", "src/edyn/collision/raycast.cpp"), ("intersect_ray_cylinder, intersect_ray_sphere, closest_point_line_line", "src/edyn/math/geom.cpp")],
     GEN + "analytic intersection of half spaces, balls and cylinders in extended precision")

prop("P26", "Bounding boxes and moments of inertia are those of the solid shapes",
     "The bounding box of a sphere, capsule, cylinder, box or polyhedron at any placement is the smallest that contains it; that of a plane or compound contains it, and a compound visits exactly the children whose boxes touch a given box. Transforming a box to and from world space, and unions, intersections and containment of boxes, are those of the sets of points. The moment of inertia of every "
     "shape, along any axis, is that of a solid of uniform density with the given mass: a symmetric tensor about the origin of the shape, rotated and shifted for the children of a compound.",
     ["inputs"], "every shape, size, axis, mass and placement",
     "Tests only use the inertia of boxes; an error in one axis or off-diagonal term needs an asymmetric shape, and a box that is slightly too small only loses particular collisions.",
     ["src/edyn/util/aabb_util.cpp", "include/edyn/comp/aabb.hpp", "src/edyn/dynamics/moment_of_inertia.cpp", "src/edyn/shapes/compound_shape.cpp", "include/edyn/shapes/compound_shape.hpp"],
     [("shape_aabb, aabb_to_world_space", "src/edyn/util/aabb_util.cpp"), ("moment_of_inertia, shift_moment_of_inertia", "src/edyn/dynamics/moment_of_inertia.cpp"), ("finish, visit", "include/edyn/shapes/compound_shape.hpp")],
     GEN + "support extents, integration over discs and tetrahedra in extended precision")

prop("P27", "The entity graph keeps its nodes, edges and connected components",
     "After any history of inserting and removing nodes and edges (parallel ones and loops included), removing all edges of a node, also while visiting them, changing whether a node connects, and clearing, the graph reports exactly the remaining nodes, edges, neighbors and adjacency. Connected components, reachability and traversal "
     "are those of the graph in which non-connecting nodes do not join their neighbors, but belong to every component they touch.",
     ["histories"], "every history of operations on the graph",
     "The tests build one graph of four nodes; reuse of slots, list surgery in the middle of parallel edges and non-connecting nodes need particular sequences.",
     ["include/edyn/core/entity_graph.hpp", "src/edyn/core/entity_graph.cpp", "include/edyn/core/free_list.hpp"],
     [("insert_edge, remove_edge, remove_all_edges, connected_components", "src/edyn/core/entity_graph.cpp"), ("reach, traverse, visit_edges", "include/edyn/core/entity_graph.hpp")],
     "stateful generation of operation histories against explicit lists of nodes and edges and union-find", note="Search, not proof. Runs with a stand-in for EnTT (minientt) and AddressSanitizer.")

prop("P28", "The dynamic tree finds every box that a query touches",
     "After any history of creating, moving and destroying leaves, the box stored for each leaf contains the last one given, a box query visits exactly once each leaf whose box it touches and none that is away, a ray visits those it crosses, leaves keep their entity and id, and the depth of the tree remains logarithmic.",
     ["histories"], "every history of operations on the tree, boxes of any size including flat ones",
     "Not tested; a leaf lost by one rotation only matters for the queries that needed it.",
     ["include/edyn/collision/dynamic_tree.hpp", "src/edyn/collision/dynamic_tree.cpp", "include/edyn/collision/query_tree.hpp"],
     [("insert, remove, balance, refit, move", "src/edyn/collision/dynamic_tree.cpp"), ("traverse_tree", "include/edyn/collision/query_tree.hpp")],
     "stateful generation of operation histories against exhaustive search over a list of boxes", note="Search, not proof. Runs with a stand-in for EnTT (minientt), in single (AddressSanitizer) and double precision.")

ENTT = "Search, not proof. Runs with a stand-in for EnTT (minientt), in single and double precision."
prop("P29", "Islands are the connected components of the world, and sleep as a whole",
     "After any history of creating, joining, moving, pushing, stopping, reshaping, changing the kind of and destroying bodies and joints (or clearing their components only), interleaved with steps, islands are the connected components of dynamic bodies linked by joints and contacts: each dynamic body is in exactly one, edges are in the island of their bodies, "
     "static and kinematic bodies refer to exactly the islands they touch, and no island is empty. Bodies and edges are asleep if and only if their island is, sleeping bodies do not move, static and kinematic bodies never sleep.",
     ["histories"], "every history of operations through the public interface in sequential mode",
     "Splits and merges that happen in the same update, or islands that change while being asleep, need particular histories; the tests have one split and one merge.",
     ["src/edyn/simulation/island_manager.cpp", "src/edyn/util/island_util.cpp", "src/edyn/util/rigidbody.cpp", "src/edyn/util/constraint_util.cpp", "src/edyn/core/entity_graph.cpp", "src/edyn/simulation/stepper_sequential.cpp"],
     [("init_new_nodes_and_edges, merge_islands, split_islands, set_procedural, put_islands_to_sleep", "src/edyn/simulation/island_manager.cpp"), ("wake_up_island", "src/edyn/util/island_util.cpp"), ("rigidbody_apply_kind, clear_rigidbody", "src/edyn/util/rigidbody.cpp")],
     "stateful generation of histories of a whole world against connected components by union-find", note=ENTT)

prop("P30", "Touching bodies have one contact manifold; separated ones none",
     "After each step of any such history, every pair of bodies whose bounding boxes are within the contact threshold, of which at least one is dynamic and awake, and which are allowed to collide (groups, masks, exclusions) has exactly one contact manifold, found by its pair in either order; pairs which came apart have none. Manifolds refer to live bodies, count their points (at most four), and points do "
     "not outlive their manifold. Positions and velocities remain finite, orientations unit, static bodies stay, and the bounding box of each body encloses its shape where it is.",
     ["histories"], "every history of operations through the public interface in sequential mode",
     "A pair that is lost or a point that leaks needs a body that was reshaped, moved, woken or changed kind at a particular moment.",
     ["src/edyn/collision/broadphase.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/collision/contact_manifold_map.cpp", "src/edyn/util/contact_manifold_util.cpp", "src/edyn/util/collision_util.cpp", "src/edyn/util/rigidbody.cpp", "src/edyn/sys/update_aabbs.cpp", "src/edyn/collision/should_collide.cpp", "src/edyn/dynamics/solver.cpp"],
     [("update, collide_tree, destroy_separated_manifolds", "src/edyn/collision/broadphase.cpp"), ("process_collision, create_contact_point", "src/edyn/util/collision_util.cpp"), ("rigidbody_set_shape, rigidbody_apply_kind", "src/edyn/util/rigidbody.cpp"), ("update_aabbs", "src/edyn/sys/update_aabbs.cpp")],
     "stateful generation of histories of a whole world against exhaustive tests of all pairs", note=ENTT)

prop("P31", "Bodies which touch nothing follow the equations of motion",
     "A dynamic body that touches nothing accelerates by its gravity (semi-implicit Euler), turns by its angular velocity and reacts to impulses and torques by the inverse of its mass and world-space inertia. Each update performs exactly the steps that fit in the accumulated time (at most the maximum), none while paused or if time goes backwards, calling the callbacks before and after each. Changing mass, inertia, center of mass, origin or "
     "gravity has exactly that effect: the origin and the velocity at each point remain when the center of mass moves. Kinematic bodies obtain the velocities that lead to their new placement along the shortest path. Presented transforms are those of one step before the current time.",
     ["histories", "inputs"], "every history of updates at irregular times and of these operations",
     "Tests do not run simulations other than of fixed scenes; off-center mass, negative quaternions, pauses and leftovers of time need particular histories.",
     ["src/edyn/util/rigidbody.cpp", "src/edyn/simulation/stepper_sequential.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/dynamics/solver.cpp", "src/edyn/sys/update_presentation.cpp", "src/edyn/sys/update_inertias.cpp", "src/edyn/sys/update_origins.cpp", "include/edyn/sys/apply_gravity.hpp"],
     [("make_rigidbody, rigidbody_apply_impulse, set_kinematic_orientation, apply_center_of_mass", "src/edyn/util/rigidbody.cpp"), ("stepper_sequential::update", "src/edyn/simulation/stepper_sequential.cpp"), ("integrate_velocities", "src/edyn/dynamics/island_solver.cpp"), ("update_presentation", "src/edyn/sys/update_presentation.cpp")],
     "stateful generation of histories against the equations of motion in extended precision", note=ENTT)

prop("P32", "Joints hold, drive, limit and spring as configured",
     "A joint between two bodies keeps what it constrains (pivots together, axes aligned, distances, locked degrees of freedom) within the error that one step can introduce, and only that; limits and bump stops are not exceeded by more; motors reach the configured speed unless the torque does not suffice; springs and dampers give the forces of Hooke's law and of their damping about the configured rest value, at any angle and about any axis; friction in a joint slows down and never accelerates; "
     "gravitation between bodies follows the inverse square. The state remains finite.",
     ["inputs", "histories"], "every type of joint with any frames, pivots, limits and coefficients, between bodies of any placement, kind and velocity",
     "The library has no tests of joints; errors only appear for some angle, order of bodies or combination of features.",
     ["src/edyn/constraints/point_constraint.cpp", "src/edyn/constraints/distance_constraint.cpp", "src/edyn/constraints/soft_distance_constraint.cpp", "src/edyn/constraints/hinge_constraint.cpp", "src/edyn/constraints/cvjoint_constraint.cpp", "src/edyn/constraints/cone_constraint.cpp", "src/edyn/constraints/generic_constraint.cpp", "src/edyn/constraints/gravity_constraint.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/dynamics/solver.cpp"],
     [("prepare and solve_position of each joint", "src/edyn/constraints/hinge_constraint.cpp"), ("run_island_solver, apply_solution", "src/edyn/dynamics/island_solver.cpp"), ("constraint_row_prep_cache", "include/edyn/dynamics/row_cache.hpp")],
     "generation of joints, bodies and histories against closed-form mechanics in extended precision", note=ENTT)

prop("P33", "Contacts carry, rub, roll and bounce as materials say; momentum is conserved",
     "Bodies that touch or are joined exchange momentum without creating any, and the center of mass of all goes on uniformly. Collisions of hard bodies do not increase kinetic energy, and the speed at which spheres part is the restitution of the pair times that at which they met. Boxes slide as Coulomb friction says and stick below its limit, spheres and cylinders are slowed by rolling and spinning friction, by coefficients mixed from both materials or taken from the table of mixtures. "
     "Bodies come to rest on the ground without sinking, stacks stand. The same history gives bit by bit the same result, on one or on many threads.",
     ["inputs", "histories"], "every world of bodies of all shapes, materials and joints within a moderate range of sizes, masses and speeds, in sequential and sequential-multithreaded mode",
     "There are no tests of materials, nor of the solver with more than one body.",
     ["src/edyn/constraints/contact_constraint.cpp", "src/edyn/constraints/contact_extras_constraint.cpp", "src/edyn/dynamics/restitution_solver.cpp", "src/edyn/dynamics/island_solver.cpp", "include/edyn/dynamics/material_mixing.hpp", "src/edyn/util/collision_util.cpp", "src/edyn/util/insert_material_mixing.cpp", "src/edyn/constraints/constraint_row_friction.cpp"],
     [("prepare", "src/edyn/constraints/contact_extras_constraint.cpp"), ("solve_restitution", "src/edyn/dynamics/restitution_solver.cpp"), ("material_mix_*", "include/edyn/dynamics/material_mixing.hpp"), ("run_island_solver_seq_mt", "src/edyn/dynamics/island_solver.cpp")],
     "generation of whole worlds against conservation laws and closed-form mechanics, and differential execution of twin worlds", note=ENTT)

prop("P34", "Scene queries find every body in the way, where it is, and answer once",
     "A ray cast into the scene hits the body which is nearest along it among all bodies that are not ignored, at the point where a test against that body alone finds it, or nothing if no body is in its way. A box query reports every body, dynamic or not as asked, whose box intersects it, and the islands of these, each once, of those that exist. "
     "This holds after any history of creating, changing, moving and destroying bodies followed by a step. In asynchronous mode every request is answered exactly once, also when nothing is found, with entities of the user's registry, and a query for an area of interest reports whole islands with their joints.",
     ["inputs", "histories", "schedules"], "every world of bodies of all shapes and kinds, every ray, box and set of ignored bodies, every interleaving of requests with updates of both threads",
     "There are no tests of queries of the whole scene.",
     ["src/edyn/collision/raycast.cpp", "src/edyn/collision/raycast_service.cpp", "src/edyn/collision/broadphase.cpp", "include/edyn/collision/query_aabb.hpp", "src/edyn/collision/query_aabb.cpp", "src/edyn/simulation/simulation_worker.cpp", "src/edyn/simulation/stepper_async.cpp"],
     [("raycast, raycast_async", "src/edyn/collision/raycast.cpp"), ("raycast_service::update", "src/edyn/collision/raycast_service.cpp"), ("query_procedural, query_non_procedural, query_islands, move_aabbs", "src/edyn/collision/broadphase.cpp"), ("on_query_aabb_of_interest_request", "src/edyn/simulation/simulation_worker.cpp")],
     "stateful generation of histories and schedules of a whole world against a search of all bodies one by one", note=ENTT)

prop("P35", "Asynchronous mode mirrors the world and steps it as sequential mode does",
     "In asynchronous mode the registry of the simulation and that of the user agree once messages are exchanged: each holds the same bodies, joints, contact manifolds, contact points and islands, with the same shared components and values, whatever was created, changed, moved or destroyed in between and however updates of both threads interleave, and nothing remains of what was destroyed. "
     "Bodies which do not touch move as in sequential mode under the same history of operations and steps.",
     ["histories", "schedules"], "every history of operations on bodies, joints and settings and every interleaving with updates of the main and of the simulation thread, except that what the simulation also writes is not written by the user before the messages about it have arrived",
     "There are no tests of asynchronous mode.",
     ["src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/entity_map.hpp", "include/edyn/replication/map_child_entity.hpp", "src/edyn/util/rigidbody.cpp", "src/edyn/util/exclude_collision.cpp", "src/edyn/parallel/message_dispatcher.cpp"],
     [("on_update_entities, sync, update", "src/edyn/simulation/simulation_worker.cpp"), ("on_step_update, sync", "src/edyn/simulation/stepper_async.cpp"), ("registry_operation::execute", "include/edyn/replication/registry_operation.hpp"), ("map_child_entity", "include/edyn/replication/map_child_entity.hpp")],
     "stateful generation of histories and of thread interleavings, comparing both registries and a twin world in sequential mode", note=ENTT)

prop("P36", "Server and client agree on what is of interest, own, input and time",
     "Once a network which delays, reorders or loses unreliable packets is quiet, the client has exactly the bodies and joints that intersect its area of interest on the server (whole islands) and those it created, each once, with the same kind, shape, mass, inertia, center of mass, material, filter and placement and with derived values that fit them, and the server has each of the client's, whoever created, moved, joined or destroyed what meanwhile and however the area of interest moved. "
     "Actions of a client are executed on the server exactly once and in order, its last input and the last value of replicated components of the application arrive, and the clocks are synchronized within half the latency.",
     ["histories", "schedules", "faults"], "every history of operations on both sides and every delay, loss and reordering of packets, with extrapolation disabled, in sequential mode, with fewer than 256 entities per packet",
     "Tests of networking cover one export and import of a snapshot and the history of inputs.",
     ["src/edyn/networking/sys/client_side.cpp", "src/edyn/networking/sys/server_side.cpp", "src/edyn/networking/sys/update_aabbs_of_interest.cpp", "src/edyn/networking/util/clock_sync.cpp", "src/edyn/networking/util/process_update_entity_map_packet.cpp", "src/edyn/networking/util/snap_to_pool_snapshot.cpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "include/edyn/networking/util/server_snapshot_exporter.hpp", "include/edyn/networking/util/client_snapshot_importer.hpp", "include/edyn/networking/util/client_snapshot_exporter.hpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/networking/packet/registry_snapshot.hpp"],
     [("process_packet(create_entity), process_packet(destroy_entity), update_network_client", "src/edyn/networking/sys/client_side.cpp"), ("process_packet(create_entity), process_aabb_of_interest_entities_entered, dispatch_actions", "src/edyn/networking/sys/server_side.cpp"), ("update_aabbs_of_interest", "src/edyn/networking/sys/update_aabbs_of_interest.cpp"), ("clock_sync_process_time_response", "src/edyn/networking/util/clock_sync.cpp"), ("merge_action_history", "include/edyn/networking/util/server_snapshot_importer.hpp")],
     "stateful generation of sessions of a server and a client over a simulated network with delays, loss and reordering, against a model of what exists and is of interest", note=ENTT)

prop("P37", "A paged triangle mesh behaves like one mesh, whatever is loaded",
     "A paged triangle mesh made of a list of triangles holds each triangle in exactly one page of at most the given size, with the normals, edge convexity and materials the triangle has in the whole mesh. Written to a file (with pages embedded or in files of their own, in any directory) and read again, all pages have the same content, loaded in any order, from several threads or again after being unloaded. "
     "The page cache loads the pages of the region asked for, keeps no more than the given number of vertices, drops the least recently visited pages first, and pages loaded later have the thickness set earlier. Contacts, ray intersections, friction, restitution and materials are those of the same triangles in one mesh.",
     ["inputs", "histories", "schedules"], "every manifold mesh of non-degenerate triangles, every page size and cache size, every history of visits, loads and changes",
     "One test serializes one small mesh; the page cache, page boundaries, and contacts with paged meshes are not tested.",
     ["src/edyn/shapes/paged_triangle_mesh.cpp", "include/edyn/shapes/paged_triangle_mesh.hpp", "include/edyn/shapes/create_paged_triangle_mesh.hpp", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp", "include/edyn/serialization/paged_triangle_mesh_s11n.hpp", "include/edyn/collision/collide.hpp", "src/edyn/collision/collide/collide_polyhedron_mesh.cpp", "src/edyn/util/paged_mesh_load_reporting.cpp"],
     [("visit_triangles, visit_submeshes, get_submesh, unload_least_recently_visited_node", "src/edyn/shapes/paged_triangle_mesh.cpp"), ("create_paged_triangle_mesh", "include/edyn/shapes/create_paged_triangle_mesh.hpp"), ("paged_triangle_mesh_file_input_archive::load, get_submesh_path", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp")],
     "generated meshes, page sizes and histories of visits against a list of all triangles and a model of the page cache; differential contacts and rays against the same triangles in one mesh", note=ENTT)

prop("P38", "Contacts with triangle meshes and compounds match their parts",
     "Every contact of a sphere, capsule, cylinder, box or polyhedron with a triangle mesh joins a point of the surface of the shape and a point of the reported face, edge or vertex of the mesh along a unit normal, at the reported distance, no deeper than the thickness of the mesh; there is none with a mesh which is out of reach. A flat mesh acts like a plane: internal edges never tilt a contact, and a shape which touches it has one. A capsule or cylinder which lies on several triangles is supported by the first and the last of them. "
     "A compound shape collides with a convex shape, a plane, a mesh or another compound exactly like its children do, with the index of the child in the contact, also when they are only near each other, and in either order of the arguments.",
     ["inputs"], "every mesh of non-degenerate triangles, every convex shape and compound, every placement, up to the tolerance with which features are recognised",
     "The tests of collision cover a few fixed placements; no test places a capsule, polyhedron or compound on a mesh.",
     ["src/edyn/collision/collide/collide_sphere_mesh.cpp", "src/edyn/collision/collide/collide_capsule_mesh.cpp", "src/edyn/collision/collide/collide_cylinder_mesh.cpp", "src/edyn/collision/collide/collide_box_mesh.cpp", "src/edyn/collision/collide/collide_polyhedron_mesh.cpp", "src/edyn/collision/collide/collide_compound_mesh.cpp", "src/edyn/collision/collide/collide_compound_plane.cpp", "src/edyn/collision/collide/collide_compound_compound.cpp", "include/edyn/collision/collide.hpp", "src/edyn/math/triangle.cpp", "src/edyn/shapes/compound_shape.cpp"],
     [("collide(capsule, triangle_mesh)", "src/edyn/collision/collide/collide_capsule_mesh.cpp"), ("collide(cylinder, triangle_mesh)", "src/edyn/collision/collide/collide_cylinder_mesh.cpp"), ("collide(compound_shape, T)", "include/edyn/collision/collide.hpp"), ("collide(compound, compound)", "src/edyn/collision/collide/collide_compound_compound.cpp")],
     "generated meshes, compounds and placements; contacts checked against the geometry of the reported features, an infinite plane, interval arithmetic on rows of triangles, and the contacts of the children", note=ENTT)

prop("P39", "Convex meshes derive right topology and load from OBJ in place",
     "After a convex mesh is initialised from vertices and polygonal faces, also with vertices in the middle of edges, its face normals point outwards, every edge is listed once along the first of its two faces, neighbours of a vertex are those it shares an edge with, and every face normal and edge direction is represented by exactly one relevant one within the tolerance. Deriving again after a change forgets the previous shape, a rotated mesh is the mesh rotated, and a convex mesh is reported valid. "
     "Polyhedra and compounds loaded from an OBJ text or file have one part per object, around its centroid, such that parts placed at their centers coincide with the scaled, rotated and moved objects; a missing file gives nothing.",
     ["inputs", "histories"], "every convex polyhedron of non-degenerate faces and every OBJ document made of such objects",
     "No test builds a convex mesh with collinear vertices, updates one, or loads a polyhedron.",
     ["src/edyn/shapes/convex_mesh.cpp", "include/edyn/shapes/convex_mesh.hpp", "src/edyn/util/shape_io.cpp", "src/edyn/shapes/compound_shape.cpp", "include/edyn/shapes/compound_shape.hpp", "src/edyn/sys/update_rotated_meshes.cpp"],
     [("calculate_normals, calculate_edges, calculate_neighbors, calculate_relevant_faces, calculate_relevant_edges", "src/edyn/shapes/convex_mesh.cpp"), ("load_convex_polyhedrons_from_obj, load_compound_shape_from_obj", "src/edyn/util/shape_io.cpp"), ("compound_shape::finish", "src/edyn/shapes/compound_shape.cpp")],
     "generated convex solids with subdivided edges, histories of changes, and OBJ documents against the generated solid", note=ENTT)
