From 233fcb129f29569a6cff773da5dea59f32159bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:25 +0000
Subject: [PATCH 001/116] fix: angle_between must measure along the shortest
 path and never be NaN

---
 src/edyn/math/quaternion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 75b8553..e2f12c0 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -40,8 +40,10 @@ quaternion shortest_arc(const vector3 &v0, const vector3 &v1) noexcept {
 scalar angle_between(const quaternion &q0, const quaternion &q1) noexcept {
     auto s = std::sqrt(length_sqr(q0) * length_sqr(q1));
     EDYN_ASSERT(std::abs(s) > EDYN_EPSILON);
-    auto d = dot(q0, q1);
-    return std::acos(d / s) * scalar(2);
+    // A quaternion and its negation represent the same rotation, thus take the
+    // absolute value to get the shortest path. Rounding could push it past one.
+    auto d = std::abs(dot(q0, q1));
+    return std::acos(std::min(d / s, scalar(1))) * scalar(2);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 7e7c3d4d29083aa357c364a81035d93683e670f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 002/116] fix: closest_point_box_inside must return the
 distance to the nearest face

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..bdd7418 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1038,7 +1038,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From cee7f98122e4665b4a6e8e7dd919cb651e867f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 003/116] fix: report one closest point if a segment
 degenerates into a point

---
 src/edyn/math/geom.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index bdd7418..f9f3138 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
-- 
2.43.0


From ae3847768c4c187a7802bd88c84742a914d9c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 004/116] fix: second pair of closest points of parallel
 segments must correspond to each other

---
 src/edyn/math/geom.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index f9f3138..e3338e8 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -130,12 +130,9 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // Point in `s2` closest to `s1(sp)`. It goes in the opposite
+                // direction of `s1` if the segments are antiparallel.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
-- 
2.43.0


From f7c086808ddcb89b2cd57d9bf3e8a7eff3419724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 005/116] fix: parameter of tangent line-circle intersection

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index e3338e8..1cec83e 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -211,7 +211,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From 45f9d7c9572552c378ce698d3fe5e138a75e1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 006/116] fix: concentric circles of different radius do not
 intersect

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 1cec83e..6dc6ce0 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -449,7 +449,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From 304ffbddfbba8b6fdf4c2a756b6397f9034737f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:37 +0000
Subject: [PATCH 007/116] fix: closest points of parallel circles that do not
 intersect

---
 src/edyn/math/geom.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 6dc6ce0..056de09 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -563,9 +563,10 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                // Also in A's space.
+                dirB[norm_idxA] = 0;
+                dirB[tan_idxA0] = dir.x;
+                dirB[tan_idxA1] = dir.y;
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
@@ -577,10 +578,10 @@ scalar closest_point_circle_circle(
                 return distance_sqr(rA0, rB0);
             } else {
                 // Concentric. Return a pair of points that lie on the same line
-                // crossing the center of the circles, which are both at the
-                // origin in this case.
+                // crossing the center of the circles, which are both on the
+                // axis of A in this case.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
-- 
2.43.0


From 1f44e03f18036e3f4dfa887d9a364702f13ced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:37 +0000
Subject: [PATCH 008/116] fix: basis of second circle must follow its own axis

---
 src/edyn/math/geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 056de09..6c33f63 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -603,7 +603,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -623,7 +623,7 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
-- 
2.43.0


From 5beed3f35247e911517778f7a287156ed16d65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:52 +0000
Subject: [PATCH 009/116] fix: a line through a corner of an AABB intersects it

---
 src/edyn/math/geom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 6c33f63..544896e 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1077,7 +1077,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.x / d.x;
         auto qy = p0.y + d.y * t;
 
-        if (qy >= aabb_min.y && qy < aabb_max.y) {
+        if (qy >= aabb_min.y && qy <= aabb_max.y) {
             s0 = t;
             ++num_points;
         }
@@ -1087,7 +1087,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.x / d.x;
         auto qy = p0.y + d.y * t;
 
-        if (qy > aabb_min.y && qy <= aabb_max.y) {
+        if (qy >= aabb_min.y && qy <= aabb_max.y) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1106,7 +1106,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx >= aabb_min.x && qx < aabb_max.x) {
+        if (qx >= aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1125,7 +1125,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx > aabb_min.x && qx <= aabb_max.x) {
+        if (qx >= aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
-- 
2.43.0


From a6189c72cb7523a1b05a035d083a1163ddcc5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 010/116] fix: closest_point_convex_polygon must handle points
 outside an acute vertex

---
 src/edyn/util/shape_util.cpp | 49 ++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..059bec7 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -240,7 +240,11 @@ bool sort_triangle_ccw(vector2 &v0, vector2 &v1, vector2 &v2) {
 bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
                                   const std::vector<size_t> &indices,
                                   const vector2 &p, vector2 &closest) {
-    // Find Voronoi region which contains `p`.
+    // The closest point lies on one of the edges which have `p` in front of
+    // them. There can be more than one in the Voronoi region of a vertex.
+    auto outside = false;
+    auto min_dist_sqr = EDYN_SCALAR_MAX;
+
     for (size_t i = 0; i < indices.size(); ++i) {
         auto j = (i + 1) % indices.size();
         auto i0 = indices[i];
@@ -258,35 +262,26 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
             continue;
         }
 
-        if (dot(p - v0, e0) > 0) {
-            // Point is past the first boundary of the Voronoi region of
-            // this edge.
-            if (dot(p - v1, e0) < 0) {
-                // Point is before the second boundary of the Voronoi region
-                // of this edge, thus this is the Voronoi region where it belongs.
-                auto t = dot(p - v0, e0) / dot(e0, e0);
-                closest = lerp(v0, v1, t);
-                return true;
-            } else {
-                // Point is past the second boundary of the Voronoi region
-                // of this edge. If it's also before the first boundary of
-                // the Voronoi region on the next edge, it means the Voronoi
-                // region of the vertex connecting these two edges contains
-                // the point.
-                auto k = (i + 2) % indices.size();
-                auto i2 = indices[k];
-                auto &v2 = vertices[i2];
-                auto e1 = v2 - v1;
-
-                if (dot(p - v1, e1) < 0) {
-                    closest = v1;
-                    return true;
-                }
-            }
+        auto len_sqr = dot(e0, e0);
+
+        if (!(len_sqr > 0)) {
+            // Degenerate edge.
+            continue;
         }
+
+        auto t = clamp_unit(dot(p - v0, e0) / len_sqr);
+        auto q = lerp(v0, v1, t);
+        auto dist_sqr = length_sqr(p - q);
+
+        if (dist_sqr < min_dist_sqr) {
+            min_dist_sqr = dist_sqr;
+            closest = q;
+        }
+
+        outside = true;
     }
 
-    return false;
+    return outside;
 }
 
 bool closest_point_polygon(const support_polygon &polygon,
-- 
2.43.0


From a4423f5a34855b9451b12cb7b074d9b2ee3ea8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 011/116] fix: point_inside_convex_polygon must test the
 closing edge

---
 src/edyn/util/shape_util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 059bec7..cb43dfb 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,10 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
+        auto j = (i + 1) % vertices.size();
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[j] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From 6ac51f551a1725120bc21e7a34a02700b40bbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 012/116] fix: support feature of triangle must output the
 greatest projection

---
 src/edyn/math/triangle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edyn/math/triangle.cpp b/src/edyn/math/triangle.cpp
index f338737..9c386a4 100644
--- a/src/edyn/math/triangle.cpp
+++ b/src/edyn/math/triangle.cpp
@@ -62,6 +62,7 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
                     } else {
                         tri_feature_index = 1;
                     }
+                    projection = std::max(proj_i, projection);
                 } else {
                     // If this is the second vertex (index 1), the previous could
                     // only have been vertex 0, thus this must be edge 0.
-- 
2.43.0


From b3039d5c53035ea2b39adf02e7f4da6d06d456f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 013/116] fix: find the middle point among collinear contact
 points

---
 src/edyn/math/geom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 544896e..be201b7 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -919,21 +919,21 @@ insertion_point_result insertion_point_index(const vector3 *points,
             // Points are collinear. Replace point in the middle.
             auto d0 = dot(points[1] - points[0], points[2] - points[0]);
 
-            if (d0 > 0 && d0 < 1) {
+            if (d0 > 0 && d0 < distance_sqr(points[0], points[2])) {
                 // Point 1 is between 0 and 2.
                 return {point_insertion_type::replace, 1};
             }
 
             auto d1 = dot(points[0] - points[1], points[2] - points[1]);
 
-            if (d1 > 0 && d1 < 1) {
+            if (d1 > 0 && d1 < distance_sqr(points[1], points[2])) {
                 // Point 0 is between 1 and 2.
                 return {point_insertion_type::replace, 0};
             }
 
             auto d2 = dot(points[2] - points[0], points[1] - points[0]);
 
-            if (d2 > 0 && d2 < 1) {
+            if (d2 > 0 && d2 < distance_sqr(points[0], points[1])) {
                 // Point 2 is between 0 and 1.
                 return {point_insertion_type::replace, 2};
             }
-- 
2.43.0


From f274e0f552886b814a5e3290ec8dc08597f8fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:53 +0000
Subject: [PATCH 014/116] fix: convex hull of thin vertical sets must keep far
 vertices

---
 src/edyn/util/shape_util.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index cb43dfb..aa951ec 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -126,6 +126,19 @@ size_t split_hull_edge(const std::vector<vector2> &points,
     return 0;
 }
 
+static
+scalar calculate_extent_y(const std::vector<vector2> &points) {
+    auto min_y = EDYN_SCALAR_MAX;
+    auto max_y = -EDYN_SCALAR_MAX;
+
+    for (auto &p : points) {
+        min_y = std::min(p.y, min_y);
+        max_y = std::max(p.y, max_y);
+    }
+
+    return max_y - min_y;
+}
+
 std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, scalar tolerance) {
     if (points.size() <= 3) {
         if (points.size() == 3) {
@@ -164,8 +177,12 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 
     auto hull = std::vector<size_t>();
 
-    if (pt_max.x - pt_min.x < tolerance) {
-        // Point set is a vertical sliver. Return a vertical segment.
+    const auto extent_x = pt_max.x - pt_min.x;
+    const auto extent_y = calculate_extent_y(points);
+
+    if (extent_x < extent_y) {
+        // Start with the extreme points along the axis of greatest extent.
+        // Vertices of a thin vertical set could be missed otherwise.
         pt_min = vector2_one * EDYN_SCALAR_MAX;
         pt_max = vector2_one * -EDYN_SCALAR_MAX;
 
@@ -182,9 +199,12 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
             }
         }
 
-        hull.push_back(pt_max_idx);
-        hull.push_back(pt_min_idx);
-        return hull;
+        if (extent_x < tolerance) {
+            // Point set is a vertical sliver. Return a vertical segment.
+            hull.push_back(pt_max_idx);
+            hull.push_back(pt_min_idx);
+            return hull;
+        }
     }
 
     hull.push_back(pt_max_idx);
-- 
2.43.0


From 6c97527a398e65e723612797f9fee7d092e60358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:20 +0000
Subject: [PATCH 015/116] fix: interpolate properties linearly along edges of a
 triangle mesh

---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From 350b433767c0c5763d32926df195c5fef01773e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:54 +0000
Subject: [PATCH 016/116] fix: name of object read from obj file must not
 include the separator

---
 src/edyn/util/shape_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_io.cpp b/src/edyn/util/shape_io.cpp
index e5d1e1d..dc4a006 100644
--- a/src/edyn/util/shape_io.cpp
+++ b/src/edyn/util/shape_io.cpp
@@ -90,8 +90,8 @@ void load_meshes_from_obj_stream(Stream &stream,
                 index_offset += mesh.vertices.size();
                 meshes.emplace_back(std::move(mesh));
             }
-            auto iss = std::istringstream(line.substr(pos_space, line.size() - pos_space));
-            mesh.name = iss.str();
+            // Do not include the separator in the name.
+            mesh.name = line.substr(pos_space + 1);
         } else if (cmd == "v") {
             auto iss = std::istringstream(line.substr(pos_space, line.size() - pos_space));
             auto v = read_vector3(iss);
-- 
2.43.0


From a378dfc8c1796684009c33856750646bbbff1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 017/116] fix: unordered_pair must be strictly ordered
 regardless of element order

---
 include/edyn/core/unordered_pair.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..db9cf08 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,17 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare the smallest elements first so the result does not depend on
+        // the order of elements and is a strict weak ordering.
+        const auto &min0 = second < first ? second : first;
+        const auto &max0 = second < first ? first : second;
+        const auto &min1 = other.second < other.first ? other.second : other.first;
+        const auto &max1 = other.second < other.first ? other.first : other.second;
+
+        if (min0 == min1) {
+            return max0 < max1;
         }
-        if (first == other.first) {
-            return second < other.second;
-        }
-        return first < other.first;
+        return min0 < min1;
     }
 };
 
-- 
2.43.0


From a1483248041adf6ea232bf8f68a3a95894958c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 018/116] fix: allow bumping a component index already present
 in a full exporter_modified_components

---
 include/edyn/networking/comp/exporter_modified_components.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/networking/comp/exporter_modified_components.hpp b/include/edyn/networking/comp/exporter_modified_components.hpp
index 426f24b..0ec1dfd 100644
--- a/include/edyn/networking/comp/exporter_modified_components.hpp
+++ b/include/edyn/networking/comp/exporter_modified_components.hpp
@@ -28,7 +28,6 @@ struct exporter_modified_components {
     }
 
     void bump_index(uint16_t index) {
-        EDYN_ASSERT(count < NumComponents);
         bool found = false;
 
         for (unsigned i = 0; i < count; ++i) {
@@ -39,6 +38,7 @@ struct exporter_modified_components {
         }
 
         if (!found) {
+            EDYN_ASSERT(count < NumComponents);
             entry[count++] = {index, duration};
         }
     }
-- 
2.43.0


From 5bf1e25ffb4efe6caaafcad7cab8b8c04c31fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 019/116] fix: serialize the id of a material

---
 include/edyn/comp/material.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/comp/material.hpp b/include/edyn/comp/material.hpp
index dd37ab6..2292d10 100644
--- a/include/edyn/comp/material.hpp
+++ b/include/edyn/comp/material.hpp
@@ -38,6 +38,7 @@ void serialize(Archive &archive, material &m) {
     archive(m.roll_friction);
     archive(m.stiffness);
     archive(m.damping);
+    archive(m.id);
 }
 
 }
-- 
2.43.0


From 3cc41c68314c44c9c4a7cd353ee4b5c0100f9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:51 +0000
Subject: [PATCH 020/116] fix: worker stopped before its thread starts must not
 run forever

---
 include/edyn/parallel/worker.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..e9f13c5 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,8 +18,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -29,6 +27,9 @@ public:
                 break;
             }
         }
+
+        // Leave it ready to be run again.
+        m_running = true;
     }
 
     void once() {
@@ -53,7 +54,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From b40736738d89405de7d7729ef19346953019dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 021/116] fix: worker must count a job before it can be taken
 from the queue

---
 include/edyn/parallel/worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index e9f13c5..56663cf 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,8 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
+        ++m_size; // Count it before it can be taken from the queue.
         m_queue.push(j);
-        ++m_size;
     }
 
     void run() {
@@ -42,7 +42,7 @@ public:
 
     void stop() {
         m_running = false;
-        m_queue.push(job::noop()); // Unblock queue with a no-op job.
+        push_job(job::noop()); // Unblock queue with a no-op job.
     }
 
     size_t size() {
-- 
2.43.0


From 4a3cc61088ade162238b0b3958ae243ebb3d5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 022/116] fix: map read from an archive must not keep its
 previous elements

---
 include/edyn/serialization/std_s11n.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..a6f3376 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -192,6 +192,7 @@ void serialize(Archive &archive, std::map<K, V> &map) {
     archive(size);
 
     if constexpr(Archive::is_input::value) {
+        map.clear();
         auto pair = std::pair<K, V>{};
         for (size_type i = 0; i < size; ++i) {
             archive(pair);
-- 
2.43.0


From d89864d8ad495c1a5124545091e131c8abf25e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 023/116] fix: visit the variant in serialization_sizeof

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index a6f3376..5c45467 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -143,7 +143,7 @@ size_t serialization_sizeof(const std::variant<Ts...>& var) {
     size_t content_size;
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
-- 
2.43.0


From f0620df95fa3dcecb5d60d5af2a21ffb997e586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 024/116] fix: do not read uninitialised bits if a vector of
 bool is truncated

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 5c45467..fad088d 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -65,7 +65,7 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set = 0;
             archive(set);
             for (size_t j = 0; j < count; ++j) {
                 vector[start + j] = (set & (1 << j)) > 0;
-- 
2.43.0


From 725450ef438c8fcc52a7ace5bbb2b02d5ff41c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 025/116] fix: bool read from memory must always be a valid
 value

---
 include/edyn/serialization/memory_archive.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/edyn/serialization/memory_archive.hpp b/include/edyn/serialization/memory_archive.hpp
index eec77e2..aba239c 100644
--- a/include/edyn/serialization/memory_archive.hpp
+++ b/include/edyn/serialization/memory_archive.hpp
@@ -58,8 +58,13 @@ protected:
             return;
         }
 
-        auto* buff = reinterpret_cast<const T*>(m_buffer + m_position);
-        t = *buff;
+        if constexpr(std::is_same_v<T, bool>) {
+            // Any other byte value is not a valid `bool`.
+            t = m_buffer[m_position] != 0;
+        } else {
+            auto* buff = reinterpret_cast<const T*>(m_buffer + m_position);
+            t = *buff;
+        }
         m_position += sizeof(T);
     }
 
-- 
2.43.0


From 0e078fa2b6a647ac281f0eac5f5f3a52a0daec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:50 +0000
Subject: [PATCH 026/116] fix: allow assigning mass and inertia to a rigid body
 that is not dynamic

---
 src/edyn/util/rigidbody.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..2585be3 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -300,15 +300,19 @@ bool validate_rigidbody(entt::registry &registry, entt::entity &entity) {
 void set_rigidbody_mass(entt::registry &registry, entt::entity entity, scalar mass) {
     EDYN_ASSERT(mass > EDYN_EPSILON && mass < large_scalar);
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
-    registry.replace<edyn::mass>(entity, mass);
-    registry.replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
+    // Non-dynamic rigid bodies do not have mass until it's assigned here.
+    registry.emplace_or_replace<edyn::mass>(entity, mass);
+    registry.emplace_or_replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
 }
 
 void set_rigidbody_inertia(entt::registry &registry, entt::entity entity, const matrix3x3 &inertia) {
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
     auto I_inv = inverse_matrix_symmetric(inertia);
-    registry.replace<edyn::inertia>(entity, inertia);
-    registry.replace<edyn::inertia_inv>(entity, I_inv);
+    registry.emplace_or_replace<edyn::inertia>(entity, inertia);
+    registry.emplace_or_replace<edyn::inertia_inv>(entity, I_inv);
+
+    auto basis = to_matrix3x3(registry.get<orientation>(entity));
+    registry.emplace_or_replace<inertia_world_inv>(entity, basis * I_inv * transpose(basis));
 }
 
 void set_rigidbody_friction(entt::registry &registry, entt::entity entity, scalar friction) {
-- 
2.43.0


From 272081662a2ae8cf50a120be63dc01de1fec7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:03 +0000
Subject: [PATCH 027/116] fix: rigid body not yet in an island must not be
 assigned a null island when its kind changes

---
 src/edyn/simulation/island_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index c0f3412..8456a40 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -652,8 +652,12 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
     } else {
         if (auto *resident = m_registry->try_get<island_resident>(entity)) {
             entt::sparse_set island_entities;
-            island_entities.push(resident->island_entity);
-            resident->island_entity = entt::null;
+
+            // The entity might not have been inserted into an island yet.
+            if (resident->island_entity != entt::null) {
+                island_entities.push(resident->island_entity);
+                resident->island_entity = entt::null;
+            }
 
             m_registry->emplace<multi_island_resident>(entity, std::move(island_entities));
             m_registry->remove<island_resident>(entity);
-- 
2.43.0


From a1f76c283621366ec030e7bae2ac93f0e66833de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 028/116] fix: pivot on plane in sphere-plane collision was
 mirrored and separated pairs within the threshold were ignored

---
 src/edyn/collision/collide/collide_sphere_plane.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_sphere_plane.cpp b/src/edyn/collision/collide/collide_sphere_plane.cpp
index 8e40c03..ad418ff 100644
--- a/src/edyn/collision/collide/collide_sphere_plane.cpp
+++ b/src/edyn/collision/collide/collide_sphere_plane.cpp
@@ -9,12 +9,12 @@ void collide(const sphere_shape &sphere, const plane_shape &plane,
     auto d = ctx.posA - center;
     auto l = dot(normal, d);
 
-    if (l > sphere.radius) {
+    if (l > sphere.radius + ctx.threshold) {
         return;
     }
 
     auto pivotA = rotate(conjugate(ctx.ornA), -normal * sphere.radius);
-    auto pivotB = rotate(conjugate(ctx.ornB), d - normal * l - center);
+    auto pivotB = rotate(conjugate(ctx.ornB), ctx.posA - normal * l - ctx.posB);
     auto distance = l - sphere.radius;
     result.add_point({pivotA, pivotB, plane.normal, distance, contact_normal_attachment::normal_on_B});
 }
-- 
2.43.0


From 2cb9d275c0c0412b0b3ee9295138cbf5a8915734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 029/116] fix: uninitialised edge projections used when no pair
 of edges of two polyhedra generates a face

---
 src/edyn/collision/collide/collide_polyhedron_mesh.cpp       | 3 ++-
 src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
index e198db0..34b0f95 100644
--- a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
@@ -71,7 +71,8 @@ static void collide_polyhedron_triangle(
 
     // Edge vs edge.
     scalar min_edge_dist = -EDYN_SCALAR_MAX;
-    scalar edge_projection_poly, edge_projection_tri;
+    // Edge distance must be ignored if no pair of edges generates a face.
+    scalar edge_projection_poly = -EDYN_SCALAR_MAX, edge_projection_tri = 0;
     vector3 edge_dir;
 
     for (auto edge_idxA = 0u; edge_idxA < poly_mesh.num_edges(); ++edge_idxA) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
index 444743d..1182d4d 100644
--- a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
@@ -97,7 +97,8 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
 
     // Edge vs edge.
     scalar min_edge_dist = -EDYN_SCALAR_MAX;
-    scalar edge_projectionA, edge_projectionB;
+    // Edge distance must be ignored if no pair of edges generates a face.
+    scalar edge_projectionA = -EDYN_SCALAR_MAX, edge_projectionB = 0;
     vector3 edge_dir;
 
     for (auto edge_idxA = 0u; edge_idxA < meshA.num_edges(); ++edge_idxA) {
-- 
2.43.0


From 6082d3ad02d8ecf566341a187b7ed936236d9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 030/116] fix: polyhedron-cylinder cap contacts assumed
 cylinder along x and produced NaN for a single vertex

---
 .../collide/collide_polyhedron_cylinder.cpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
index d26b8d8..81c0ed7 100644
--- a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
@@ -205,12 +205,12 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
         size_t num_edge_intersections = 0;
 
         const auto sizeA = polygon.hull.size();
-        const auto limitA = sizeA == 2 ? 1 : sizeA;
+        // There are no edges if the feature is a vertex.
+        const auto limitA = sizeA < 3 ? sizeA - 1 : sizeA;
 
         // Check if circle and polygon edges intersect.
         for (size_t i = 0; i < limitA; ++i) {
-            // Transform vertices to `shB` (cylinder) space. The cylinder axis
-            // is the x-axis.
+            // Transform vertices to `shB` (cylinder) space.
             auto idx0A = polygon.hull[i];
             auto idx1A = polygon.hull[(i + 1) % sizeA];
             auto v0A = polygon.vertices[idx0A];
@@ -220,8 +220,10 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
             auto v1B = to_object_space(v1A, posB, ornB);
 
             scalar s[2];
-            auto num_points = intersect_line_circle(to_vector2_zy(v0B),
-                                                    to_vector2_zy(v1B),
+            // Project points onto plane orthogonal to cylinder axis.
+            auto v0B_proj = vector2{v0B[cyl_ax_idx_ortho0], v0B[cyl_ax_idx_ortho1]};
+            auto v1B_proj = vector2{v1B[cyl_ax_idx_ortho0], v1B[cyl_ax_idx_ortho1]};
+            auto num_points = intersect_line_circle(v0B_proj, v1B_proj,
                                                     shB.radius, s[0], s[1]);
 
             for (size_t j = 0; j < num_points; ++j) {
-- 
2.43.0


From 1b73c6dc580e1f11b174d06936bd3b620ea9016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:24 +0000
Subject: [PATCH 031/116] fix: cross product of nearly parallel edges of
 polyhedra must not be used as a separating axis

---
 src/edyn/collision/collide/collide_polyhedron_box.cpp       | 6 +++++-
 src/edyn/collision/collide/collide_polyhedron_mesh.cpp      | 6 +++++-
 .../collision/collide/collide_polyhedron_polyhedron.cpp     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_box.cpp b/src/edyn/collision/collide/collide_polyhedron_box.cpp
index 37cc33f..6ce82a0 100644
--- a/src/edyn/collision/collide/collide_polyhedron_box.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_box.cpp
@@ -94,7 +94,11 @@ void collide(const polyhedron_shape &shA, const box_shape &shB,
             {
                 auto dir = cross(edge_dirA, edge_dirB);
 
-                if (try_normalize(dir)) {
+                // Ignore edges which are nearly parallel since the direction of
+                // their cross product is meaningless.
+                const auto parallel = !(length_sqr(dir) > EDYN_EPSILON * length_sqr(edge_dirA) * length_sqr(edge_dirB));
+
+                if (!parallel && try_normalize(dir)) {
                     // Make direction point outside of shape A.
                     if (dot(verticesA[0], dir) < 0) {
                         dir *= -1;
diff --git a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
index 34b0f95..6ca5344 100644
--- a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
@@ -91,7 +91,11 @@ static void collide_polyhedron_triangle(
             if (edges_generate_minkowski_face(normals[0], normals[1], tri_normal, -tri_normal, poly_edge, tri_edge)) {
                 auto dir = cross(poly_edge, tri_edge);
 
-                if (try_normalize(dir)) {
+                // Ignore edges which are nearly parallel since the direction of
+                // their cross product is meaningless.
+                const auto parallel = !(length_sqr(dir) > EDYN_EPSILON * length_sqr(poly_edge) * length_sqr(tri_edge));
+
+                if (!parallel && try_normalize(dir)) {
                     // Make it point outside of polyhedron. Remember the
                     // polyhedron is centered at the origin.
                     if (dot(vertices[0], dir) < 0) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
index 1182d4d..57c2cab 100644
--- a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
@@ -126,7 +126,11 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
             {
                 auto dir = cross(edge_dirA, edge_dirB);
 
-                if (try_normalize(dir)) {
+                // Ignore edges which are nearly parallel since the direction of
+                // their cross product is meaningless.
+                const auto parallel = !(length_sqr(dir) > EDYN_EPSILON * length_sqr(edge_dirA) * length_sqr(edge_dirB));
+
+                if (!parallel && try_normalize(dir)) {
                     // Make direction point outside of shape A.
                     if (dot(verticesA[0] - posA, dir) < 0) {
                         dir *= -1;
-- 
2.43.0


From 873234ab55485dcb995faeeb247c444ce3aa89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:32 +0000
Subject: [PATCH 032/116] fix: cross product of nearly parallel axes of
 capsules and cylinders must not be used as a separating axis

---
 src/edyn/collision/collide/collide_capsule_cylinder.cpp  | 4 +++-
 src/edyn/collision/collide/collide_cylinder_cylinder.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_capsule_cylinder.cpp b/src/edyn/collision/collide/collide_capsule_cylinder.cpp
index 533de4c..c95b922 100644
--- a/src/edyn/collision/collide/collide_capsule_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_capsule_cylinder.cpp
@@ -45,7 +45,9 @@ void collide(const capsule_shape &shA, const cylinder_shape &shB,
     {
         auto dir = cross(cyl_axis, cap_axis);
 
-        if (try_normalize(dir)) {
+        // Ignore if the axes are nearly parallel since the direction of their
+        // cross product is meaningless.
+        if (length_sqr(dir) > EDYN_EPSILON && try_normalize(dir)) {
             if (dot(posA - posB, dir) < 0) {
                 dir *= -1; // Make dir point towards A.
             }
diff --git a/src/edyn/collision/collide/collide_cylinder_cylinder.cpp b/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
index 3326215..992f8a5 100644
--- a/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_cylinder_cylinder.cpp
@@ -76,7 +76,9 @@ void collide(const cylinder_shape &shA, const cylinder_shape &shB,
     {
         auto dir = cross(axisA, axisB);
 
-        if (try_normalize(dir)) {
+        // Ignore if the axes are nearly parallel since the direction of their
+        // cross product is meaningless.
+        if (length_sqr(dir) > EDYN_EPSILON && try_normalize(dir)) {
             if (dot(posA - posB, dir) < 0) {
                 dir *= -1; // Make dir point towards A.
             }
-- 
2.43.0


From c4f6a54a8595c6b233a3f2339fd9f3c02cfc6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 033/116] fix: segment must be considered parallel to circle
 according to the diameter and not the squared radius

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index be201b7..427d24c 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -240,7 +240,7 @@ scalar closest_point_circle_line(
 
     // Length of the segment projected onto the circle plane.
     auto qv_proj_len = length(vector2{qv[tan_idx0], qv[tan_idx1]});
-    auto diameter = square(radius);
+    auto diameter = 2 * radius;
 
     // Line points projected onto circle plane.
     auto q0_proj = vector2{q0[tan_idx0], q0[tan_idx1]};
-- 
2.43.0


From 6a937453f743de1c2e829474682b1cf321577718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 034/116] fix: sphere with center slightly outside of box
 violated the precondition of closest_point_box_inside

---
 src/edyn/collision/collide/collide_sphere_box.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_sphere_box.cpp b/src/edyn/collision/collide/collide_sphere_box.cpp
index e728163..307891c 100644
--- a/src/edyn/collision/collide/collide_sphere_box.cpp
+++ b/src/edyn/collision/collide/collide_sphere_box.cpp
@@ -28,7 +28,9 @@ void collide(const sphere_shape &shA, const box_shape &shB,
     // returns `posA_in_B`.
     if (d_sqr <= EDYN_EPSILON) {
         // Sphere center lies inside box.
-        center_distance = -closest_point_box_inside(shB.half_extents, posA_in_B, closest, normalB);
+        // It might still be slightly outside, thus use the point clamped to the box.
+        const auto center_in_B = closest;
+        center_distance = -closest_point_box_inside(shB.half_extents, center_in_B, closest, normalB);
         normal_attachment = contact_normal_attachment::normal_on_B;
     } else {
         center_distance = std::sqrt(d_sqr);
-- 
2.43.0


From 3cba2b5eddea4da406ca38045ce1eb5704bfe4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:24 +0000
Subject: [PATCH 035/116] fix: closest points of nearly parallel lines lost all
 precision

---
 src/edyn/math/geom.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 427d24c..7573c5f 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -50,21 +50,19 @@ bool closest_point_line_line(const vector3 &p1, const vector3 &q1,
     // Section 5.1.8 - Closest Points of Two Lines
     auto d1 = q1 - p1;
     auto d2 = q2 - p2;
-    auto r = p1 - p2;
-    auto a = dot(d1, d1);
-    auto b = dot(d1, d2);
-    auto c = dot(d1, r);
-    auto e = dot(d2, d2);
-    auto f = dot(d2, r);
-    auto d = a * e - b * b;
-
-    if (!(d > EDYN_EPSILON)) {
+    auto r = p2 - p1;
+    // Use cross products to avoid the loss of precision in the expanded form
+    // when lines are nearly parallel.
+    auto n = cross(d1, d2);
+    auto d = dot(n, n);
+
+    if (!(d > EDYN_EPSILON * dot(d1, d1) * dot(d2, d2))) {
         return false;
     }
 
     auto d_inv = scalar(1) / d;
-    s = (b * f - c * e) * d_inv;
-    t = (a * f - b * c) * d_inv;
+    s = dot(cross(r, d2), n) * d_inv;
+    t = dot(cross(r, d1), n) * d_inv;
 
     return true;
 }
@@ -1265,10 +1263,8 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
     // Offset `t` backwards to place it where the intersection happens.
     auto d = p1 - p0;
     auto e = cyl_vertices[1] - cyl_vertices[0];
-    auto dd = dot(d, d);
     auto ee = dot(e, e);
-    auto de = dot(d, e);
-    auto delta_sqr = (radius_sqr - dist_sqr) * ee / (dd * ee - de * de);
+    auto delta_sqr = (radius_sqr - dist_sqr) * ee / length_sqr(cross(d, e));
     auto delta = std::sqrt(delta_sqr);
     fraction_in = t - delta;
     fraction_out = t + delta;
-- 
2.43.0


From b0a7d0aa4193c99c2a8984a0492eb441d1560670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:24 +0000
Subject: [PATCH 036/116] fix: shape raycasts reported hits out of the segment,
 wrong normals, and missed polyhedra with faces parallel to the ray

---
 src/edyn/collision/raycast.cpp | 78 +++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..eaf9d74 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -55,6 +55,17 @@ raycast_result raycast(entt::registry &registry, vector3 p0, vector3 p1,
     return {result, hit_entity};
 }
 
+// Restricts the fraction where a ray enters a shape to the [0, 1] interval.
+// Returns false if the segment does not intersect the shape.
+static bool limit_fraction(scalar &fraction, bool starts_inside) {
+    if (starts_inside) {
+        fraction = 0;
+        return true;
+    }
+
+    return !(fraction < 0) && !(fraction > 1);
+}
+
 shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &ctx) {
     // Reference: Real-Time Collision Detection - Christer Ericson,
     // Section 5.3.3 - Intersecting Ray or Segment Against Box.
@@ -86,7 +97,7 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
 
             // Select this face index if it is further.
             if (t1 > t_min) {
-                face_idx = i * 2 + (p0[i] > 0 ? 0 : 1);
+                face_idx = i * 2 + (dir[i] < 0 ? 0 : 1);
             }
 
             // Clamp parameters: maximize t_min and minimize t_max.
@@ -100,8 +111,13 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
         }
     }
 
+    // Check if intersection range intersects the [0, 1] interval.
+    if (t_max < 0 || t_min > 1) {
+        return {};
+    }
+
     auto result = shape_raycast_result{};
-    result.fraction = t_min;
+    result.fraction = clamp_unit(t_min);
     result.normal = box.get_face_normal(face_idx, ctx.orn);
     result.info_var = box_raycast_info{face_idx};
 
@@ -122,18 +138,23 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     auto ray_dir = ctx.p1 - ctx.p0;
     auto cyl_dir = cyl_vertices[1] - cyl_vertices[0];
     auto cyl_dir_norm = normalize(cyl_dir);
-    auto face_idx = dot(ctx.p0 - ctx.pos, cyl_dir) < 0 ? size_t(0) : size_t(1);
+    // The cap face that can be entered is the one facing against the ray.
+    auto face_idx = dot(ray_dir, cyl_dir) > 0 ? size_t(0) : size_t(1);
     auto face_normal = cyl_dir_norm * (face_idx == 0 ? -1 : 1);
     auto radius = cylinder.radius;
     auto radius_sqr = square(radius);
 
+    auto p0_proj = dot(ctx.p0 - ctx.pos, cyl_dir_norm);
+    auto starts_inside = std::abs(p0_proj) <= cylinder.half_length &&
+                         length_sqr(ctx.p0 - ctx.pos - cyl_dir_norm * p0_proj) <= radius_sqr;
+
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
         // Cylinder and segment are parallel. Check if segment intersects a
         // cap face.
         vector3 closest; scalar fraction;
         auto dist_sqr = closest_point_line(ctx.p0, ray_dir, cyl_vertices[face_idx], fraction, closest);
 
-        if (dist_sqr > radius_sqr) {
+        if (dist_sqr > radius_sqr || !limit_fraction(fraction, starts_inside)) {
             return {};
         }
 
@@ -154,9 +175,13 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylinder.
+        if (!limit_fraction(fraction_in, starts_inside)) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - (cyl_vertices[0] + cyl_dir_norm * projections[0]));
         result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
         return result;
     }
@@ -167,7 +192,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     intersection = lerp(ctx.p0, ctx.p1, t);
     auto dist_sqr = distance_sqr(intersection, cyl_vertices[face_idx]);
 
-    if (dist_sqr > radius_sqr) {
+    if (dist_sqr > radius_sqr || !limit_fraction(t, starts_inside)) {
         return {};
     }
 
@@ -182,7 +207,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_context &ctx) {
     scalar t;
 
-    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t)) {
+    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t) || t > 1) {
         return {};
     }
 
@@ -190,7 +215,12 @@ shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_con
 
     shape_raycast_result result;
     result.fraction = t;
-    result.normal = normalize(intersection - ctx.pos);
+    result.normal = intersection - ctx.pos;
+
+    if (!try_normalize(result.normal)) {
+        result.normal = normalize(ctx.p0 - ctx.p1); // Starts at the center.
+    }
+
     return result;
 }
 
@@ -207,15 +237,24 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     auto cap_dir = vertices[1] - vertices[0];
     auto radius = capsule.radius;
 
+    vector3 closest; scalar closest_param;
+    auto starts_inside = closest_point_segment(vertices[0], vertices[1], ctx.p0,
+                                               closest_param, closest) <= square(radius);
+
     auto intersect_hemisphere = [&](size_t hemi_idx) -> shape_raycast_result {
-        scalar fraction;
+        auto fraction = scalar(0);
 
-        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction)) {
+        if (!starts_inside &&
+            (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction) || fraction > 1)) {
             return {};
         }
 
-        auto intersection = lerp(ctx.p0, ctx.p1, u_in);
-        auto normal = normalize(intersection - ctx.pos);
+        auto intersection = lerp(ctx.p0, ctx.p1, fraction);
+        auto normal = intersection - vertices[hemi_idx];
+
+        if (!try_normalize(normal)) {
+            normal = normalize(ctx.p0 - ctx.p1); // Starts at the center.
+        }
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
@@ -227,7 +266,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
         // Capsule and segment are parallel. Check if segment intersects a
         // hemisphere.
-        auto hemi_idx = dot(ctx.p0 - ctx.pos, cap_dir) < 0 ? 0 : 1;
+        auto hemi_idx = dot(ctx.p1 - ctx.p0, cap_dir) > 0 ? 0 : 1;
         return intersect_hemisphere(hemi_idx);
     }
 
@@ -242,9 +281,13 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylindrical section.
+        if (!limit_fraction(u_in, starts_inside)) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = u_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - (vertices[0] + cap_dir * (projections[0] / length_sqr(cap_dir))));
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
         return result;
@@ -277,7 +320,7 @@ shape_raycast_result shape_raycast(const polyhedron_shape &poly, const raycast_c
         if (std::abs(denom) < EDYN_EPSILON) {
             // Segment does not intersect polyhedron if there's any face that is
             // parallel to it and it lies in front of the face.
-            if (dist > 0) {
+            if (dist < 0) {
                 return {};
             }
         } else {
@@ -370,6 +413,11 @@ shape_raycast_result shape_raycast(const plane_shape &plane, const raycast_conte
         }
     } else {
         auto t = e / d;
+
+        if (t < 0 || t > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = t;
         result.normal = plane.normal;
-- 
2.43.0


From 7bce61179aa4b0c4b0de17d70d6f8955b22ccb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:49 +0000
Subject: [PATCH 037/116] fix: ray in the plane of a cap of a cylinder reported
 an invalid fraction

---
 src/edyn/collision/raycast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index eaf9d74..7a8060a 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -63,7 +63,8 @@ static bool limit_fraction(scalar &fraction, bool starts_inside) {
         return true;
     }
 
-    return !(fraction < 0) && !(fraction > 1);
+    // This is false also for NaN, i.e. if the ray is parallel to the feature.
+    return fraction >= 0 && fraction <= 1;
 }
 
 shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &ctx) {
-- 
2.43.0


From f7375b800379c1874aec988e8b53fac78fa7d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:51 +0000
Subject: [PATCH 038/116] fix: moment of inertia of capsule assumed axis x and
 overestimated the contribution of the hemispheres

---
 src/edyn/dynamics/moment_of_inertia.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..f3a3b42 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,11 +72,15 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
+    // Both hemispheres make up for a sphere when rotating about the axis of the
+    // capsule. Perpendicularly to it, the moment of inertia about the center of
+    // mass of the hemispheres (83/320 * m * r^2) is shifted.
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    auto yy_zz = scalar(83) / scalar(320) * sph_mass * square(radius) +
+                 sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From a80a5363bbe79b868472f549e7db3f5a4406daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:02 +0000
Subject: [PATCH 039/116] fix: products of inertia of polyhedron had the wrong
 sign

---
 src/edyn/dynamics/moment_of_inertia.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f3a3b42..9d1d927 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -146,9 +146,9 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 799fea3b878162ef24ec50dc26087cde1c60b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:04 +0000
Subject: [PATCH 040/116] fix: second edge from a node to itself was assumed to
 have two adjacencies

---
 src/edyn/core/entity_graph.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/edyn/core/entity_graph.cpp b/src/edyn/core/entity_graph.cpp
index 743d07f..63cccd9 100644
--- a/src/edyn/core/entity_graph.cpp
+++ b/src/edyn/core/entity_graph.cpp
@@ -49,22 +49,24 @@ entity_graph::index_type entity_graph::insert_edge(entt::entity entity, index_ty
         edge.next = adj_edge_index;
         m_adjacencies[adj_index].edge_index = edge_index;
 
-        // Repeat for the corresponding adjacency of node_index1.
-        adj_index = m_nodes[node_index1].adjacency_index;
+        if (node_index0 != node_index1) {
+            // Repeat for the corresponding adjacency of node_index1.
+            adj_index = m_nodes[node_index1].adjacency_index;
 
-        while (adj_index != null_index) {
-            if (m_adjacencies[adj_index].node_index == node_index0) {
-                break;
+            while (adj_index != null_index) {
+                if (m_adjacencies[adj_index].node_index == node_index0) {
+                    break;
+                }
+                adj_index = m_adjacencies[adj_index].next;
             }
-            adj_index = m_adjacencies[adj_index].next;
-        }
 
-        // Corresponding adjacency must exist.
-        EDYN_ASSERT(adj_index != null_index);
-        // Corresponding adjacency must be pointing to the same edge.
-        EDYN_ASSERT(m_adjacencies[adj_index].edge_index == adj_edge_index);
-        m_adjacencies[adj_index].edge_index = edge_index;
-        edge.adj_index1 = adj_index;
+            // Corresponding adjacency must exist.
+            EDYN_ASSERT(adj_index != null_index);
+            // Corresponding adjacency must be pointing to the same edge.
+            EDYN_ASSERT(m_adjacencies[adj_index].edge_index == adj_edge_index);
+            m_adjacencies[adj_index].edge_index = edge_index;
+            edge.adj_index1 = adj_index;
+        }
     } else {
         insert_adjacency(node_index0, node_index1, edge_index);
     }
-- 
2.43.0


From 605932f57540954db70ba110100d9ea3694bee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:18 +0000
Subject: [PATCH 041/116] fix: elements of a free list must be reset when
 cleared

---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From b20753bac8b910188556cfc9439b58fff88adacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 042/116] fix: moment of inertia of compound with rotated
 children was not symmetric

---
 src/edyn/dynamics/moment_of_inertia.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 9d1d927..67580b0 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -199,6 +199,8 @@ matrix3x3 moment_of_inertia(const compound_shape &sh, scalar mass) {
             auto m = mass * (vol / total_volume);
             auto orn = to_matrix3x3(node.orientation);
             auto i = orn * moment_of_inertia(s, m) * transpose(orn);
+            // Rotation introduces rounding errors, make it exactly symmetric.
+            i = (i + transpose(i)) * scalar(0.5);
             inertia += shift_moment_of_inertia(i, m, node.position);
         }, node.shape_var);
     }
-- 
2.43.0


From 457864fe06a611ffcf4db8df2c1791f76fe9001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:09 +0000
Subject: [PATCH 043/116] fix: static rigid body made dynamic or kinematic must
 have velocities

---
 src/edyn/util/rigidbody.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 2585be3..dd4a610 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -585,6 +585,17 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     rigidbody_replace_kind_tags(registry, entity, kind);
     rigidbody_assert_supports_kind(registry, entity, kind);
 
+    // Rigid bodies which were created as static do not have velocities.
+    if (kind != rigidbody_kind::rb_static) {
+        if (!registry.all_of<linvel>(entity)) {
+            registry.emplace<linvel>(entity, vector3_zero);
+        }
+
+        if (!registry.all_of<angvel>(entity)) {
+            registry.emplace<angvel>(entity, vector3_zero);
+        }
+    }
+
     const bool procedural = kind == rigidbody_kind::rb_dynamic;
 
     auto &node = registry.get<graph_node>(entity);
-- 
2.43.0


From 6565699afcf12a760638470e324c231646d83314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:33 +0000
Subject: [PATCH 044/116] fix: new node which already is in an island pulled
 unconnected nodes into it

---
 src/edyn/simulation/island_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 8456a40..4047e71 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -128,7 +128,11 @@ void island_manager::init_new_nodes_and_edges() {
     std::set<entity_graph::index_type> procedural_node_indices;
 
     for (auto entity : m_new_graph_nodes) {
-        if (m_registry->any_of<procedural_tag>(entity)) {
+        // It might already be in an island if it was made procedural later.
+        auto *resident = m_registry->try_get<island_resident>(entity);
+
+        if (resident && resident->island_entity == entt::null &&
+            m_registry->any_of<procedural_tag>(entity)) {
             auto &node = node_view.get<graph_node>(entity);
             procedural_node_indices.insert(node.node_index);
         }
-- 
2.43.0


From 21a4a38329101b799e0b4cf69b4c4924fe5401bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:11 +0000
Subject: [PATCH 045/116] fix: polyhedron or compound shape removed before
 initialization

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index b32ed60..f573c9e 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -67,6 +67,9 @@ void polyhedron_shape_initializer::init_new_shapes() {
     auto compound_view = m_registry->view<compound_shape>();
 
     for (auto entity : m_new_polyhedron_shapes) {
+        // Shape might've been removed or replaced.
+        if (!polyhedron_view.contains(entity)) continue;
+
         auto [polyhedron] = polyhedron_view.get(entity);
         auto [orn] = orn_view.get(entity);
         // A new `rotated_mesh` is assigned to it, replacing another reference
@@ -78,6 +81,8 @@ void polyhedron_shape_initializer::init_new_shapes() {
     }
 
     for (auto entity : m_new_compound_shapes) {
+        if (!compound_view.contains(entity)) continue;
+
         auto [compound] = compound_view.get(entity);
         auto [orn] = orn_view.get(entity);
         auto prev_rotated_entity = entt::entity{entt::null};
-- 
2.43.0


From d763e6b3d53e48146c5dec0345c5b51016a097bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:20 +0000
Subject: [PATCH 046/116] fix: contact points of rigid body made non-dynamic
 outlived their manifold

---
 src/edyn/util/rigidbody.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index dd4a610..de30d9b 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -41,6 +41,7 @@
 #include "edyn/util/gravity_util.hpp"
 #include "edyn/simulation/stepper_async.hpp"
 #include "edyn/context/settings.hpp"
+#include <vector>
 
 namespace edyn {
 
@@ -607,16 +608,24 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     // at least one dynamic entity.
     if (!procedural) {
         auto manifold_view = registry.view<contact_manifold>();
+        auto manifold_entities = std::vector<entt::entity>{};
+
         visit_edges(registry, entity, [&](entt::entity edge_entity) {
             if (manifold_view.contains(edge_entity)) {
                 auto [manifold] = manifold_view.get(edge_entity);
                 auto other = manifold.body[0] == entity ? manifold.body[1] : manifold.body[0];
 
                 if (!registry.all_of<procedural_tag>(other)) {
-                    registry.destroy(edge_entity);
+                    manifold_entities.push_back(edge_entity);
                 }
             }
         });
+
+        // Destroy manifolds along with their contact points.
+        for (auto manifold_entity : manifold_entities) {
+            clear_contact_manifold(registry, manifold_entity);
+            registry.destroy(manifold_entity);
+        }
     }
 }
 
-- 
2.43.0


From d2174f5fe5ee9f031a49161392db3d7a6ef45574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:21 +0000
Subject: [PATCH 047/116] fix: non-procedural nodes must leave island when not
 connected to it anymore

---
 src/edyn/simulation/island_manager.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 4047e71..3c36fd0 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -424,6 +424,17 @@ void island_manager::split_islands() {
 
         if (islands.size() == 1) {
             // Island is a single connected component in the entity graph.
+            // Detach non-procedural nodes that are not connected to it anymore.
+            auto &connected_nodes = islands.front().nodes;
+
+            for (auto entity : source_island.nodes) {
+                if (!connected_nodes.contains(entity)) {
+                    auto [resident] = multi_resident_view.get(entity);
+                    resident.island_entities.remove(source_island_entity);
+                }
+            }
+
+            source_island.nodes = std::move(connected_nodes);
             continue;
         }
 
@@ -441,6 +452,13 @@ void island_manager::split_islands() {
             }
         }
 
+        for (auto entity : source_island.nodes) {
+            if (!procedural_view.contains(entity) && !islands[biggest_idx].nodes.contains(entity)) {
+                auto [resident] = multi_resident_view.get(entity);
+                resident.island_entities.remove(source_island_entity);
+            }
+        }
+
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
@@ -484,13 +502,6 @@ void island_manager::split_islands() {
                 } else {
                     auto [resident] = multi_resident_view.get(node_entity);
                     resident.island_entities.push(island_entity_new);
-
-                    // Remove the original island if this non-procedural entity
-                    // is not contained in it anymore.
-                    auto &original_island = m_registry->get<edyn::island>(source_island_entity);
-                    if (!original_island.nodes.contains(node_entity)) {
-                        resident.island_entities.remove(source_island_entity);
-                    }
                 }
 
                 // Update island AABB by uniting all AABBs of all
-- 
2.43.0


From 98cfb78aed4dfad4432e1f36200c8b565e780022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:21 +0000
Subject: [PATCH 048/116] fix: islands of rigid body which changes kind must be
 split and woken up

---
 src/edyn/simulation/island_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 3c36fd0..f35f119 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -657,6 +657,7 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
                     merged_island_entity = merge_islands(island_entities, {}, {});
                 } else {
                     merged_island_entity = *resident->island_entities.begin();
+                    wake_up_island(*m_registry, merged_island_entity);
                 }
 
                 resident->island_entities.clear(); // Must clear because `on_destroy_multi_island_resident` will be called.
@@ -670,6 +671,15 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
 
             // The entity might not have been inserted into an island yet.
             if (resident->island_entity != entt::null) {
+                // Without this connection the island could have been split or
+                // be left empty. Wake it up since this entity will not react
+                // to the others anymore.
+                wake_up_island(*m_registry, resident->island_entity);
+
+                if (!m_islands_to_split.contains(resident->island_entity)) {
+                    m_islands_to_split.push(resident->island_entity);
+                }
+
                 island_entities.push(resident->island_entity);
                 resident->island_entity = entt::null;
             }
-- 
2.43.0


From caefd8d6d6de9cb748f3a1c45d667948d4c9d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:38 +0000
Subject: [PATCH 049/116] fix: bounding box must be updated when assigning a
 new shape to a rigid body

---
 include/edyn/collision/broadphase.hpp | 1 +
 src/edyn/collision/broadphase.cpp     | 9 +++++++++
 src/edyn/util/rigidbody.cpp           | 9 ++++-----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/edyn/collision/broadphase.hpp b/include/edyn/collision/broadphase.hpp
index 420ab0b..55b303b 100644
--- a/include/edyn/collision/broadphase.hpp
+++ b/include/edyn/collision/broadphase.hpp
@@ -26,6 +26,7 @@ class broadphase final {
     void finish_collide();
 
     void on_construct_aabb(entt::registry &, entt::entity);
+    void on_update_aabb(entt::registry &, entt::entity);
     void on_destroy_aabb(entt::registry &, entt::entity);
     void on_destroy_tree_resident(entt::registry &, entt::entity);
     void on_construct_island_aabb(entt::registry &, entt::entity);
diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index f0aa6eb..55b6b6b 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -27,6 +27,7 @@ broadphase::broadphase(entt::registry &registry)
     : m_registry(&registry)
 {
     m_connections.emplace_back(registry.on_construct<AABB>().connect<&broadphase::on_construct_aabb>(*this));
+    m_connections.emplace_back(registry.on_update<AABB>().connect<&broadphase::on_update_aabb>(*this));
     m_connections.emplace_back(registry.on_destroy<AABB>().connect<&broadphase::on_destroy_aabb>(*this));
     m_connections.emplace_back(registry.on_destroy<tree_resident>().connect<&broadphase::on_destroy_tree_resident>(*this));
     m_connections.emplace_back(registry.on_construct<island_AABB>().connect<&broadphase::on_construct_island_aabb>(*this));
@@ -45,6 +46,14 @@ void broadphase::on_construct_aabb(entt::registry &, entt::entity entity) {
     m_new_aabb_entities.push_back(entity);
 }
 
+void broadphase::on_update_aabb(entt::registry &registry, entt::entity entity) {
+    // AABBs of static entities are not updated in every step.
+    if (auto *node = registry.try_get<tree_resident>(entity)) {
+        auto &tree = node->procedural ? m_tree : m_np_tree;
+        tree.move(node->id, registry.get<AABB>(entity));
+    }
+}
+
 void broadphase::on_destroy_aabb(entt::registry &registry, entt::entity entity) {
     // No AABB means no longer being present in the broadphase AABB tree.
     // This will trigger `on_destroy_tree_resident` which will do the cleanup.
diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index de30d9b..bafa06a 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -445,13 +445,12 @@ void rigidbody_assign_shape(entt::registry &registry, entt::entity entity, Shape
         // This is an amorphous rigid body. Assign new shape.
         registry.emplace<ShapeType>(entity, shape);
         registry.emplace<shape_index>(entity, index);
-
-        const auto &pos = registry.get<position>(entity);
-        const auto &orn = registry.get<orientation>(entity);
-        auto aabb = shape_aabb(shape, pos, orn);
-        registry.emplace<AABB>(entity, aabb);
     }
 
+    const auto origin = get_rigidbody_origin(registry, entity);
+    const auto &orn = registry.get<orientation>(entity);
+    registry.emplace_or_replace<AABB>(entity, shape_aabb(shape, origin, orn));
+
     // Assign tag for dynamic rolling shapes.
     if (registry.all_of<dynamic_tag>(entity)) {
         if constexpr(tuple_has_type<ShapeType, rolling_shapes_tuple_t>::value) {
-- 
2.43.0


From dd80ed006db37c6cc8dc983e7ef2a34dea514750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:42 +0000
Subject: [PATCH 050/116] fix: contact manifolds must be destroyed when rigid
 body loses its shape

---
 src/edyn/util/rigidbody.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index bafa06a..457bfe6 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -489,13 +489,26 @@ void rigidbody_set_shape(entt::registry &registry, entt::entity entity, std::opt
     }
 
     // Remove all contacts associated with this body since all existing contact
-    // points are now most likely invalid.
+    // points are now most likely invalid. Manifolds cannot exist without a shape.
     auto manifold_view = registry.view<contact_manifold_state>();
+    auto manifold_entities = std::vector<entt::entity>{};
+
     visit_edges(registry, entity, [&](entt::entity edge_entity) {
-        if (manifold_view.contains(edge_entity) && !registry.all_of<clear_contact_manifold_tag>(edge_entity)) {
+        if (!manifold_view.contains(edge_entity)) {
+            return;
+        }
+
+        if (!shape_opt) {
+            manifold_entities.push_back(edge_entity);
+        } else if (!registry.all_of<clear_contact_manifold_tag>(edge_entity)) {
             registry.emplace<clear_contact_manifold_tag>(edge_entity);
         }
     });
+
+    for (auto manifold_entity : manifold_entities) {
+        clear_contact_manifold(registry, manifold_entity);
+        registry.destroy(manifold_entity);
+    }
 }
 
 bool rigidbody_has_shape(const entt::registry &registry, entt::entity entity) {
-- 
2.43.0


From 21f7ff2007378f3d84f38b2dd0c6ea4936ab86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:29 +0000
Subject: [PATCH 051/116] fix: constraint cleared before it was ever processed

---
 src/edyn/simulation/island_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index f35f119..1fc6d52 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -139,6 +139,9 @@ void island_manager::init_new_nodes_and_edges() {
     }
 
     for (auto edge_entity : m_new_graph_edges) {
+        // Entity might've been cleared.
+        if (!edge_view.contains(edge_entity)) continue;
+
         auto &edge = edge_view.get<graph_edge>(edge_entity);
         auto node_entities = graph.edge_node_entities(edge.edge_index);
 
-- 
2.43.0


From dae2206a93aaa36407760e8798014dbf283a7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:29 +0000
Subject: [PATCH 052/116] fix: shape reassigned before the first update was
 inserted twice in broadphase

---
 src/edyn/collision/broadphase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 55b6b6b..c4f55ec 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -92,8 +92,9 @@ void broadphase::init_new_aabb_entities() {
     auto procedural_view = m_registry->view<procedural_tag>();
 
     for (auto entity : m_new_aabb_entities) {
-        // Entity might've been cleared.
-        if (!aabb_view.contains(entity)) continue;
+        // Entity might've been cleared or be in the list more than once if it
+        // was cleared and assigned a shape again.
+        if (!aabb_view.contains(entity) || m_registry->all_of<tree_resident>(entity)) continue;
 
         auto &aabb = aabb_view.get<AABB>(entity);
         bool procedural = procedural_view.contains(entity);
-- 
2.43.0


From a859997cd126f736b85e332438c96123c9252efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:29 +0000
Subject: [PATCH 053/116] fix: clear_rigidbody must remove origin and sleeping
 tag

---
 src/edyn/util/rigidbody.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 457bfe6..ef62690 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -197,7 +197,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
     registry.remove<procedural_tag>(entity);
 
     registry.remove<networked_tag>(entity);
-    registry.remove<sleeping_disabled_tag>(entity);
+    registry.remove<sleeping_tag, sleeping_disabled_tag>(entity);
     registry.remove<collision_filter>(entity);
 
     if (rigidbody_has_shape(registry, entity)) {
@@ -211,7 +211,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
         registry.remove<roll_direction>(entity);
     }
 
-    registry.remove<material, gravity, center_of_mass>(entity);
+    registry.remove<material, gravity, center_of_mass, origin>(entity);
 
     registry.remove<linvel, angvel>(entity);
     registry.remove<mass, mass_inv>(entity);
-- 
2.43.0


From f1841446567613448f2d1f12742880e8e273adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:04 +0000
Subject: [PATCH 054/116] fix: island merged into another must still be split

---
 src/edyn/simulation/island_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 1fc6d52..8ae568c 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -344,6 +344,15 @@ entt::entity island_manager::merge_islands(const std::vector<entt::entity> &isla
 
     insert_to_island(island_entity, all_nodes, all_edges);
 
+    // If any of the islands was going to be split, the resulting island must be
+    // split instead.
+    for (auto other_island_entity : other_island_entities) {
+        if (m_islands_to_split.contains(other_island_entity) &&
+            !m_islands_to_split.contains(island_entity)) {
+            m_islands_to_split.push(island_entity);
+        }
+    }
+
     // Destroy empty islands.
     m_registry->destroy(other_island_entities.begin(), other_island_entities.end());
 
-- 
2.43.0


From f776b3fb2838925607ea9954b810861460ac24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 055/116] fix: sensors touching a bouncing body must not be
 included in restitution

---
 src/edyn/dynamics/restitution_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/dynamics/restitution_solver.cpp b/src/edyn/dynamics/restitution_solver.cpp
index 16c6258..3deebed 100644
--- a/src/edyn/dynamics/restitution_solver.cpp
+++ b/src/edyn/dynamics/restitution_solver.cpp
@@ -17,6 +17,7 @@
 #include "edyn/comp/delta_angvel.hpp"
 #include "edyn/comp/origin.hpp"
 #include "edyn/comp/mass.hpp"
+#include "edyn/comp/material.hpp"
 #include "edyn/comp/inertia.hpp"
 #include "edyn/math/geom.hpp"
 #include "edyn/math/transform.hpp"
@@ -91,6 +92,7 @@ bool solve_restitution_iteration(entt::registry &registry, entt::entity island_e
     auto origin_view = registry.view<origin>();
     auto procedural_view = registry.view<procedural_tag>();
     auto static_view = registry.view<static_tag>();
+    auto material_view = registry.view<material>();
     auto restitution_view = registry.view<contact_manifold_with_restitution>();
     auto manifold_view = registry.view<contact_manifold, contact_manifold_state>();
     auto cp_view = registry.view<contact_point, contact_point_material, contact_point_impulse, contact_point_list>();
@@ -367,6 +369,9 @@ bool solve_restitution_iteration(entt::registry &registry, entt::entity island_e
 
             auto [manifold, manifold_state] = manifold_view.get(edge_entity);
 
+            // Ignore sensors, which have no material and thus no response.
+            if (!material_view.contains(manifold.body[0]) || !material_view.contains(manifold.body[1])) return;
+
             // Ignore manifolds which are not penetrating fast enough.
             auto local_min_relvel = get_manifold_min_relvel(manifold, manifold_state, body_view, origin_view, static_view, cp_view);
 
-- 
2.43.0


From 9ccd92fb24051e088d338f9d6ace350cda71dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:57 +0000
Subject: [PATCH 056/116] fix: bounding box of rigid body made static was
 outdated

---
 src/edyn/util/rigidbody.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index ef62690..a16ba9e 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -616,6 +616,15 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     registry.ctx().get<broadphase>().set_procedural(entity, procedural);
     isle_mgr.set_procedural(entity, procedural);
 
+    // AABBs of static rigid bodies are not updated in every step.
+    if (kind == rigidbody_kind::rb_static && registry.all_of<shape_index, AABB>(entity)) {
+        visit_shape(registry, entity, [&](auto &shape) {
+            const auto origin = get_rigidbody_origin(registry, entity);
+            const auto &orn = registry.get<orientation>(entity);
+            registry.replace<AABB>(entity, shape_aabb(shape, origin, orn));
+        });
+    }
+
     // Remove all contacts between non-procedural entities. Constraints must have
     // at least one dynamic entity.
     if (!procedural) {
-- 
2.43.0


From cadf0dedc18bb849d090ab19cae8e24362ac0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:43 +0000
Subject: [PATCH 057/116] fix: sleep timer must restart when island is woken up

---
 src/edyn/util/island_util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/edyn/util/island_util.cpp b/src/edyn/util/island_util.cpp
index 9569764..e25d83e 100644
--- a/src/edyn/util/island_util.cpp
+++ b/src/edyn/util/island_util.cpp
@@ -59,6 +59,12 @@ entt::sparse_set collect_islands_from_residents(entt::registry &registry, const
 }
 
 void wake_up_island(entt::registry &registry, entt::entity island_entity) {
+    // Restart sleep timer. Otherwise an island that is about to fall asleep
+    // would still do so right after being woken up.
+    if (auto *island = registry.try_get<edyn::island>(island_entity)) {
+        island->sleep_timestamp.reset();
+    }
+
     if (registry.all_of<sleeping_tag>(island_entity)) {
         auto &island = registry.get<edyn::island>(island_entity);
         remove_sleeping_tag_from_island(registry, island_entity, island);
-- 
2.43.0


From 3ba642fc58629645ed85b651bbb3207dd755438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:18 +0000
Subject: [PATCH 058/116] fix: division by zero in closest points of circles
 when second derivative vanishes

---
 src/edyn/math/geom.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 7573c5f..d11c490 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -380,7 +380,10 @@ scalar closest_point_circle_line(
         auto d_f_theta = dot(d_theta, d_d_theta);
         auto dd_f_theta = dot(d_d_theta, d_d_theta) + dot(dd_d_theta, d_theta);
 
-        EDYN_ASSERT(dd_f_theta > 0 || dd_f_theta < 0);
+        // Cannot improve any further if second derivative vanishes.
+        if (!(std::abs(dd_f_theta) > 0)) {
+            break;
+        }
 
         auto delta = d_f_theta / dd_f_theta;
         theta -= delta;
@@ -667,7 +670,10 @@ scalar closest_point_circle_circle(
         auto d_f_phi = dot(d_phi, d_d_phi);
         auto dd_f_phi = dot(d_d_phi, d_d_phi) + dot(dd_d_phi, d_phi);
 
-        EDYN_ASSERT(dd_f_phi > 0 || dd_f_phi < 0);
+        // Cannot improve any further if second derivative vanishes.
+        if (!(std::abs(dd_f_phi) > 0)) {
+            break;
+        }
 
         auto delta = d_f_phi / dd_f_phi;
         phi -= delta;
-- 
2.43.0


From e0dd7a08135676de7fe674e4c4cbbc3adad9212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 059/116] fix: time elapsed while paused must not be simulated
 after being unpaused

---
 src/edyn/simulation/stepper_sequential.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index ee0313b..d502fbf 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -36,6 +36,8 @@ void stepper_sequential::update(double time) {
     EDYN_PROFILE_BEGIN(prof_time);
 
     if (m_paused) {
+        // Do not simulate the time elapsed while paused after it's unpaused.
+        m_last_time = time;
         m_island_manager.update(m_last_time);
         EDYN_PROFILE_MEASURE(prof_time, profile, islands);
         snap_presentation(*m_registry);
-- 
2.43.0


From ddb8adfd4ec8bf49662c8572fc21e17548634282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 060/116] fix: angular velocity of kinematic body was NaN or
 took the long path

---
 src/edyn/util/rigidbody.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index a16ba9e..4c2eda0 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -41,6 +41,7 @@
 #include "edyn/util/gravity_util.hpp"
 #include "edyn/simulation/stepper_async.hpp"
 #include "edyn/context/settings.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace edyn {
@@ -266,9 +267,14 @@ void set_kinematic_orientation(entt::registry &registry, entt::entity entity, co
         // Rotation that takes current orientation to new.
         auto r = orn * conjugate(curorn);
 
+        // Take the shortest path.
+        if (r.w < 0) {
+            r = r * scalar(-1);
+        }
+
         // Calculate angular velocity doing the inverse of what
         // edyn::quaternion::integrate does.
-        const auto ws = std::acos(r.w) / (0.5f * dt);
+        const auto ws = std::acos(std::min(r.w, scalar(1))) / (scalar(0.5) * dt);
         const auto min_ws = scalar(0.001);
         constexpr auto half = scalar(0.5);
         scalar t;
-- 
2.43.0


From 5bc8ada3a3353bf22add7552ac142ee44e114d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 061/116] fix: center of mass of static rigid body

---
 src/edyn/util/rigidbody.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 4c2eda0..6fbcd36 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -538,10 +538,10 @@ void rigidbody_set_kind(entt::registry &registry, entt::entity entity, rigidbody
 namespace edyn::internal {
 
 void apply_center_of_mass(entt::registry &registry, entt::entity entity, const vector3 &com) {
-    auto body_view = registry.view<position, orientation, linvel, angvel>();
+    auto body_view = registry.view<position, orientation>();
     auto com_view = registry.view<center_of_mass>();
 
-    auto [pos, orn, linvel, angvel] = body_view.get<position, orientation, edyn::linvel, edyn::angvel>(entity);
+    auto [pos, orn] = body_view.get<position, orientation>(entity);
     auto com_old = vector3_zero;
     auto has_com = com_view.contains(entity);
 
@@ -553,7 +553,13 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // since they're stored with respect to the center of mass.
     auto origin = to_world_space(-com_old, pos, orn);
     auto com_world = to_world_space(com, origin, orn);
-    linvel += cross(angvel, com_world - pos);
+
+    // Static rigid bodies do not have velocities.
+    if (registry.all_of<linvel, angvel>(entity)) {
+        auto [linvel, angvel] = registry.get<edyn::linvel, edyn::angvel>(entity);
+        linvel += cross(angvel, com_world - pos);
+    }
+
     pos = com_world;
 
     if (com != vector3_zero) {
-- 
2.43.0


From 1ac3f66b3e450f00b2717ec19906564d7b5d01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 062/116] fix: position constraints used origin from before
 integration

---
 src/edyn/dynamics/island_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/dynamics/island_solver.cpp b/src/edyn/dynamics/island_solver.cpp
index 399a958..fcb6ae6 100644
--- a/src/edyn/dynamics/island_solver.cpp
+++ b/src/edyn/dynamics/island_solver.cpp
@@ -307,6 +307,8 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
             if (origin_view.contains(con.body[0])) {
                 solver.originA = &origin_view.template get<origin>(con.body[0]);
                 solver.comA = origin_view.template get<center_of_mass>(con.body[0]);
+                // Transforms were integrated after the origin was last calculated.
+                *solver.originA = to_world_space(-solver.comA, posA, ornA);
             } else {
                 solver.originA = nullptr;
             }
@@ -314,6 +316,8 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
             if (origin_view.contains(con.body[1])) {
                 solver.originB = &origin_view.template get<origin>(con.body[1]);
                 solver.comB = origin_view.template get<center_of_mass>(con.body[1]);
+                // Transforms were integrated after the origin was last calculated.
+                *solver.originB = to_world_space(-solver.comB, posB, ornB);
             } else {
                 solver.originB = nullptr;
             }
-- 
2.43.0


From 2d0c45bc99221f67fddc9c7acf10ad6ce5fdd95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:35 +0000
Subject: [PATCH 063/116] fix: bend spring of cvjoint weakens past 90 degrees
 and is NaN at 90

---
 src/edyn/constraints/cvjoint_constraint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index c16d1f9..10740f8 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -203,9 +203,10 @@ void cvjoint_constraint::prepare(
 
     // Bending spring.
     if (bend_stiffness > 0) {
-        auto bend_axis = cross(rotate(bodyA.orn, rest_direction), twist_axisB);
+        auto rest_dir = rotate(bodyA.orn, rest_direction);
+        auto bend_axis = cross(rest_dir, twist_axisB);
         auto bend_axis_len = length(bend_axis);
-        auto angle = std::asin(bend_axis_len);
+        auto angle = std::atan2(bend_axis_len, dot(rest_dir, twist_axisB));
 
         if (bend_axis_len > EDYN_EPSILON) {
             bend_axis /= bend_axis_len;
-- 
2.43.0


From b028c781b461211620c0ad8c6debb5e5d2b58d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 064/116] fix: bend damping of cvjoint ignored without twist
 damping

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index 10740f8..9cfd213 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -193,7 +193,7 @@ void cvjoint_constraint::prepare(
 
         auto friction_impulse = bend_friction_torque * dt;
 
-        if (twist_damping > 0) {
+        if (bend_damping > 0) {
             friction_impulse += std::abs(angspd_rel) * bend_damping * dt;
         }
 
-- 
2.43.0


From d1167636fa11ec419ee5a3e4409fac389871be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 065/116] fix: hinge motor only reaches a fifth of the desired
 speed

---
 src/edyn/constraints/hinge_constraint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edyn/constraints/hinge_constraint.cpp b/src/edyn/constraints/hinge_constraint.cpp
index 2a47cc5..87c6691 100644
--- a/src/edyn/constraints/hinge_constraint.cpp
+++ b/src/edyn/constraints/hinge_constraint.cpp
@@ -174,6 +174,7 @@ void hinge_constraint::prepare(
 
         auto &options = cache.get_options();
         options.error = -speed;
+        options.erp = 1;
     }
 }
 
-- 
2.43.0


From e08ce1505210e5171f8c8fb4f7e9910350fa0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 066/116] fix: generic constraint angle locked at nonzero value
 was driven to zero

---
 src/edyn/constraints/generic_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/generic_constraint.cpp b/src/edyn/constraints/generic_constraint.cpp
index 7bea800..2e24b87 100644
--- a/src/edyn/constraints/generic_constraint.cpp
+++ b/src/edyn/constraints/generic_constraint.cpp
@@ -184,7 +184,7 @@ void generic_constraint::prepare(
                 options.error = limit_error / dt;
                 options.restitution = dof.limit_restitution;
             } else {
-                options.error = -dof.current_angle / dt;
+                options.error = (dof.angle_min - dof.current_angle) / dt;
                 row.lower_limit = -large_scalar;
                 row.upper_limit = large_scalar;
             }
-- 
2.43.0


From 6eb9a42e042e0961082d50d7bf2bdb3463cd53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 067/116] fix: cone constraint normal is inverted behind the
 apex and undefined at the apex

---
 src/edyn/constraints/cone_constraint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/constraints/cone_constraint.cpp b/src/edyn/constraints/cone_constraint.cpp
index 343acde..ed2851a 100644
--- a/src/edyn/constraints/cone_constraint.cpp
+++ b/src/edyn/constraints/cone_constraint.cpp
@@ -46,7 +46,8 @@ void cone_constraint::prepare(
     auto dir_on_cone = vector3{-normal_scaled.x, normal_scaled.y, normal_scaled.z};
     auto cone_proj = dot(pivotB_in_A_frame_scaled, dir_on_cone);
     auto point_on_cone_scaled = dir_on_cone * cone_proj;
-    auto point_on_cone = point_on_cone_scaled * vector3{1, 1 / scaling_y, 1 / scaling_z};
+    auto descaling = vector3{1, 1 / scaling_y, 1 / scaling_z};
+    auto point_on_cone = point_on_cone_scaled * descaling;
 
     auto pivotA = to_world_space(point_on_cone, pivot[0], frame);
     auto pivotA_world = to_world_space(pivotA, bodyA.origin, bodyA.orn);
@@ -55,7 +56,7 @@ void cone_constraint::prepare(
     // both are scaled, unlike the normal vector. Thus, descale the tangent
     // and recalculate the normal.
     auto tangent = normalize(tangent_scaled * vector3{1, 1 / scaling_y, 1 / scaling_z});
-    auto normal = normalize(cross(tangent, point_on_cone));
+    auto normal = normalize(cross(tangent, dir_on_cone * descaling));
     auto normal_world = rotate(bodyA.orn, frame * normal);
 
     auto rA = pivotA_world - bodyA.pos;
-- 
2.43.0


From cf18f7f503e9e3c4acc40dc0619c6ecd268402a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 068/116] fix: async settings were read in sequential execution
 modes, where there are none

---
 include/edyn/collision/narrowphase.hpp                | 2 +-
 src/edyn/collision/narrowphase.cpp                    | 2 +-
 src/edyn/networking/util/import_contact_manifolds.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edyn/collision/narrowphase.hpp b/include/edyn/collision/narrowphase.hpp
index 402de6f..5af010f 100644
--- a/include/edyn/collision/narrowphase.hpp
+++ b/include/edyn/collision/narrowphase.hpp
@@ -64,7 +64,7 @@ void narrowphase::update_contact_manifolds(Iterator begin, Iterator end) {
     auto dt = registry.ctx().get<settings>().fixed_dt;
 
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     for (auto it = begin; it != end; ++it) {
         entt::entity manifold_entity = *it;
diff --git a/src/edyn/collision/narrowphase.cpp b/src/edyn/collision/narrowphase.cpp
index 8c4d61e..6c57d90 100644
--- a/src/edyn/collision/narrowphase.cpp
+++ b/src/edyn/collision/narrowphase.cpp
@@ -91,7 +91,7 @@ void narrowphase::finish_detect_collision() {
     it = manifold_view.begin();
 
     auto &async_settings = m_registry->ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     for (size_t i = 0; i < num_manifolds; ++i, ++it) {
         auto entity = *it;
diff --git a/src/edyn/networking/util/import_contact_manifolds.cpp b/src/edyn/networking/util/import_contact_manifolds.cpp
index 948a588..9767ece 100644
--- a/src/edyn/networking/util/import_contact_manifolds.cpp
+++ b/src/edyn/networking/util/import_contact_manifolds.cpp
@@ -105,7 +105,7 @@ void replace_manifold(entt::registry &registry,
     auto info_entity = manifold_info.contact_entity;
     auto &manifold_state = registry.get<contact_manifold_state>(manifold_entity);
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     while (info_entity != entt::null) {
         auto &contact = contacts.get(info_entity);
-- 
2.43.0


From 300595541ca7c2cac0ce095714e88b6d9d00e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 069/116] fix: point constraint read friction impulse when
 there was no friction row

---
 src/edyn/constraints/point_constraint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..2339ef3 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -52,8 +52,11 @@ void point_constraint::store_applied_impulses(const std::vector<scalar> &impulse
         applied_impulse[i] = impulses[row_idx++];
     }
 
-    if (friction_torque > 0) {
+    // There is no friction row if the bodies aren't spinning.
+    if (row_idx < impulses.size()) {
         applied_friction_impulse = impulses[row_idx++];
+    } else {
+        applied_friction_impulse = 0;
     }
 }
 
-- 
2.43.0


From 290bbc5421d8cf0151cb4ea07e34c0b1ef284d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 070/116] fix: not enough zeros to clear impulses of generic
 constraint

---
 include/edyn/util/constraint_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/util/constraint_util.hpp b/include/edyn/util/constraint_util.hpp
index fbb7239..2ed5202 100644
--- a/include/edyn/util/constraint_util.hpp
+++ b/include/edyn/util/constraint_util.hpp
@@ -139,7 +139,7 @@ void create_graph_edge_for_constraints(entt::registry &registry, entt::entity en
 template<typename Constraint, typename It>
 void clear_applied_impulses_single(entt::registry &registry, It first, It last) {
     auto con_view = registry.view<Constraint>();
-    std::vector<scalar> impulses(16, scalar{0});
+    std::vector<scalar> impulses(32, scalar{0});
 
     for (; first != last; ++first) {
         auto entity = *first;
-- 
2.43.0


From 8b086457485410ee3a0ca98bb7f7ebf519cb6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 071/116] fix: rolling direction of second body was rotated by
 the first

---
 src/edyn/constraints/contact_extras_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/contact_extras_constraint.cpp b/src/edyn/constraints/contact_extras_constraint.cpp
index 39048fa..9efcd31 100644
--- a/src/edyn/constraints/contact_extras_constraint.cpp
+++ b/src/edyn/constraints/contact_extras_constraint.cpp
@@ -49,7 +49,7 @@ void contact_extras_constraint::prepare(constraint_row_prep_cache &cache, scalar
             // thus preventing impulses in the undesired directions.
             for (auto j = 0; j < 2; ++j) {
                 if (roll_dir[j] != vector3_zero) {
-                    auto roll_dir_world = rotate(bodyA.orn, roll_dir[j]);
+                    auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
                     axis *= dot(roll_dir_world, axis);
                 }
             }
-- 
2.43.0


From 3a13a0116fe3306add4ca0be3b6158ee4a676975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:29 +0000
Subject: [PATCH 072/116] fix: rows of generic constraint with all features
 enabled did not fit the prep cache

---
 include/edyn/dynamics/row_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index a77dcfc..e123a49 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -54,7 +54,8 @@ struct row_cache {
  * `row_cache` for better performance during the solver iterations.
  */
 struct constraint_row_prep_cache {
-    static constexpr unsigned max_rows = 16;
+    // A `generic_constraint` with all features enabled needs 24 rows.
+    static constexpr unsigned max_rows = 32;
     static constexpr unsigned max_constraints = 8;
 
     struct element {
-- 
2.43.0


From 0daee6f7407e4e4e61f455701e661edfdadce1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 073/116] fix: scene queries find bodies where they are after
 the step

---
 include/edyn/collision/broadphase.hpp      | 6 +++++-
 src/edyn/simulation/simulation_worker.cpp  | 2 ++
 src/edyn/simulation/stepper_sequential.cpp | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/edyn/collision/broadphase.hpp b/include/edyn/collision/broadphase.hpp
index 55b303b..8fa80f2 100644
--- a/include/edyn/collision/broadphase.hpp
+++ b/include/edyn/collision/broadphase.hpp
@@ -17,7 +17,6 @@ class broadphase final {
     // Separation threshold for new manifolds.
     constexpr static auto m_separation_threshold = contact_breaking_threshold * scalar(1.3);
 
-    void move_aabbs();
     void destroy_separated_manifolds();
 
     void collide_tree(const dynamic_tree &tree, entt::entity entity, const AABB &offset_aabb) const;
@@ -42,6 +41,11 @@ public:
     void init_new_aabb_entities();
     void update(bool mt);
 
+    // Updates the trees with the current AABBs. Must be called after AABBs are
+    // updated at the end of a step, otherwise queries would find the entities
+    // where they were before it.
+    void move_aabbs();
+
     template<typename Func>
     void raycast(vector3 p0, vector3 p1, Func func) const;
 
diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index 12dc573..b5c72fd 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -420,6 +420,7 @@ void simulation_worker::update() {
         EDYN_PROFILE_MEASURE_ACCUM(task_time, profile, islands);
 
         m_solver.update(true);
+        bphase.move_aabbs();
 
         nphase.patch_new_contacts();
 
@@ -540,6 +541,7 @@ void simulation_worker::on_step_simulation(message<msg::step_simulation> &) {
     nphase.update(true);
     m_island_manager.update(m_last_time);
     m_solver.update(true);
+    bphase.move_aabbs();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(m_registry);
diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index d502fbf..104fcbd 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -91,6 +91,7 @@ void stepper_sequential::update(double time) {
         EDYN_PROFILE_MEASURE_ACCUM(task_time, profile, islands);
 
         m_solver.update(m_multithreaded);
+        bphase.move_aabbs();
 
         if (settings.clear_actions_func) {
             (*settings.clear_actions_func)(*m_registry);
@@ -138,6 +139,7 @@ void stepper_sequential::step_simulation(double time) {
     nphase.update(m_multithreaded);
     m_island_manager.update(m_last_time);
     m_solver.update(m_multithreaded);
+    bphase.move_aabbs();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(*m_registry);
-- 
2.43.0


From 3b09708506cf1c53419d46f454c2782033c9381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 074/116] fix: rays that hit nothing get a response too

---
 src/edyn/collision/raycast_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/raycast_service.cpp b/src/edyn/collision/raycast_service.cpp
index 9353242..a0b4979 100644
--- a/src/edyn/collision/raycast_service.cpp
+++ b/src/edyn/collision/raycast_service.cpp
@@ -43,6 +43,9 @@ void raycast_service::run_broadphase(bool mt) {
 
 void raycast_service::finish_broadphase() {
     for (auto &ctx : m_broad_ctx) {
+        // There must be a result even if there are no candidates.
+        m_results[ctx.id];
+
         for (auto entity : ctx.candidates) {
             auto &narrow_ctx = m_narrow_ctx.emplace_back();
             narrow_ctx.id = ctx.id;
-- 
2.43.0


From dbafd2e4821021f1d148f4380033b42f89ef8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 075/116] fix: define query_aabb_async as declared

---
 src/edyn/collision/query_aabb.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/query_aabb.cpp b/src/edyn/collision/query_aabb.cpp
index 3b2c77f..da1b18d 100644
--- a/src/edyn/collision/query_aabb.cpp
+++ b/src/edyn/collision/query_aabb.cpp
@@ -3,11 +3,11 @@
 
 namespace edyn {
 
-query_aabb_id_type query_island_aabb_async(entt::registry &registry, const AABB &aabb,
-                                           const query_aabb_delegate_type &delegate,
-                                           bool query_procedural,
-                                           bool query_non_procedural,
-                                           bool query_islands) {
+query_aabb_id_type query_aabb_async(entt::registry &registry, const AABB &aabb,
+                                    const query_aabb_delegate_type &delegate,
+                                    bool query_procedural,
+                                    bool query_non_procedural,
+                                    bool query_islands) {
     auto &stepper = registry.ctx().get<stepper_async>();
     return stepper.query_aabb(aabb, delegate, query_procedural, query_non_procedural, query_islands);
 }
-- 
2.43.0


From e50a11479d7290e892f7219de52a6a9eea0fd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:47 +0000
Subject: [PATCH 076/116] fix: propagate the position when the center of mass
 changes in asynchronous mode

---
 src/edyn/util/rigidbody.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 6fbcd36..6f6537e 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -557,10 +557,11 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // Static rigid bodies do not have velocities.
     if (registry.all_of<linvel, angvel>(entity)) {
         auto [linvel, angvel] = registry.get<edyn::linvel, edyn::angvel>(entity);
-        linvel += cross(angvel, com_world - pos);
+        registry.replace<edyn::linvel>(entity, linvel + cross(angvel, com_world - pos));
     }
 
-    pos = com_world;
+    // Trigger signals so the change is propagated in asynchronous mode.
+    registry.replace<position>(entity, com_world);
 
     if (com != vector3_zero) {
         if (has_com) {
-- 
2.43.0


From e13e1a8a4a86cb7e195144f21a00b7c90acaa8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:47 +0000
Subject: [PATCH 077/116] fix: do not lose the center of mass of new bodies in
 asynchronous mode

---
 src/edyn/simulation/stepper_async.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 4525a41..5857b05 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -331,6 +331,9 @@ void stepper_async::material_table_changed() {
 }
 
 void stepper_async::set_center_of_mass(entt::entity entity, const vector3 &com) {
+    // Must sync first, otherwise the message would be ignored if the entity was
+    // created after the last update.
+    sync();
     send_message_to_worker<msg::set_com>(entity, com);
 }
 
-- 
2.43.0


From 1db0d4301f2a3be362f4b65469983dc6a11205d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:49 +0000
Subject: [PATCH 078/116] fix: position correction does not write to bodies
 shared among islands

---
 src/edyn/dynamics/island_solver.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/edyn/dynamics/island_solver.cpp b/src/edyn/dynamics/island_solver.cpp
index fcb6ae6..095c3bb 100644
--- a/src/edyn/dynamics/island_solver.cpp
+++ b/src/edyn/dynamics/island_solver.cpp
@@ -273,6 +273,11 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
         mass inv_mA {0}, inv_mB {0};
         inertia_world_inv inv_IA {matrix3x3_zero}, inv_IB{matrix3x3_zero};
         inertia_inv inv_IA_local{matrix3x3_zero}, inv_IB_local{matrix3x3_zero};
+        // Non-procedural entities must not be modified since they could be
+        // shared with islands being solved in other threads. Use copies.
+        position np_posA, np_posB;
+        orientation np_ornA, np_ornB;
+        origin np_originA, np_originB;
 
         for (auto entity : entities) {
             auto [con] = con_view.get(entity);
@@ -292,6 +297,10 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
                 solver.inv_mA = inv_mA;
                 solver.inv_IA = &inv_IA;
                 solver.inv_IA_local = &inv_IA_local;
+                np_posA = posA;
+                np_ornA = ornA;
+                solver.posA = &np_posA;
+                solver.ornA = &np_ornA;
             }
 
             if (procedural_view.contains(con.body[1])) {
@@ -302,10 +311,15 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
                 solver.inv_mB = inv_mB;
                 solver.inv_IB = &inv_IB;
                 solver.inv_IB_local = &inv_IB_local;
+                np_posB = posB;
+                np_ornB = ornB;
+                solver.posB = &np_posB;
+                solver.ornB = &np_ornB;
             }
 
             if (origin_view.contains(con.body[0])) {
-                solver.originA = &origin_view.template get<origin>(con.body[0]);
+                solver.originA = procedural_view.contains(con.body[0]) ?
+                    &origin_view.template get<origin>(con.body[0]) : &np_originA;
                 solver.comA = origin_view.template get<center_of_mass>(con.body[0]);
                 // Transforms were integrated after the origin was last calculated.
                 *solver.originA = to_world_space(-solver.comA, posA, ornA);
@@ -314,7 +328,8 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
             }
 
             if (origin_view.contains(con.body[1])) {
-                solver.originB = &origin_view.template get<origin>(con.body[1]);
+                solver.originB = procedural_view.contains(con.body[1]) ?
+                    &origin_view.template get<origin>(con.body[1]) : &np_originB;
                 solver.comB = origin_view.template get<center_of_mass>(con.body[1]);
                 // Transforms were integrated after the origin was last calculated.
                 *solver.originB = to_world_space(-solver.comB, posB, ornB);
-- 
2.43.0


From de4fd6ed832dc8d22996fc0e611ba6bf94c5f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:52 +0000
Subject: [PATCH 079/116] fix: first contact point of a manifold was null in
 the main registry in asynchronous mode

---
 src/edyn/util/collision_util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/collision_util.cpp b/src/edyn/util/collision_util.cpp
index b0098f5..38d814e 100644
--- a/src/edyn/util/collision_util.cpp
+++ b/src/edyn/util/collision_util.cpp
@@ -352,7 +352,6 @@ entt::entity create_contact_point(entt::registry &registry,
 
     manifold_state.contact_entity = contact_entity;
     ++manifold_state.num_points;
-    registry.patch<contact_manifold_state>(manifold_entity);
 
     // Assign material properties to contact point.
     if (registry.all_of<material>(manifold.body[0]) && registry.all_of<material>(manifold.body[1])) {
@@ -387,6 +386,10 @@ entt::entity create_contact_point(entt::registry &registry,
     registry.emplace<contact_point_list>(contact_entity, std::move(cp_list));
     registry.emplace<contact_point>(contact_entity, std::move(cp));
 
+    // Must be done after the entity starts to be shared (i.e. after the graph
+    // edge is created), otherwise it would be unknown in the main registry.
+    registry.patch<contact_manifold_state>(manifold_entity);
+
     if (transient_contact) {
         registry.emplace<transient>(contact_entity, *transient_contact);
     }
-- 
2.43.0


From 6c49c4048df17b4e6de4c227b7f6d12da7f72c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:52 +0000
Subject: [PATCH 080/116] fix: mark new contact points as started in every kind
 of step

---
 src/edyn/simulation/simulation_worker.cpp  | 1 +
 src/edyn/simulation/stepper_sequential.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index b5c72fd..ceadec4 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -542,6 +542,7 @@ void simulation_worker::on_step_simulation(message<msg::step_simulation> &) {
     m_island_manager.update(m_last_time);
     m_solver.update(true);
     bphase.move_aabbs();
+    nphase.patch_new_contacts();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(m_registry);
diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index 104fcbd..e0d4e6c 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -92,6 +92,7 @@ void stepper_sequential::update(double time) {
 
         m_solver.update(m_multithreaded);
         bphase.move_aabbs();
+        nphase.patch_new_contacts();
 
         if (settings.clear_actions_func) {
             (*settings.clear_actions_func)(*m_registry);
@@ -140,6 +141,7 @@ void stepper_sequential::step_simulation(double time) {
     m_island_manager.update(m_last_time);
     m_solver.update(m_multithreaded);
     bphase.move_aabbs();
+    nphase.patch_new_contacts();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(*m_registry);
-- 
2.43.0


From 883dfe079d24cc9529b32f85d90ec3f22c03506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:28 +0000
Subject: [PATCH 081/116] fix: crash in asynchronous mode when a new polyhedron
 is moved

---
 src/edyn/simulation/simulation_worker.cpp | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index ceadec4..4bdfd31 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -177,6 +177,7 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
 
     auto &graph = registry.ctx().get<entity_graph>();
     auto procedural_view = registry.view<procedural_tag>();
+    auto moved_entities = std::vector<entt::entity>{};
 
     // Import components from main registry.
     m_importing = true;
@@ -239,17 +240,11 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
                 *origin = to_world_space(-com, pos, orn);
             }
 
-            if (registry.any_of<AABB>(local_entity)) {
-                update_aabb(registry, local_entity);
-            }
-
             if (registry.any_of<dynamic_tag>(local_entity)) {
                 update_inertia(registry, local_entity);
             }
 
-            if (registry.any_of<rotated_mesh_list>(local_entity)) {
-                update_rotated_mesh(registry, local_entity);
-            }
+            moved_entities.push_back(local_entity);
         }
 
         // When position is set manually, the AABB and cached origin must be updated.
@@ -265,9 +260,7 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
                 *origin = to_world_space(-com, pos, orn);
             }
 
-            if (registry.any_of<AABB>(local_entity)) {
-                update_aabb(registry, local_entity);
-            }
+            moved_entities.push_back(local_entity);
         }
 
         // Assign previous position and orientation components to dynamic entities
@@ -282,6 +275,27 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
     m_importing = false;
     m_op_observer->set_active(true);
 
+    // Update rotated meshes and then AABBs, which depend on them, of entities
+    // that were moved manually. These could have a shape that has just been
+    // imported and whose rotated meshes do not exist yet.
+    if (!moved_entities.empty()) {
+        m_poly_initializer.init_new_shapes();
+    }
+
+    for (auto entity : moved_entities) {
+        if (!registry.valid(entity)) {
+            continue;
+        }
+
+        if (registry.any_of<rotated_mesh_list>(entity)) {
+            update_rotated_mesh(registry, entity);
+        }
+
+        if (registry.any_of<AABB>(entity)) {
+            update_aabb(registry, entity);
+        }
+    }
+
     // Wake up all islands involved.
     wake_up_affected_islands(msg.content.ops);
 }
-- 
2.43.0


From b997f44a454a11c1da9bd8e7ec1618ccbbe3b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:19 +0000
Subject: [PATCH 082/116] fix: collision exclusions were lost after an excluded
 body is destroyed

---
 src/edyn/util/exclude_collision.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/exclude_collision.cpp b/src/edyn/util/exclude_collision.cpp
index 7dbaed4..d48efaa 100644
--- a/src/edyn/util/exclude_collision.cpp
+++ b/src/edyn/util/exclude_collision.cpp
@@ -6,6 +6,25 @@
 
 namespace edyn {
 
+// Remove entities that have been destroyed. They would otherwise take up room
+// and become null when the component is replicated into another registry, thus
+// cutting the list short.
+static
+void remove_invalid_exclusions(const entt::registry &registry, collision_exclusion &exclusion) {
+    const auto size = exclusion.num_entities();
+    unsigned count = 0;
+
+    for (unsigned i = 0; i < size; ++i) {
+        if (registry.valid(exclusion.entity[i])) {
+            exclusion.entity[count++] = exclusion.entity[i];
+        }
+    }
+
+    for (; count < size; ++count) {
+        exclusion.entity[count] = entt::null;
+    }
+}
+
 static
 void exclude_collision_one_way(entt::registry &registry, entt::entity first, entt::entity second) {
     EDYN_ASSERT(registry.all_of<rigidbody_tag>(first));
@@ -14,6 +33,7 @@ void exclude_collision_one_way(entt::registry &registry, entt::entity first, ent
     }
 
     auto &exclusion = registry.get<collision_exclusion>(first);
+    remove_invalid_exclusions(registry, exclusion);
     const auto size = exclusion.num_entities();
 
     for (unsigned i = 0; i < size; ++i) {
@@ -39,6 +59,7 @@ void exclude_collision(entt::registry &registry, entity_pair entities) {
 void remove_collision_exclusion_one_way(entt::registry &registry, entt::entity first, entt::entity second) {
     registry.patch<collision_exclusion>(first,
         [&](collision_exclusion &exclusion) {
+            remove_invalid_exclusions(registry, exclusion);
             const auto size = exclusion.num_entities();
             for (auto i = size; i; --i) {
                 const auto k = i - 1;
@@ -62,7 +83,10 @@ void clear_collision_exclusion(entt::registry &registry, entt::entity entity) {
 
     for (unsigned i = 0; i < size; ++i) {
         auto other = exclude.entity[i];
-        remove_collision_exclusion_one_way(registry, other, entity);
+
+        if (registry.valid(other)) {
+            remove_collision_exclusion_one_way(registry, other, entity);
+        }
     }
 
     registry.remove<collision_exclusion>(entity);
-- 
2.43.0


From 779f17c24379ae0b5ef7c8f2f6febc4ae6f9c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:55 +0000
Subject: [PATCH 083/116] fix: impulses rotated by stale inertia in
 asynchronous mode

---
 src/edyn/util/rigidbody.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 6f6537e..16f6899 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -227,10 +227,19 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
     registry.remove<island_resident, multi_island_resident>(entity);
 }
 
+// Inverse world-space inertia from current orientation. The value stored in the
+// `inertia_world_inv` component is not kept up to date in the main registry when
+// running in asynchronous mode.
+static matrix3x3 get_inertia_world_inv(entt::registry &registry, entt::entity entity) {
+    auto [orn, i_inv] = registry.get<const orientation, const inertia_inv>(entity);
+    auto basis = to_matrix3x3(orn);
+    return basis * i_inv * transpose(basis);
+}
+
 void rigidbody_apply_impulse(entt::registry &registry, entt::entity entity,
                              const vector3 &impulse, const vector3 &rel_location) {
     auto &m_inv = registry.get<const mass_inv>(entity);
-    auto &i_inv = registry.get<const inertia_world_inv>(entity);
+    auto i_inv = get_inertia_world_inv(registry, entity);
     registry.patch<linvel>(entity, [&](linvel &v) {
         v += impulse * m_inv;
     });
@@ -241,7 +250,7 @@ void rigidbody_apply_impulse(entt::registry &registry, entt::entity entity,
 
 void rigidbody_apply_torque_impulse(entt::registry &registry, entt::entity entity,
                                     const vector3 &torque_impulse) {
-    auto &i_inv = registry.get<const inertia_world_inv>(entity);
+    auto i_inv = get_inertia_world_inv(registry, entity);
     registry.patch<angvel>(entity, [&](angvel &w) {
         w += i_inv * torque_impulse;
     });
-- 
2.43.0


From 7057342f0c9459c58a7d0a0af80016c90c87a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:59 +0000
Subject: [PATCH 084/116] fix: velocity of bodies fallen asleep was not zero in
 the main registry in asynchronous mode

---
 src/edyn/simulation/island_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 8ae568c..081271f 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -578,11 +578,11 @@ void island_manager::put_to_sleep(entt::entity island_entity) {
         m_registry->emplace<sleeping_tag>(entity);
 
         if (m_registry->all_of<linvel>(entity)) {
-            m_registry->get<linvel>(entity) = vector3_zero;
+            m_registry->replace<linvel>(entity, vector3_zero);
         }
 
         if (m_registry->all_of<angvel>(entity)) {
-            m_registry->get<angvel>(entity) = vector3_zero;
+            m_registry->replace<angvel>(entity, vector3_zero);
         }
     }
 
-- 
2.43.0


From 93af753553386e42c9c72f9860a06f85a981f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:53 +0000
Subject: [PATCH 085/116] fix: network client without external networked
 components dereferenced a null input history

---
 src/edyn/networking/sys/client_side.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index e484ada..caaa649 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -54,7 +54,10 @@ static void on_construct_shared(entt::registry &registry, entt::entity entity) {
 static void on_destroy_shared(entt::registry &registry, entt::entity entity) {
     auto &ctx = registry.ctx().get<client_network_context>();
     ctx.destroyed_entities.push_back(entity);
-    ctx.input_history->remove_entity(entity);
+
+    if (ctx.input_history) {
+        ctx.input_history->remove_entity(entity);
+    }
 }
 
 void on_construct_networked_entity(entt::registry &registry, entt::entity entity) {
@@ -99,6 +102,12 @@ static void update_input_history(entt::registry &registry, double timestamp) {
     // Insert input components into history only for entities owned by the
     // local client.
     auto &ctx = registry.ctx().get<client_network_context>();
+
+    if (!ctx.input_history) {
+        // There are no external networked components.
+        return;
+    }
+
     ctx.input_history->emplace(registry, ctx.owned_entities, timestamp);
 
     // Erase all inputs until the current time minus the client-server time
@@ -696,6 +705,11 @@ static void insert_input_to_state_history(entt::registry &registry,
                                           double time, double time_delta) {
     // Insert inputs of entities not owned by this client into the state history.
     auto &ctx = registry.ctx().get<client_network_context>();
+
+    if (!ctx.input_history) {
+        return;
+    }
+
     entt::sparse_set unowned_entities;
 
     for (auto entity : snap.entities) {
-- 
2.43.0


From 5906f3330594d39876d822006859c12d045c01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:22 +0000
Subject: [PATCH 086/116] fix: snapshot of a polyhedron applied before its
 rotated mesh was initialized dereferenced a null pointer

---
 src/edyn/sys/update_aabbs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/sys/update_aabbs.cpp b/src/edyn/sys/update_aabbs.cpp
index 0c2e4d4..6acb42c 100644
--- a/src/edyn/sys/update_aabbs.cpp
+++ b/src/edyn/sys/update_aabbs.cpp
@@ -24,6 +24,11 @@ AABB updated_aabb(const polyhedron_shape &polyhedron,
     // `shape_aabb(const polyhedron_shape &, ...)` rotates each vertex of a
     // polyhedron to calculate the AABB. Specialize `updated_aabb` for
     // polyhedrons to use the rotated mesh.
+    if (!polyhedron.rotated) {
+        // Rotated mesh has not been initialized yet.
+        return shape_aabb(polyhedron, pos, orn);
+    }
+
     auto aabb = point_cloud_aabb(polyhedron.rotated->vertices);
     aabb.min += pos;
     aabb.max += pos;
-- 
2.43.0


From db1ddf365c76c6d198e95cf76c94701d655cc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:50 +0000
Subject: [PATCH 087/116] fix: bodies created over the network with a center of
 mass had no origin and an AABB at the center of mass

---
 src/edyn/networking/sys/client_side.cpp | 17 ++++++++++++++---
 src/edyn/networking/sys/server_side.cpp | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index caaa649..d61297e 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -23,6 +23,7 @@
 #include "edyn/networking/util/process_extrapolation_result.hpp"
 #include "edyn/networking/util/process_update_entity_map_packet.hpp"
 #include "edyn/core/entity_graph.hpp"
+#include "edyn/comp/center_of_mass.hpp"
 #include "edyn/comp/graph_edge.hpp"
 #include "edyn/comp/graph_node.hpp"
 #include "edyn/networking/comp/entity_owner.hpp"
@@ -30,6 +31,7 @@
 #include "edyn/networking/packet/registry_snapshot.hpp"
 #include "edyn/networking/context/client_network_context.hpp"
 #include "edyn/networking/extrapolation/extrapolation_worker.hpp"
+#include "edyn/comp/origin.hpp"
 #include "edyn/comp/tag.hpp"
 #include "edyn/networking/util/snap_to_pool_snapshot.hpp"
 #include "edyn/parallel/message_dispatcher.hpp"
@@ -38,6 +40,7 @@
 #include "edyn/serialization/std_s11n.hpp"
 #include "edyn/util/island_util.hpp"
 #include "edyn/util/vector_util.hpp"
+#include "edyn/math/transform.hpp"
 #include "edyn/util/aabb_util.hpp"
 #include "edyn/util/profile_util.hpp"
 #include "edyn/time/simulation_time.hpp"
@@ -488,13 +491,21 @@ static void process_packet(entt::registry &registry, const packet::create_entity
     // Create nodes and edges in entity graph, assign networked tags and
     // dependent components which are not networked.
     for (auto entity : entities_created) {
-        // Assign computed properties such as AABB and inverse mass.
-        if (registry.any_of<shape_index>(entity)) {
+        // Assign computed properties such as origin, AABB and inverse mass.
+        if (auto *com = registry.try_get<center_of_mass>(entity)) {
             auto &pos = registry.get<position>(entity);
             auto &orn = registry.get<orientation>(entity);
+            registry.emplace<origin>(entity, to_world_space(-*com, pos, orn));
+        }
+
+        if (registry.any_of<shape_index>(entity)) {
+            auto origin = registry.all_of<edyn::origin>(entity) ?
+                static_cast<vector3>(registry.get<edyn::origin>(entity)) :
+                static_cast<vector3>(registry.get<position>(entity));
+            auto &orn = registry.get<orientation>(entity);
 
             visit_shape(registry, entity, [&](auto &&shape) {
-                auto aabb = shape_aabb(shape, pos, orn);
+                auto aabb = shape_aabb(shape, origin, orn);
                 registry.emplace<AABB>(entity, aabb);
             });
         }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index e0c2ad7..a3be624 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -1,4 +1,5 @@
 #include "edyn/networking/sys/server_side.hpp"
+#include "edyn/comp/center_of_mass.hpp"
 #include "edyn/comp/graph_edge.hpp"
 #include "edyn/comp/graph_node.hpp"
 #include "edyn/comp/inertia.hpp"
@@ -6,6 +7,7 @@
 #include "edyn/comp/mass.hpp"
 #include "edyn/comp/position.hpp"
 #include "edyn/comp/orientation.hpp"
+#include "edyn/comp/origin.hpp"
 #include "edyn/comp/tag.hpp"
 #include "edyn/constraints/constraint.hpp"
 #include "edyn/constraints/null_constraint.hpp"
@@ -35,6 +37,7 @@
 #include "edyn/util/island_util.hpp"
 #include "edyn/util/profile_util.hpp"
 #include "edyn/util/vector_util.hpp"
+#include "edyn/math/transform.hpp"
 #include "edyn/util/aabb_util.hpp"
 #include "edyn/time/simulation_time.hpp"
 #include <entt/entity/registry.hpp>
@@ -115,13 +118,21 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     for (auto remote_entity : packet.entities) {
         auto local_entity = client.entity_map.at(remote_entity);
 
-        // Assign computed properties such as AABB and inverse mass.
-        if (registry.any_of<shape_index>(local_entity)) {
+        // Assign computed properties such as origin, AABB and inverse mass.
+        if (auto *com = registry.try_get<center_of_mass>(local_entity)) {
             auto &pos = registry.get<position>(local_entity);
             auto &orn = registry.get<orientation>(local_entity);
+            registry.emplace<origin>(local_entity, to_world_space(-*com, pos, orn));
+        }
+
+        if (registry.any_of<shape_index>(local_entity)) {
+            auto origin = registry.all_of<edyn::origin>(local_entity) ?
+                static_cast<vector3>(registry.get<edyn::origin>(local_entity)) :
+                static_cast<vector3>(registry.get<position>(local_entity));
+            auto &orn = registry.get<orientation>(local_entity);
 
             visit_shape(registry, local_entity, [&](auto &&shape) {
-                auto aabb = shape_aabb(shape, pos, orn);
+                auto aabb = shape_aabb(shape, origin, orn);
                 registry.emplace<AABB>(local_entity, aabb);
             });
         }
-- 
2.43.0


From 088f90b2d6d0635668fc1d77c028c7519a26fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:50 +0000
Subject: [PATCH 088/116] fix: world inverse inertia of bodies created over the
 network ignored their orientation

---
 src/edyn/networking/sys/client_side.cpp | 3 ++-
 src/edyn/networking/sys/server_side.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index d61297e..d0b4cd8 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -523,7 +523,8 @@ static void process_packet(entt::registry &registry, const packet::create_entity
                 EDYN_ASSERT(*inertia != matrix3x3_zero);
                 auto I_inv = inverse_matrix_symmetric(*inertia);
                 registry.emplace<inertia_inv>(entity, I_inv);
-                registry.emplace<inertia_world_inv>(entity, I_inv);
+                auto basis = to_matrix3x3(registry.get<orientation>(entity));
+                registry.emplace<inertia_world_inv>(entity, basis * I_inv * transpose(basis));
             } else {
                 EDYN_ASSERT(*inertia == matrix3x3_zero);
                 registry.emplace<inertia_inv>(entity, matrix3x3_zero);
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index a3be624..db5d962 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -150,7 +150,8 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
                 EDYN_ASSERT(*inertia != matrix3x3_zero);
                 auto I_inv = inverse_matrix_symmetric(*inertia);
                 registry.emplace<inertia_inv>(local_entity, I_inv);
-                registry.emplace<inertia_world_inv>(local_entity, I_inv);
+                auto basis = to_matrix3x3(registry.get<orientation>(local_entity));
+                registry.emplace<inertia_world_inv>(local_entity, basis * I_inv * transpose(basis));
             } else {
                 EDYN_ASSERT(*inertia == matrix3x3_zero);
                 registry.emplace<inertia_inv>(local_entity, matrix3x3_zero);
-- 
2.43.0


From 96c45419148a98e31e542cbff1f0fcda003ac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:46 +0000
Subject: [PATCH 089/116] fix: network client erased the mapping of another
 entity when it destroyed one of its own

---
 src/edyn/networking/sys/client_side.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index d0b4cd8..d6526b4 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -75,8 +75,8 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
     auto &ctx = registry.ctx().get<client_network_context>();
 
     if (!ctx.importing_entities) {
-        if (ctx.entity_map.contains(entity)) {
-            ctx.entity_map.erase(entity);
+        if (ctx.entity_map.contains_local(entity)) {
+            ctx.entity_map.erase_local(entity);
         }
 
         ctx.client_destroyed_entities.push_back(entity);
-- 
2.43.0


From b7d286be670cd052e0c50e7d513d3649245057bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:46 +0000
Subject: [PATCH 090/116] fix: entity destroyed by a network client soon after
 it was created came back and stayed in the client

---
 src/edyn/networking/sys/server_side.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index db5d962..4996d63 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -188,7 +188,6 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
 
 static void process_packet(entt::registry &registry, entt::entity client_entity, const packet::destroy_entity &packet) {
     auto &client = registry.get<remote_client>(client_entity);
-    auto &aabboi = registry.get<aabb_of_interest>(client_entity);
 
     for (auto remote_entity : packet.entities) {
         if (client.entity_map.contains(remote_entity)) {
@@ -201,10 +200,10 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
                     registry.destroy(local_entity);
                     client.entity_map.erase(remote_entity);
                     client.owned_entities.erase(local_entity);
-
-                    // Remove from AABB of interest of owner to prevent notifying
-                    // the requester itself of destruction of these entities.
-                    aabboi.entities.remove(local_entity);
+                    // The entity is left in the AABB of interest so that the
+                    // requester is notified of its destruction as well, because
+                    // it might have received the entity back from the server
+                    // after having destroyed it.
                 }
             }
         }
-- 
2.43.0


From 37af6efe1bfa3730ec4324fe59b16c5954e78384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:24 +0000
Subject: [PATCH 091/116] fix: entity which left and entered the AABB of
 interest again quickly was mapped twice in the server

---
 .../util/process_update_entity_map_packet.cpp         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/edyn/networking/util/process_update_entity_map_packet.cpp b/src/edyn/networking/util/process_update_entity_map_packet.cpp
index 051aadf..26c6499 100644
--- a/src/edyn/networking/util/process_update_entity_map_packet.cpp
+++ b/src/edyn/networking/util/process_update_entity_map_packet.cpp
@@ -9,6 +9,17 @@ void process_update_entity_map_packet(const entt::registry &registry, const pack
         auto remote_entity = pair.second;
 
         if (registry.valid(local_entity)) {
+            // There might be a previous mapping if the entity left and entered
+            // the AABB of interest while packets were on their way. The latest
+            // mapping prevails.
+            if (emap.contains_local(local_entity)) {
+                emap.erase_local(local_entity);
+            }
+
+            if (emap.contains(remote_entity)) {
+                emap.erase(remote_entity);
+            }
+
             emap.insert(remote_entity, local_entity);
         }
     }
-- 
2.43.0


From 0a675917f0b34c470397fa297d987144431f0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:57 +0000
Subject: [PATCH 092/116] fix: network client closed while the thread of its
 extrapolation worker was running and connected to the message queue

---
 .../extrapolation/extrapolation_worker.hpp    |  4 ++++
 .../extrapolation/extrapolation_worker.cpp    | 24 +++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/edyn/networking/extrapolation/extrapolation_worker.hpp b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
index a20d2be..4e9021c 100644
--- a/include/edyn/networking/extrapolation/extrapolation_worker.hpp
+++ b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
@@ -82,6 +82,7 @@ private:
         msg::set_extrapolator_context_settings> m_message_queue;
 
     std::atomic<bool> m_running {false};
+    std::atomic<bool> m_finished {true};
     std::atomic<bool> m_has_messages {false};
 
     std::vector<extrapolation_request> m_requests;
@@ -97,6 +98,9 @@ private:
 
     std::mutex m_mutex;
     std::condition_variable m_cv;
+
+    std::mutex m_finish_mutex;
+    std::condition_variable m_finish_cv;
 };
 
 }
diff --git a/src/edyn/networking/extrapolation/extrapolation_worker.cpp b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
index c6354da..7935cb0 100644
--- a/src/edyn/networking/extrapolation/extrapolation_worker.cpp
+++ b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
@@ -86,6 +86,8 @@ extrapolation_worker::extrapolation_worker(const settings &settings,
 
 extrapolation_worker::~extrapolation_worker() {
     stop();
+    // The message queue outlives this object.
+    m_message_queue.push_sink().disconnect<&extrapolation_worker::on_push_message>(*this);
 }
 
 void extrapolation_worker::init() {
@@ -108,6 +110,7 @@ void extrapolation_worker::deinit() {
 
 void extrapolation_worker::start() {
     m_running.store(true, std::memory_order_release);
+    m_finished.store(false, std::memory_order_release);
 
     auto &settings = m_registry.ctx().get<edyn::settings>();
     (*settings.start_thread_func)([](void *args) {
@@ -116,8 +119,20 @@ void extrapolation_worker::start() {
 }
 
 void extrapolation_worker::stop() {
-    m_running.store(false, std::memory_order_release);
-    m_cv.notify_one();
+    {
+        auto lock = std::lock_guard<std::mutex>(m_mutex);
+        m_running.store(false, std::memory_order_release);
+        m_cv.notify_one();
+    }
+
+    // The thread must not be running when this object is destroyed.
+    std::unique_lock<std::mutex> lock(m_finish_mutex);
+    m_finish_cv.wait(lock, [&]() {
+        return m_finished.load(std::memory_order_relaxed);
+    });
+
+    // Do not leave unprocessed messages behind.
+    m_message_queue.update();
 }
 
 void extrapolation_worker::set_settings(const edyn::settings &settings) {
@@ -275,6 +290,7 @@ void extrapolation_worker::on_set_extrapolator_context_settings(message<msg::set
 }
 
 void extrapolation_worker::on_push_message() {
+    auto lock = std::lock_guard<std::mutex>(m_mutex);
     m_has_messages.store(true, std::memory_order_release);
     m_cv.notify_one();
 }
@@ -566,6 +582,10 @@ void extrapolation_worker::run() {
     }
 
     deinit();
+
+    auto lock = std::lock_guard<std::mutex>(m_finish_mutex);
+    m_finished.store(true, std::memory_order_relaxed);
+    m_finish_cv.notify_one();
 }
 
 }
-- 
2.43.0


From 8b54fc0fb2066d5cdb76f9af997f795169499895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:59 +0000
Subject: [PATCH 093/116] fix: network client exported an entity which was
 destroyed before the server was notified of its creation

---
 src/edyn/networking/sys/client_side.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index d6526b4..3148303 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -45,6 +45,7 @@
 #include "edyn/util/profile_util.hpp"
 #include "edyn/time/simulation_time.hpp"
 #include <entt/entity/registry.hpp>
+#include <algorithm>
 #include <set>
 
 namespace edyn {
@@ -79,7 +80,15 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
             ctx.entity_map.erase_local(entity);
         }
 
-        ctx.client_destroyed_entities.push_back(entity);
+        // If the server has not been notified of its creation yet, it does not
+        // need to be notified of its destruction either.
+        auto it = std::find(ctx.client_created_entities.begin(), ctx.client_created_entities.end(), entity);
+
+        if (it != ctx.client_created_entities.end()) {
+            ctx.client_created_entities.erase(it);
+        } else {
+            ctx.client_destroyed_entities.push_back(entity);
+        }
     }
 }
 
-- 
2.43.0


From 50ab4f5e3656e1833ac7d73fe5202705c7582037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 094/116] fix: entity destroyed by a network client was created
 again if the server sent it in the meantime

---
 src/edyn/networking/sys/client_side.cpp | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 3148303..32f33da 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -76,9 +76,9 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
     auto &ctx = registry.ctx().get<client_network_context>();
 
     if (!ctx.importing_entities) {
-        if (ctx.entity_map.contains_local(entity)) {
-            ctx.entity_map.erase_local(entity);
-        }
+        // The mapping is kept until the server notifies this client of its
+        // destruction, so that the entity is not created again if the server
+        // sends it in the meantime.
 
         // If the server has not been notified of its creation yet, it does not
         // need to be notified of its destruction either.
@@ -428,6 +428,16 @@ static void process_packet(entt::registry &registry, const packet::client_create
 static void process_packet(entt::registry &registry, const packet::update_entity_map &packet) {
     auto &ctx = registry.ctx().get<client_network_context>();
     process_update_entity_map_packet(registry, packet, ctx.entity_map);
+
+    // Also map entities that have been destroyed by this client in the meantime,
+    // so that they won't be created again if the server sends them.
+    for (auto [local_entity, remote_entity] : packet.pairs) {
+        if (!registry.valid(local_entity) &&
+            !ctx.entity_map.contains(remote_entity) &&
+            !ctx.entity_map.contains_local(local_entity)) {
+            ctx.entity_map.insert(remote_entity, local_entity);
+        }
+    }
 }
 
 template<typename T>
@@ -570,6 +580,11 @@ static void process_packet(entt::registry &registry, const packet::create_entity
     // for rigid bodies above.
     for (auto remote_entity : packet.entities) {
         auto local_entity = ctx.entity_map.at(remote_entity);
+
+        if (!registry.valid(local_entity)) {
+            continue;
+        }
+
         maybe_create_graph_edge(registry, local_entity, constraints_tuple);
         maybe_create_graph_edge<null_constraint>(registry, local_entity);
     }
@@ -618,7 +633,10 @@ static void notify_remote_entities_exited(entt::registry &registry, const std::v
         if (!ctx.entity_map.contains(remote_entity)) continue;
 
         auto local_entity = ctx.entity_map.at(remote_entity);
-        ctx.entity_exited_signal.publish(local_entity);
+
+        if (registry.valid(local_entity)) {
+            ctx.entity_exited_signal.publish(local_entity);
+        }
     }
 }
 
-- 
2.43.0


From 2302fbb055fe2e8b110bd4c14b7f64c6ad376dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:39 +0000
Subject: [PATCH 095/116] fix: constraint received over the network whose body
 had been destroyed crashed the receiver

---
 src/edyn/networking/sys/client_side.cpp | 12 +++++++++++-
 src/edyn/networking/sys/server_side.cpp | 17 ++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 32f33da..d2fb9c1 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -445,6 +445,16 @@ void create_graph_edge(entt::registry &registry, entt::entity entity) {
     if (registry.any_of<graph_edge>(entity)) return;
 
     auto &comp = registry.get<T>(entity);
+
+    // One of the bodies might have been destroyed while the packet was on its
+    // way, in which case the constraint cannot exist.
+    auto node_view = registry.view<graph_node>();
+
+    if (!node_view.contains(comp.body[0]) || !node_view.contains(comp.body[1])) {
+        registry.destroy(entity);
+        return;
+    }
+
     auto node_index0 = registry.get<graph_node>(comp.body[0]).node_index;
     auto node_index1 = registry.get<graph_node>(comp.body[1]).node_index;
     auto edge_index = registry.ctx().get<entity_graph>().insert_edge(entity, node_index0, node_index1);
@@ -454,7 +464,7 @@ void create_graph_edge(entt::registry &registry, entt::entity entity) {
 
 template<typename... Ts>
 void maybe_create_graph_edge(entt::registry &registry, entt::entity entity) {
-    ((registry.any_of<Ts>(entity) ? create_graph_edge<Ts>(registry, entity) : void(0)), ...);
+    ((registry.valid(entity) && registry.any_of<Ts>(entity) ? create_graph_edge<Ts>(registry, entity) : void(0)), ...);
 }
 
 template<typename... Ts>
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 4996d63..9f15141 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -60,6 +60,16 @@ void create_graph_edge(entt::registry &registry, entt::entity entity) {
     if (registry.any_of<graph_edge>(entity)) return;
 
     auto &comp = registry.get<T>(entity);
+
+    // One of the bodies might have been destroyed while the packet was on its
+    // way, in which case the constraint cannot exist.
+    auto node_view = registry.view<graph_node>();
+
+    if (!node_view.contains(comp.body[0]) || !node_view.contains(comp.body[1])) {
+        registry.destroy(entity);
+        return;
+    }
+
     auto node_index0 = registry.get<graph_node>(comp.body[0]).node_index;
     auto node_index1 = registry.get<graph_node>(comp.body[1]).node_index;
     auto edge_index = registry.ctx().get<entity_graph>().insert_edge(entity, node_index0, node_index1);
@@ -69,7 +79,7 @@ void create_graph_edge(entt::registry &registry, entt::entity entity) {
 
 template<typename... Ts>
 void maybe_create_graph_edge(entt::registry &registry, entt::entity entity) {
-    ((registry.any_of<Ts>(entity) ? create_graph_edge<Ts>(registry, entity) : void(0)), ...);
+    ((registry.valid(entity) && registry.any_of<Ts>(entity) ? create_graph_edge<Ts>(registry, entity) : void(0)), ...);
 }
 
 template<typename... Ts>
@@ -181,6 +191,11 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     // for rigid bodies above.
     for (auto remote_entity : packet.entities) {
         auto local_entity = client.entity_map.at(remote_entity);
+
+        if (!registry.valid(local_entity)) {
+            continue;
+        }
+
         maybe_create_graph_edge(registry, local_entity, constraints_tuple);
         maybe_create_graph_edge<null_constraint>(registry, local_entity);
     }
-- 
2.43.0


From 1a9b439ab151f5197c689f6f45cf27ce30bfd88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 096/116] fix: network client received constraints without the
 static body they are attached to when it is outside the AABB of interest

---
 src/edyn/networking/sys/update_aabbs_of_interest.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/edyn/networking/sys/update_aabbs_of_interest.cpp b/src/edyn/networking/sys/update_aabbs_of_interest.cpp
index 2179e67..d4c4038 100644
--- a/src/edyn/networking/sys/update_aabbs_of_interest.cpp
+++ b/src/edyn/networking/sys/update_aabbs_of_interest.cpp
@@ -33,7 +33,9 @@ void follow_aabb_of_interest(entt::registry &registry) {
 
 void update_aabbs_of_interest_seq(entt::registry &registry) {
     auto networked_view = registry.view<networked_tag>();
+    auto edge_view = registry.view<graph_edge>();
     auto &bphase = registry.ctx().get<broadphase>();
+    auto &graph = registry.ctx().get<entity_graph>();
 
     registry.view<aabb_of_interest>().each([&](aabb_of_interest &aabboi) {
         entt::sparse_set contained_entities;
@@ -51,6 +53,16 @@ void update_aabbs_of_interest_seq(entt::registry &registry) {
             for (auto entity : island.edges) {
                 if (networked_view.contains(entity) && !contained_entities.contains(entity)) {
                     contained_entities.push(entity);
+
+                    // Include the non-procedural entities it connects which
+                    // might be outside of the AABB.
+                    auto node_entities = graph.edge_node_entities(edge_view.get<graph_edge>(entity).edge_index);
+
+                    for (auto node_entity : {node_entities.first, node_entities.second}) {
+                        if (networked_view.contains(node_entity) && !contained_entities.contains(node_entity)) {
+                            contained_entities.push(node_entity);
+                        }
+                    }
                 }
             }
         });
-- 
2.43.0


From 2cd8bebd7da9e5a0ed24ff9ae0e5405869423f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:40 +0000
Subject: [PATCH 097/116] fix: entity owned by a network client and destroyed
 by the server was kept among the entities owned by the client

---
 src/edyn/networking/sys/server_side.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 9f15141..8f2429c 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -214,7 +214,6 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
                 if (owner && owner->client_entity == client_entity) {
                     registry.destroy(local_entity);
                     client.entity_map.erase(remote_entity);
-                    client.owned_entities.erase(local_entity);
                     // The entity is left in the AABB of interest so that the
                     // requester is notified of its destruction as well, because
                     // it might have received the entity back from the server
@@ -309,8 +308,19 @@ static void process_packet(entt::registry &, entt::entity, const packet::entity_
 static void process_packet(entt::registry &, entt::entity, const packet::entity_exited &) {}
 static void process_packet(entt::registry &, entt::entity, const packet::asset_sync_response &) {}
 
+static void on_destroy_entity_owner(entt::registry &registry, entt::entity entity) {
+    auto &owner = registry.get<entity_owner>(entity);
+
+    if (registry.valid(owner.client_entity)) {
+        if (auto *client = registry.try_get<remote_client>(owner.client_entity)) {
+            client->owned_entities.remove(entity);
+        }
+    }
+}
+
 void init_network_server(entt::registry &registry) {
     registry.ctx().emplace<server_network_context>(registry);
+    registry.on_destroy<entity_owner>().connect<&on_destroy_entity_owner>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
     settings.network_settings = server_network_settings{};
@@ -322,6 +332,7 @@ void init_network_server(entt::registry &registry) {
 }
 
 void deinit_network_server(entt::registry &registry) {
+    registry.on_destroy<entity_owner>().disconnect<&on_destroy_entity_owner>();
     registry.ctx().erase<server_network_context>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
@@ -766,9 +777,11 @@ entt::entity server_make_client(entt::registry &registry, bool allow_full_owners
 }
 
 void server_destroy_client(entt::registry &registry, entt::entity client_entity) {
+    // Entities are removed from `owned_entities` as they are destroyed.
     auto &client = registry.get<remote_client>(client_entity);
+    auto owned_entities = std::vector<entt::entity>(client.owned_entities.begin(), client.owned_entities.end());
 
-    for (auto entity : client.owned_entities) {
+    for (auto entity : owned_entities) {
         if (registry.valid(entity)) {
             registry.destroy(entity);
         }
-- 
2.43.0


From 59dedf078757d7ef6f13e9873ee5be6464f3a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:20 +0000
Subject: [PATCH 098/116] fix: network client received entities with an owner
 before it was told which client it is and took those of others for its own

---
 src/edyn/networking/sys/server_side.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 8f2429c..b97879a 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -644,8 +644,8 @@ void update_network_server(entt::registry &registry) {
     server_process_timed_packets(registry, time);
     update_server_snapshot_exporter(registry, time);
     update_aabbs_of_interest(registry);
-    process_aabbs_of_interest(registry, time);
     publish_pending_created_clients(registry);
+    process_aabbs_of_interest(registry, time);
     dispatch_actions(registry, time);
 #ifndef EDYN_DISABLE_PROFILING
     update_network_profiling(registry, time);
-- 
2.43.0


From 2b18f90e7142f4219b0f15549ac36515375c6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:04 +0000
Subject: [PATCH 099/116] fix: inputs and actions of an entity owned by a
 network client were overwritten with old ones when the server sent it

---
 .../util/client_snapshot_importer.hpp         | 25 +++++++++++++++----
 src/edyn/networking/sys/client_side.cpp       |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/edyn/networking/util/client_snapshot_importer.hpp b/include/edyn/networking/util/client_snapshot_importer.hpp
index 6caa4d2..f5e83f2 100644
--- a/include/edyn/networking/util/client_snapshot_importer.hpp
+++ b/include/edyn/networking/util/client_snapshot_importer.hpp
@@ -2,7 +2,11 @@
 #define EDYN_NETWORKING_UTIL_CLIENT_SNAPSHOT_IMPORTER_HPP
 
 #include <entt/entity/registry.hpp>
+#include <entt/entity/sparse_set.hpp>
+#include <type_traits>
 #include "edyn/comp/merge_component.hpp"
+#include "edyn/networking/comp/action_history.hpp"
+#include "edyn/networking/comp/network_input.hpp"
 #include "edyn/networking/packet/registry_snapshot.hpp"
 
 namespace edyn {
@@ -11,9 +15,11 @@ class client_snapshot_importer {
 public:
     virtual ~client_snapshot_importer() = default;
 
-    // Load remote snapshot into a registry.
+    // Load remote snapshot into a registry. The inputs and actions of the entities
+    // owned by the client are left as they are, since they're dictated by it.
     virtual void import(entt::registry &registry, const entity_map &emap,
-                        const packet::registry_snapshot &snap) = 0;
+                        const packet::registry_snapshot &snap,
+                        const entt::sparse_set &owned_entities = {}) = 0;
 
     // Load a snapshot that's been mapped to local (using
     // `registry_snapshot::convert_remloc`) into a registry.
@@ -27,7 +33,8 @@ class client_snapshot_importer_impl : public client_snapshot_importer {
     template<typename Component>
     void import_components(entt::registry &registry, const entity_map &emap,
                            const std::vector<entt::entity> &entities,
-                           const pool_snapshot_data_impl<Component> &pool) {
+                           const pool_snapshot_data_impl<Component> &pool,
+                           [[maybe_unused]] const entt::sparse_set &owned_entities) {
         for (size_t i = 0; i < pool.entity_indices.size(); ++i) {
             auto entity_index = pool.entity_indices[i];
             auto remote_entity = entities[entity_index];
@@ -42,6 +49,13 @@ class client_snapshot_importer_impl : public client_snapshot_importer {
                 continue;
             }
 
+            if constexpr(std::is_base_of_v<network_input, Component> ||
+                         std::is_same_v<action_history, Component>) {
+                if (owned_entities.contains(local_entity) && registry.any_of<Component>(local_entity)) {
+                    continue;
+                }
+            }
+
             if constexpr(std::is_empty_v<Component>) {
                 if (!registry.any_of<Component>(local_entity)) {
                     registry.emplace<Component>(local_entity);
@@ -95,14 +109,15 @@ public:
     client_snapshot_importer_impl([[maybe_unused]] std::tuple<Components...>) {}
 
     void import(entt::registry &registry, const entity_map &emap,
-                const packet::registry_snapshot &snap) override {
+                const packet::registry_snapshot &snap,
+                const entt::sparse_set &owned_entities = {}) override {
         auto all_components = std::tuple<Components...>{};
 
         for (auto &pool : snap.pools) {
             visit_tuple(all_components, pool.component_index, [&](auto &&c) {
                 using Component = std::decay_t<decltype(c)>;
                 auto *typed_pool = static_cast<pool_snapshot_data_impl<Component> *>(pool.ptr.get());
-                import_components(registry, emap, snap.entities, *typed_pool);
+                import_components(registry, emap, snap.entities, *typed_pool, owned_entities);
             });
         }
     }
diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index d2fb9c1..8b577ca 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -514,7 +514,7 @@ static void process_packet(entt::registry &registry, const packet::create_entity
     // will not be added to the next outbound snapshot.
     ctx.importing_entities = true;
     ctx.snapshot_exporter->set_observer_enabled(false);
-    ctx.snapshot_importer->import(registry, ctx.entity_map, packet);
+    ctx.snapshot_importer->import(registry, ctx.entity_map, packet, ctx.owned_entities);
     ctx.snapshot_exporter->set_observer_enabled(true);
 
     // Create nodes and edges in entity graph, assign networked tags and
-- 
2.43.0


From 2dad9967593eead9f697f113d1d56dd96d2853a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:58 +0000
Subject: [PATCH 100/116] fix: action of a network client was dropped by the
 server if a later action of another of its entities was executed first

---
 include/edyn/networking/comp/remote_client.hpp | 2 --
 src/edyn/networking/sys/server_side.cpp        | 9 ---------
 2 files changed, 11 deletions(-)

diff --git a/include/edyn/networking/comp/remote_client.hpp b/include/edyn/networking/comp/remote_client.hpp
index f9edc06..052c6ae 100644
--- a/include/edyn/networking/comp/remote_client.hpp
+++ b/include/edyn/networking/comp/remote_client.hpp
@@ -46,8 +46,6 @@ struct remote_client {
     bool allow_full_ownership {true};
 
     clock_sync_data clock_sync;
-
-    double last_executed_history_entry_timestamp {0};
 };
 
 }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index b97879a..96540f8 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -608,25 +608,16 @@ static void dispatch_actions(entt::registry &registry, double time) {
 
         auto [client] = client_view.get(owner.client_entity);
         auto it = history.entries.begin();
-        auto last_timestamp = client.last_executed_history_entry_timestamp;
 
         for (; it != history.entries.end(); ++it) {
-            if (it->timestamp <= client.last_executed_history_entry_timestamp) {
-                // Action has already been processed.
-                continue;
-            }
-
             if (it->timestamp > time - client.playout_delay) {
                 // This action and all that follow should be processed later.
                 break;
             }
 
             ctx.snapshot_importer->import_action(registry, entity, it->action_index, it->data);
-            last_timestamp = it->timestamp;
         }
 
-        client.last_executed_history_entry_timestamp = last_timestamp;
-
         // Delete all actions up to the last one that was executed.
         history.entries.erase(history.entries.begin(), it);
     }
-- 
2.43.0


From 7ac41c0b1655fd98692c70c1b1f3dab94fbfae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:58 +0000
Subject: [PATCH 101/116] fix: actions of a network client were executed again
 by the server when the time delta between their clocks changed

---
 include/edyn/networking/comp/action_history.hpp     | 13 ++++++++-----
 .../networking/util/server_snapshot_importer.hpp    |  6 +-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/edyn/networking/comp/action_history.hpp b/include/edyn/networking/comp/action_history.hpp
index 93553e5..009dd31 100644
--- a/include/edyn/networking/comp/action_history.hpp
+++ b/include/edyn/networking/comp/action_history.hpp
@@ -29,6 +29,7 @@ struct action_history {
     };
 
     std::vector<entry> entries;
+    // Timestamp of the last entry that was merged, in the clock of its origin.
     double last_timestamp {};
 
     bool empty() const {
@@ -41,17 +42,19 @@ struct action_history {
         entries.erase(entries.begin(), it);
     }
 
-    void merge(const action_history &other) {
+    void merge(const action_history &other, double time_delta = 0) {
         EDYN_ASSERT(!other.empty());
 
-        // Only append newer entries.
+        // Only append newer entries. The time delta between both clocks can
+        // change thus timestamps have to be compared before it is added.
         auto other_begin = std::find_if(other.entries.begin(), other.entries.end(),
                                         [&](auto &&entry) { return entry.timestamp > last_timestamp; });
-        entries.insert(entries.end(), other_begin, other.entries.end());
 
-        if (!entries.empty()) {
+        for (auto it = other_begin; it != other.entries.end(); ++it) {
             // Assign new highest timestamp yet inserted.
-            last_timestamp = entries.back().timestamp;
+            last_timestamp = it->timestamp;
+            entries.push_back(*it);
+            entries.back().timestamp += time_delta;
         }
     }
 
diff --git a/include/edyn/networking/util/server_snapshot_importer.hpp b/include/edyn/networking/util/server_snapshot_importer.hpp
index 3b66d7b..623865a 100644
--- a/include/edyn/networking/util/server_snapshot_importer.hpp
+++ b/include/edyn/networking/util/server_snapshot_importer.hpp
@@ -338,12 +338,8 @@ public:
 
             history.sort();
 
-            for (auto &entry : history.entries) {
-                entry.timestamp += time_delta;
-            }
-
             registry.patch<action_history>(entity, [&](action_history &current) {
-                current.merge(history);
+                current.merge(history, time_delta);
             });
         }
 
-- 
2.43.0


From b51f61315042e8f4b7e44fe20d1197f101c672f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:32 +0000
Subject: [PATCH 102/116] fix: paged_triangle_mesh::set_thickness forgets the
 value for pages loaded later

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 2a39de5..f929393 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -174,6 +174,9 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
 }
 
 void paged_triangle_mesh::set_thickness(scalar thickness) {
+    // Store value to be assigned to submeshes that are loaded later.
+    m_thickness = thickness;
+
     for (auto &node : m_cache) {
         auto trimesh = node.trimesh;
 
-- 
2.43.0


From 27760ace48f4204fd9c816cada892eb9e1cfbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:52 +0000
Subject: [PATCH 103/116] fix: concurrent page loads share the file position of
 the embedded paged mesh file

---
 include/edyn/serialization/paged_triangle_mesh_s11n.hpp | 3 +++
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp     | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
index e719260..1390ee0 100644
--- a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
+++ b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 #define EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 
+#include <mutex>
 #include <type_traits>
 #include "edyn/shapes/paged_triangle_mesh.hpp"
 #include "edyn/shapes/triangle_mesh_page_loader.hpp"
@@ -127,6 +128,8 @@ private:
     std::vector<size_t> m_offsets;
     paged_triangle_mesh_serialization_mode m_mode;
     enqueue_task_t *m_enqueue_task {nullptr};
+    // Guards the file position when embedded submeshes are loaded concurrently.
+    std::mutex m_load_mutex;
 };
 
 /**
diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index a88757a..d242d4e 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -130,10 +130,13 @@ void load_mesh_context::load(unsigned start, unsigned end) {
     auto mesh = std::make_shared<triangle_mesh>();
 
     switch(input->m_mode) {
-    case paged_triangle_mesh_serialization_mode::embedded:
+    case paged_triangle_mesh_serialization_mode::embedded: {
+        // Multiple submeshes can be loaded at the same time in different threads.
+        auto lock = std::lock_guard(input->m_load_mutex);
         input->seek_position(input->m_base_offset + input->m_offsets[m_index]);
         serialize(*input, *mesh);
         break;
+    }
     case paged_triangle_mesh_serialization_mode::external: {
         auto tri_mesh_path = get_submesh_path(input->m_path, m_index);
         auto tri_mesh_archive = file_input_archive(tri_mesh_path);
-- 
2.43.0


From 8723112e775f2c7dbe4c5560761a0051fd870de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:20 +0000
Subject: [PATCH 104/116] fix: get_submesh_path inserts the index into a
 directory name which contains a dot

---
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index d242d4e..1a0cf94 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -17,8 +17,11 @@ namespace edyn {
 std::string get_submesh_path(const std::string &paged_triangle_mesh_path, size_t index) {
     auto submesh_path = paged_triangle_mesh_path;
     auto dot_pos = submesh_path.rfind('.');
+    auto separator_pos = submesh_path.find_last_of("/\\");
 
-    if (dot_pos != std::string::npos) {
+    // Ignore dots in the directory part of the path.
+    if (dot_pos != std::string::npos &&
+        (separator_pos == std::string::npos || dot_pos > separator_pos)) {
         submesh_path.insert(dot_pos, std::to_string(index));
     } else {
         submesh_path += std::to_string(index);
-- 
2.43.0


From c7f6892147067e2736f2d2a5445ae8efb5097ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 105/116] fix: contacts of polyhedra with mesh faces use the
 projection along the axis before clipping

---
 src/edyn/collision/collide/collide_polyhedron_mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
index 6ca5344..773d467 100644
--- a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
@@ -145,7 +145,9 @@ static void collide_polyhedron_triangle(
 
     projection_poly = -polyhedron_support_projection(rmesh.vertices, poly_mesh.neighbors_start, poly_mesh.neighbor_indices, -sep_axis);
 
-    distance = projection_poly - proj_tri;
+    // The separating axis might have changed, thus update the projection.
+    projection_tri = proj_tri;
+    distance = projection_poly - projection_tri;
 
     if (distance > ctx.threshold) {
         return;
-- 
2.43.0


From 24a1891b88db6e0315703410f6504781740d49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 106/116] fix: friction, restitution and material at a point of
 a paged mesh come from any triangle whose AABB is near

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 58 +++++++++++++++++++++----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index f929393..b818eae 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -5,6 +5,8 @@
 #include <mutex>
 #include <entt/entity/registry.hpp>
 #include "edyn/parallel/message_dispatcher.hpp"
+#include "edyn/math/geom.hpp"
+#include "edyn/math/triangle.hpp"
 #include "edyn/shapes/triangle_mesh.hpp"
 #include "edyn/util/paged_mesh_load_reporting.hpp"
 
@@ -140,12 +142,52 @@ AABB make_point_aabb(vector3 point, scalar size = 0.005) {
     return {point - extents, point + extents};
 }
 
+static scalar point_triangle_distance_sqr(const vector3 &point, const triangle_vertices &vertices, const vector3 &normal) {
+    if (point_in_triangle(vertices, normal, point)) {
+        return square(dot(point - vertices[0], normal));
+    }
+
+    auto dist_sqr = EDYN_SCALAR_MAX;
+
+    for (size_t i = 0; i < 3; ++i) {
+        vector3 closest; scalar t;
+        dist_sqr = std::min(dist_sqr, closest_point_segment(vertices[i], vertices[(i + 1) % 3], point, t, closest));
+    }
+
+    return dist_sqr;
+}
+
+// Calls function for the cached triangle which is closest to the given point
+// among the triangles in its vicinity.
+template<typename Func>
+static void visit_closest_triangle(const paged_triangle_mesh &paged_mesh, const std::vector<paged_triangle_mesh::triangle_mesh_node> &cache,
+                                   const vector3 &point, Func func) {
+    auto min_dist_sqr = EDYN_SCALAR_MAX;
+    std::shared_ptr<triangle_mesh> closest_mesh;
+    size_t closest_tri_idx {};
+
+    paged_mesh.visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
+        auto trimesh = cache[mesh_idx].trimesh;
+        auto dist_sqr = point_triangle_distance_sqr(point, trimesh->get_triangle_vertices(tri_idx),
+                                                    trimesh->get_triangle_normal(tri_idx));
+
+        if (dist_sqr < min_dist_sqr) {
+            min_dist_sqr = dist_sqr;
+            closest_mesh = trimesh;
+            closest_tri_idx = tri_idx;
+        }
+    });
+
+    if (closest_mesh) {
+        func(*closest_mesh, closest_tri_idx);
+    }
+}
+
 scalar paged_triangle_mesh::get_friction(vector3 point) const {
     auto friction = scalar{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        friction = trimesh->get_face_friction(tri_idx, point);
+    visit_closest_triangle(*this, m_cache, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        friction = trimesh.get_face_friction(tri_idx, point);
     });
 
     return friction;
@@ -154,9 +196,8 @@ scalar paged_triangle_mesh::get_friction(vector3 point) const {
 scalar paged_triangle_mesh::get_restitution(vector3 point) const {
     auto restitution = scalar{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        restitution = trimesh->get_face_restitution(tri_idx, point);
+    visit_closest_triangle(*this, m_cache, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        restitution = trimesh.get_face_restitution(tri_idx, point);
     });
 
     return restitution;
@@ -165,9 +206,8 @@ scalar paged_triangle_mesh::get_restitution(vector3 point) const {
 std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_material_id(vector3 point) const {
     auto influence = std::array<triangle_mesh::material_influence, 3>{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        influence = trimesh->get_face_material_id(tri_idx, point);
+    visit_closest_triangle(*this, m_cache, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        influence = trimesh.get_face_material_id(tri_idx, point);
     });
 
     return influence;
-- 
2.43.0


From ba49ef0c9557faed59787648f2b31ae03f6939c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:41 +0000
Subject: [PATCH 107/116] fix: contact of a cylinder cap with a mesh edge which
 lies outside of the cap

---
 src/edyn/collision/collide/collide_cylinder_mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/collision/collide/collide_cylinder_mesh.cpp b/src/edyn/collision/collide/collide_cylinder_mesh.cpp
index 767fcb5..f1319b9 100644
--- a/src/edyn/collision/collide/collide_cylinder_mesh.cpp
+++ b/src/edyn/collision/collide/collide_cylinder_mesh.cpp
@@ -10,6 +10,7 @@
 #include "edyn/shapes/cylinder_shape.hpp"
 #include "edyn/util/shape_util.hpp"
 #include "edyn/math/triangle.hpp"
+#include <algorithm>
 #include <type_traits>
 
 namespace edyn {
@@ -261,6 +262,12 @@ void collide_cylinder_triangle(
         auto pivotA_axis = cylinder.half_length * sign_faceA;
         point.normal_attachment = contact_normal_attachment::normal_on_A;
 
+        // The line of the edge crosses the circle, but the edge itself lies
+        // outside of it.
+        if (num_points == 2 && (std::max(s[0], s[1]) < 0 || std::min(s[0], s[1]) > 1)) {
+            num_points = 0;
+        }
+
         for (size_t pt_idx = 0; pt_idx < num_points; ++pt_idx) {
             auto t = clamp_unit(s[pt_idx]);
             point.pivotA = lerp(v0A, v1A, t);
-- 
2.43.0


From d6be0992f50f4a3a7e2854ffbfae152dd6e5269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:32 +0000
Subject: [PATCH 108/116] fix: contact of a capsule with a mesh edge beyond the
 end of the edge

---
 src/edyn/collision/collide/collide_capsule_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_capsule_mesh.cpp b/src/edyn/collision/collide/collide_capsule_mesh.cpp
index 3ee64c5..e394faa 100644
--- a/src/edyn/collision/collide/collide_capsule_mesh.cpp
+++ b/src/edyn/collision/collide/collide_capsule_mesh.cpp
@@ -211,7 +211,7 @@ static void collide_capsule_triangle(
         } else {
             auto &closest_capsule_vertex = capsule_vertices[feature_indexA];
             vector3 pivotB; scalar t;
-            closest_point_line(v0, v1 - v0, closest_capsule_vertex, t, pivotB);
+            closest_point_segment(v0, v1, closest_capsule_vertex, t, pivotB);
             auto dir = closest_capsule_vertex - pivotB;
             // dir and sep_axis have to be parallel.
             if (!(length_sqr(cross(dir, sep_axis)) > EDYN_EPSILON)) {
-- 
2.43.0


From 4b2be2683199102278093a8ae78b0fefdc3957cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 109/116] fix: capsule lying over several mesh triangles is
 only supported by the first of them

---
 src/edyn/collision/collide/collide_capsule_mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_capsule_mesh.cpp b/src/edyn/collision/collide/collide_capsule_mesh.cpp
index e394faa..3d87750 100644
--- a/src/edyn/collision/collide/collide_capsule_mesh.cpp
+++ b/src/edyn/collision/collide/collide_capsule_mesh.cpp
@@ -130,6 +130,8 @@ static void collide_capsule_triangle(
 
         if (is_capsule_edge) {
             // Check if capsule vertex is inside triangle face.
+            size_t num_vertices_in_face = 0;
+
             for (auto &vertex : capsule_vertices) {
                 if (point_in_triangle(tri_vertices, sep_axis, vertex)) {
                     auto pivotA_world = vertex - sep_axis * capsule.radius;
@@ -137,11 +139,12 @@ static void collide_capsule_triangle(
                     point.pivotB = project_plane(vertex, tri_vertices[0], sep_axis);
                     point.distance = dot(pivotA_world - tri_vertices[0], sep_axis);
                     result.maybe_add_point(point);
+                    ++num_vertices_in_face;
                 }
             }
 
             // Both vertices are inside the triangle. Unnecessary to look for intersections.
-            if (result.num_points == 2) {
+            if (num_vertices_in_face == 2) {
                 return;
             }
 
-- 
2.43.0


From e4dbc7bf9e2505986006c31d81690e226cac870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 110/116] fix: compound shapes miss contacts with nearby convex
 shapes until their AABBs overlap

---
 include/edyn/collision/collide.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/edyn/collision/collide.hpp b/include/edyn/collision/collide.hpp
index 7055bdb..398b88e 100644
--- a/include/edyn/collision/collide.hpp
+++ b/include/edyn/collision/collide.hpp
@@ -282,8 +282,9 @@ void collide(const plane_shape &shA, const compound_shape &shB,
 template<typename T, std::enable_if_t<variant_has_type<T, compound_shape::shapes_variant_t>::value, bool> = true>
 void collide(const compound_shape &shA, const T &shB,
              const collision_context &ctx, collision_result &result) {
-    // Calculate AABB of B's AABB in A's space.
-    auto aabbB_in_A = aabb_to_object_space(ctx.aabbB, ctx.posA, ctx.ornA);
+    // Calculate AABB of B's AABB in A's space. Inset it to find nearby children.
+    const auto inset = vector3_one * -contact_breaking_threshold;
+    auto aabbB_in_A = aabb_to_object_space(ctx.aabbB.inset(inset), ctx.posA, ctx.ornA);
     // A more precise AABB could be obtained but it would be generally more expensive.
     //auto aabbB_in_A = shape_aabb(shB, posB_in_A, ornB_in_A);
 
-- 
2.43.0


From b9b88608f2b04d528f1d8284b358c943df42d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:28 +0000
Subject: [PATCH 111/116] fix: edge of a box along an edge of a polyhedron adds
 too many contact points

---
 src/edyn/collision/collide/collide_polyhedron_box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_box.cpp b/src/edyn/collision/collide/collide_polyhedron_box.cpp
index 6ce82a0..4c4c970 100644
--- a/src/edyn/collision/collide/collide_polyhedron_box.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_box.cpp
@@ -266,7 +266,7 @@ void collide(const polyhedron_shape &shA, const box_shape &shB,
                 for (size_t k = 0; k < num_points; ++k) {
                     point.pivotA = lerp(polygon.vertices[idx0A], polygon.vertices[idx1A], s[k]);
                     point.pivotB = lerp(edge_vertices_local[0], edge_vertices_local[1], t[k]);
-                    result.add_point(point);
+                    result.maybe_add_point(point);
                 }
             }
         } else {
-- 
2.43.0


From d1150ed7108dacda5b710b445c4d1e8206c8cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:31 +0000
Subject: [PATCH 112/116] fix: normal of a convex mesh face with nearly
 collinear edges is arbitrary

---
 src/edyn/shapes/convex_mesh.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..1cd015b 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -88,28 +88,18 @@ void convex_mesh::calculate_normals() {
     for (size_t i = 0; i < num_faces(); ++i) {
         auto first = faces[i * 2];
         auto count = faces[i * 2 + 1];
-        // Grab first edge.
-        auto i0 = indices[first];
-        auto i1 = indices[first + 1];
-        auto &v0 = vertices[i0];
-        auto &v1 = vertices[i1];
+        auto &v0 = vertices[indices[first]];
         auto normal = vector3_zero;
 
-        // Find a second edge that's not collinear.
-        for (size_t j = 1; j < count; ++j) {
-            auto i2 = indices[first + j];
-            auto i3 = indices[first + (j + 1) % count];
-            auto &v2 = vertices[i2];
-            auto &v3 = vertices[i3];
-            auto n = cross(v1 - v0, v3 - v2);
-
-            if (try_normalize(n)) {
-                normal = n;
-                break;
-            }
+        // Sum up the normals of a triangle fan. The normal of each triangle is
+        // weighted by its area, so nearly collinear edges do not matter.
+        for (size_t j = 1; j + 1 < count; ++j) {
+            auto &v1 = vertices[indices[first + j]];
+            auto &v2 = vertices[indices[first + j + 1]];
+            normal += cross(v1 - v0, v2 - v0);
         }
 
-        if (normal == vector3_zero) {
+        if (!try_normalize(normal)) {
             normal = vector3_y;
         }
 
-- 
2.43.0


From dc77d7db233a539082ac7c2f0de234bbd8d94fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:31 +0000
Subject: [PATCH 113/116] fix: updating the calculated properties of a convex
 mesh again keeps those of the previous shape

---
 src/edyn/shapes/convex_mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 1cd015b..9aa5ace 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -162,6 +162,9 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
+
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -183,6 +186,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -199,6 +205,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From 51b48020b657118d828926bae33d4a0c68244718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 114/116] fix: contact of a capsule with a mesh vertex beyond
 the end of the capsule

---
 src/edyn/collision/collide/collide_capsule_mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_capsule_mesh.cpp b/src/edyn/collision/collide/collide_capsule_mesh.cpp
index 3d87750..a6353e1 100644
--- a/src/edyn/collision/collide/collide_capsule_mesh.cpp
+++ b/src/edyn/collision/collide/collide_capsule_mesh.cpp
@@ -231,9 +231,8 @@ static void collide_capsule_triangle(
         point.normal_attachment = contact_normal_attachment::none;
 
         if (is_capsule_edge) {
-            auto edge = capsule_vertices[1] - capsule_vertices[0];
             vector3 closest; scalar t;
-            closest_point_line(capsule_vertices[0], edge, pivotB, t, closest);
+            closest_point_segment(capsule_vertices[0], capsule_vertices[1], pivotB, t, closest);
             auto dir = closest - pivotB;
             // dir and sep_axis have to be parallel.
             if (!(length_sqr(cross(dir, sep_axis)) > EDYN_EPSILON)) {
-- 
2.43.0


From 2bc33a3763c2094e92068943f5e347adecb31b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:59 +0000
Subject: [PATCH 115/116] fix: pair the points of overlapping edges that run in
 opposite directions

intersect_segments returns the parameters of an overlap in the order of
the vertices of the other segment, thus for opposite directions s0 and t0
were different points and contacts had their pivots in different places.
---
 include/edyn/math/geom.hpp                    | 19 +++++++++++++++++++
 .../collision/collide/collide_box_mesh.cpp    |  2 +-
 .../collide/collide_capsule_mesh.cpp          |  2 +-
 .../collide/collide_cylinder_mesh.cpp         |  2 +-
 .../collide/collide_polyhedron_box.cpp        |  4 ++--
 .../collide/collide_polyhedron_capsule.cpp    |  2 +-
 .../collide/collide_polyhedron_cylinder.cpp   |  2 +-
 .../collide/collide_polyhedron_mesh.cpp       |  2 +-
 .../collide/collide_polyhedron_polyhedron.cpp |  2 +-
 9 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/edyn/math/geom.hpp b/include/edyn/math/geom.hpp
index 2a01795..541f6a6 100644
--- a/include/edyn/math/geom.hpp
+++ b/include/edyn/math/geom.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_MATH_GEOM_HPP
 #define EDYN_MATH_GEOM_HPP
 
+#include <utility>
 #include <vector>
 #include <cstdint>
 #include "edyn/config/config.h"
@@ -203,6 +204,24 @@ size_t intersect_segments(const vector2 &p0, const vector2 &p1,
                           scalar &s0, scalar &t0,
                           scalar &s1, scalar &t1);
 
+/**
+ * @brief Same as `intersect_segments` except that when the segments overlap,
+ * `s0` and `t0` refer to the same point, and so do `s1` and `t1`, also if the
+ * segments run in opposite directions.
+ */
+inline size_t intersect_segments_paired(const vector2 &p0, const vector2 &p1,
+                                        const vector2 &q0, const vector2 &q1,
+                                        scalar &s0, scalar &t0,
+                                        scalar &s1, scalar &t1) {
+    auto num_points = intersect_segments(p0, p1, q0, q1, s0, t0, s1, t1);
+
+    if (num_points == 2 && dot(p1 - p0, q1 - q0) < 0) {
+        std::swap(t0, t1);
+    }
+
+    return num_points;
+}
+
 /**
  * @brief Intersect a line with a circle centered in the origin in 2D.
  * @param p0 One point on the line.
diff --git a/src/edyn/collision/collide/collide_box_mesh.cpp b/src/edyn/collision/collide/collide_box_mesh.cpp
index a85921c..ca613c2 100644
--- a/src/edyn/collision/collide/collide_box_mesh.cpp
+++ b/src/edyn/collision/collide/collide_box_mesh.cpp
@@ -328,7 +328,7 @@ static void collide_box_triangle(
             auto q1 = to_vector2_xz(v1B_in_tri);
 
             scalar s[2], t[2];
-            auto num_points = intersect_segments(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
+            auto num_points = intersect_segments_paired(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
 
             for (size_t k = 0; k < num_points; ++k) {
                 point.pivotA = lerp(verticesA_local[0], verticesA_local[1], s[k]);
diff --git a/src/edyn/collision/collide/collide_capsule_mesh.cpp b/src/edyn/collision/collide/collide_capsule_mesh.cpp
index a6353e1..35ccfaf 100644
--- a/src/edyn/collision/collide/collide_capsule_mesh.cpp
+++ b/src/edyn/collision/collide/collide_capsule_mesh.cpp
@@ -169,7 +169,7 @@ static void collide_capsule_triangle(
                 auto q1 = to_vector2_xz(to_object_space(v1, tri_origin, tri_basis));
 
                 scalar s[2], t[2];
-                auto num_points = intersect_segments(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
+                auto num_points = intersect_segments_paired(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
                     auto pivotA_world = lerp(capsule_vertices[0], capsule_vertices[1], s[k]) - sep_axis * capsule.radius;
diff --git a/src/edyn/collision/collide/collide_cylinder_mesh.cpp b/src/edyn/collision/collide/collide_cylinder_mesh.cpp
index f1319b9..0d9db13 100644
--- a/src/edyn/collision/collide/collide_cylinder_mesh.cpp
+++ b/src/edyn/collision/collide/collide_cylinder_mesh.cpp
@@ -337,7 +337,7 @@ void collide_cylinder_triangle(
             auto q1 = to_vector2_xz(v1B_in_tri);
 
             scalar s[2], t[2];
-            auto num_points = intersect_segments(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
+            auto num_points = intersect_segments_paired(p0, p1, q0, q1, s[0], t[0], s[1], t[1]);
 
             for (size_t k = 0; k < num_points; ++k) {
                 auto pivotA_world = lerp(cylinder_vertices[0], cylinder_vertices[1], s[k]) + radial_dir * cylinder.radius;
diff --git a/src/edyn/collision/collide/collide_polyhedron_box.cpp b/src/edyn/collision/collide/collide_polyhedron_box.cpp
index 4c4c970..b110f69 100644
--- a/src/edyn/collision/collide/collide_polyhedron_box.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_box.cpp
@@ -206,7 +206,7 @@ void collide(const polyhedron_shape &shA, const box_shape &shB,
                     auto idx1B = (j + 1) % 4;
                     auto &v0B = plane_vertices_box[idx0B];
                     auto &v1B = plane_vertices_box[idx1B];
-                    auto num_points = intersect_segments(v0A, v1A, v0B, v1B,
+                    auto num_points = intersect_segments_paired(v0A, v1A, v0B, v1B,
                                                          s[0], t[0], s[1], t[1]);
 
                     for (size_t k = 0; k < num_points; ++k) {
@@ -260,7 +260,7 @@ void collide(const polyhedron_shape &shA, const box_shape &shB,
                 auto &v0A = polygon.plane_vertices[idx0A];
                 auto &v1A = polygon.plane_vertices[idx1A];
 
-                auto num_points = intersect_segments(v0A, v1A, v0B, v1B,
+                auto num_points = intersect_segments_paired(v0A, v1A, v0B, v1B,
                                                      s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_capsule.cpp b/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
index faac17c..712da35 100644
--- a/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_capsule.cpp
@@ -132,7 +132,7 @@ void collide(const polyhedron_shape &shA, const capsule_shape &shB,
                 auto &v0A = polygon.plane_vertices[idx0A];
                 auto &v1A = polygon.plane_vertices[idx1A];
 
-                auto num_points = intersect_segments(v0A, v1A, plane_capsule_vertices[0], plane_capsule_vertices[1],
+                auto num_points = intersect_segments_paired(v0A, v1A, plane_capsule_vertices[0], plane_capsule_vertices[1],
                                                      s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
index 81c0ed7..9722191 100644
--- a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
@@ -303,7 +303,7 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
                 auto &v0A = polygon.plane_vertices[idx0A];
                 auto &v1A = polygon.plane_vertices[idx1A];
 
-                auto num_points = intersect_segments(v0A, v1A, v0B, v1B,
+                auto num_points = intersect_segments_paired(v0A, v1A, v0B, v1B,
                                                      s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
index 773d467..ffe8291 100644
--- a/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_mesh.cpp
@@ -253,7 +253,7 @@ static void collide_polyhedron_triangle(
                 auto idx1B = hull_tri[(j + 1) % hull_tri_size];
                 auto &v0B = plane_vertices_tri[idx0B];
                 auto &v1B = plane_vertices_tri[idx1B];
-                auto num_points = intersect_segments(v0A, v1A, v0B, v1B,
+                auto num_points = intersect_segments_paired(v0A, v1A, v0B, v1B,
                                                      s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
diff --git a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
index 57c2cab..88d3b33 100644
--- a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
@@ -231,7 +231,7 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
                 auto idx1B = polygonB.hull[(j + 1) % sizeB];
                 auto &v0B = polygonB.plane_vertices[idx0B];
                 auto &v1B = polygonB.plane_vertices[idx1B];
-                auto num_points = intersect_segments(v0A, v1A, v0B, v1B,
+                auto num_points = intersect_segments_paired(v0A, v1A, v0B, v1B,
                                                      s[0], t[0], s[1], t[1]);
 
                 for (size_t k = 0; k < num_points; ++k) {
-- 
2.43.0


From 0ab80a5664eec04585a43af97b71a145200f6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 116/116] fix: keep the collision group and mask of bodies made
 without a shape

---
 src/edyn/util/rigidbody.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 16f6899..a99cda5 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -131,14 +131,15 @@ void make_rigidbody(entt::entity entity, entt::registry &registry, const rigidbo
                 }
             }
         }, *def.shape);
+    }
 
-        if (def.collision_group != collision_filter::all_groups ||
-            def.collision_mask != collision_filter::all_groups)
-        {
-            auto &filter = registry.emplace<collision_filter>(entity);
-            filter.group = def.collision_group;
-            filter.mask = def.collision_mask;
-        }
+    // A shape could be assigned later, thus the filter does not depend on it.
+    if (def.collision_group != collision_filter::all_groups ||
+        def.collision_mask != collision_filter::all_groups)
+    {
+        auto &filter = registry.emplace<collision_filter>(entity);
+        filter.group = def.collision_group;
+        filter.mask = def.collision_mask;
     }
 
     switch (def.kind) {
-- 
2.43.0

