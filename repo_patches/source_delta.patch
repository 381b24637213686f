From b6a39292a218eeadbbc680f3bc4c69347cc3354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 01/77] fix: reset elements when clearing a free list

free_list::clear() relinked the slots without resetting them, so that the
elements of a cleared entity_graph were still seen as valid nodes by
connected_components() and is_single_connected_component().
---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From 30c5a58b3e3e5761eb01f6da954f84a79b6ef591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:58 +0000
Subject: [PATCH 02/77] fix: make the order of unordered pairs a strict weak
 ordering

---
 include/edyn/core/unordered_pair.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..8238b83 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,20 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare in canonical order, so that this is a strict weak ordering
+        // where only pairs that are equal independent of order are equivalent.
+        const T &min = second < first ? second : first;
+        const T &max = second < first ? first : second;
+        const T &other_min = other.second < other.first ? other.second : other.first;
+        const T &other_max = other.second < other.first ? other.first : other.second;
+
+        if (min < other_min) {
+            return true;
         }
-        if (first == other.first) {
-            return second < other.second;
+        if (other_min < min) {
+            return false;
         }
-        return first < other.first;
+        return max < other_max;
     }
 };
 
-- 
2.43.0


From 348f8252ad2e2ce5dbcb70c1e1d1875b5bbf1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:58 +0000
Subject: [PATCH 03/77] fix: allow bumping a modified component when all
 components are modified

---
 include/edyn/networking/comp/exporter_modified_components.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/networking/comp/exporter_modified_components.hpp b/include/edyn/networking/comp/exporter_modified_components.hpp
index 426f24b..0ec1dfd 100644
--- a/include/edyn/networking/comp/exporter_modified_components.hpp
+++ b/include/edyn/networking/comp/exporter_modified_components.hpp
@@ -28,7 +28,6 @@ struct exporter_modified_components {
     }
 
     void bump_index(uint16_t index) {
-        EDYN_ASSERT(count < NumComponents);
         bool found = false;
 
         for (unsigned i = 0; i < count; ++i) {
@@ -39,6 +38,7 @@ struct exporter_modified_components {
         }
 
         if (!found) {
+            EDYN_ASSERT(count < NumComponents);
             entry[count++] = {index, duration};
         }
     }
-- 
2.43.0


From 5216516ec9d1bd99f23f3001188ffed37942d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 04/77] fix: do not lose a stop request made before the worker
 thread has begun

---
 include/edyn/parallel/worker.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..5738b4d 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,8 +18,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -53,7 +51,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From 0e0ae0ac757c6a39ae81e198cf89d87e59fb7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 05/77] fix: count a job before it can be finished

---
 include/edyn/parallel/worker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index 5738b4d..ab16cd2 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,10 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
-        m_queue.push(j);
+        // Increment before pushing, otherwise the job could be finished first
+        // and the size would be momentarily less than zero, i.e. wrap around.
         ++m_size;
+        m_queue.push(j);
     }
 
     void run() {
-- 
2.43.0


From a9917e61deefa0857efa796136d313a513f93e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 06/77] fix: pair the second closest points of parallel
 segments and always set the number of points

---
 src/edyn/math/geom.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..e1ab725 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
@@ -115,9 +119,6 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
             // are the infinite lines passing through `s1` and `s2` respectively.
             if (denom > EDYN_EPSILON) {
                 s = clamp_unit((b * f - c * e) / denom);
-                if (num_points != nullptr) {
-                    *num_points = 1;
-                }
             } else if (num_points != nullptr) {
                 auto r1 = p1 - q2;
                 auto f1 = dot(d1, r1);
@@ -126,19 +127,14 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // The second point in `s2` has to be the one closest to the
+                // second point in `s1`, whichever way the segments point.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
                     *c1p = p1 + d1 * *sp;
                     *c2p = p2 + d2 * *tp;
-                } else {
-                    *num_points = 1;
                 }
             } else {
                 s = 0;
-- 
2.43.0


From d43249c0c05b7f153247cd14110de29f7d791269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 07/77] fix: parameter of the point where a line is tangent to
 a circle

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index e1ab725..e75b607 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -206,7 +206,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From e3e46c4484694c6f47b7edba7be35a0db17179c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 08/77] fix: concentric circles of different radii do not
 intersect

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index e75b607..3924daf 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -444,7 +444,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From e7f5a6a22497194e36ecd5dd95731f1934f77cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 09/77] fix: return the distance to the closest face from
 closest_point_box_inside

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 3924daf..a021ab0 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1034,7 +1034,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From 19c26018d8c6c872cd79e821937159d7c8864e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 10/77] fix: do not miss the corners of the box in
 intersect_line_aabb

---
 src/edyn/math/geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index a021ab0..c9112b9 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1100,7 +1100,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx >= aabb_min.x && qx < aabb_max.x) {
+        if (qx > aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1119,7 +1119,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx > aabb_min.x && qx <= aabb_max.x) {
+        if (qx >= aabb_min.x && qx < aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
-- 
2.43.0


From 40b6e6cf7887ae08af891fa625e4a180773ae7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 11/77] fix: use circle B's own axis and position in
 closest_point_circle_circle

---
 src/edyn/math/geom.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index c9112b9..a76d6fd 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -558,9 +558,8 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                // Also in A's space.
+                dirB = dirA;
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
@@ -575,7 +574,7 @@ scalar closest_point_circle_circle(
                 // crossing the center of the circles, which are both at the
                 // origin in this case.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
@@ -597,7 +596,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -617,7 +616,7 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
-- 
2.43.0


From a5395503cce50578efe09c684b4fb6a287ee2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 12/77] fix: test the closing edge in
 point_inside_convex_polygon

---
 src/edyn/util/shape_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..3384803 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,9 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[(i + 1) % vertices.size()] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From a098dd9f98af9b9d41cc369950345ac2d2a4be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 13/77] fix: find the closest vertex of a convex polygon when
 it is acute or aligned with the point

---
 src/edyn/util/shape_util.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 3384803..a0b31b6 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -253,32 +253,33 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
         // to obtain a vector that points outside the convex polygon.
         auto n0 = -orthogonal(e0);
 
-        if (dot(p - v0, n0) < 0) {
-            // Point is behind this edge.
-            continue;
-        }
-
         if (dot(p - v0, e0) > 0) {
             // Point is past the first boundary of the Voronoi region of
             // this edge.
             if (dot(p - v1, e0) < 0) {
                 // Point is before the second boundary of the Voronoi region
-                // of this edge, thus this is the Voronoi region where it belongs.
+                // of this edge, thus this is the Voronoi region where it belongs,
+                // unless it's behind this edge.
+                if (dot(p - v0, n0) < 0) {
+                    continue;
+                }
+
                 auto t = dot(p - v0, e0) / dot(e0, e0);
                 closest = lerp(v0, v1, t);
                 return true;
             } else {
                 // Point is past the second boundary of the Voronoi region
-                // of this edge. If it's also before the first boundary of
+                // of this edge. If it's also not past the first boundary of
                 // the Voronoi region on the next edge, it means the Voronoi
                 // region of the vertex connecting these two edges contains
-                // the point.
+                // the point. It could be behind either of them if the angle
+                // at the vertex is acute.
                 auto k = (i + 2) % indices.size();
                 auto i2 = indices[k];
                 auto &v2 = vertices[i2];
                 auto e1 = v2 - v1;
 
-                if (dot(p - v1, e1) < 0) {
+                if (dot(p - v1, e1) <= 0) {
                     closest = v1;
                     return true;
                 }
-- 
2.43.0


From 571a7fdeef6eeea7fbdfc95cbe20339aabac0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:22 +0000
Subject: [PATCH 14/77] fix: do not divide by a zero second derivative in
 circle closest point queries

---
 src/edyn/math/geom.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index a76d6fd..a283c5a 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -377,7 +377,10 @@ scalar closest_point_circle_line(
         auto d_f_theta = dot(d_theta, d_d_theta);
         auto dd_f_theta = dot(d_d_theta, d_d_theta) + dot(dd_d_theta, d_theta);
 
-        EDYN_ASSERT(dd_f_theta > 0 || dd_f_theta < 0);
+        // Cannot be improved further if the distance is locally constant.
+        if (!(dd_f_theta > 0 || dd_f_theta < 0)) {
+            break;
+        }
 
         auto delta = d_f_theta / dd_f_theta;
         theta -= delta;
@@ -662,7 +665,10 @@ scalar closest_point_circle_circle(
         auto d_f_phi = dot(d_phi, d_d_phi);
         auto dd_f_phi = dot(d_d_phi, d_d_phi) + dot(dd_d_phi, d_phi);
 
-        EDYN_ASSERT(dd_f_phi > 0 || dd_f_phi < 0);
+        // Cannot be improved further if the distance is locally constant.
+        if (!(dd_f_phi > 0 || dd_f_phi < 0)) {
+            break;
+        }
 
         auto delta = d_f_phi / dd_f_phi;
         phi -= delta;
-- 
2.43.0


From 975c36573a542c505d6a0b2192125ea6ff6af17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 15/77] fix: report the greatest projection when the last
 triangle vertex forms an edge

---
 src/edyn/math/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/math/triangle.cpp b/src/edyn/math/triangle.cpp
index f338737..90d252e 100644
--- a/src/edyn/math/triangle.cpp
+++ b/src/edyn/math/triangle.cpp
@@ -66,8 +66,9 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
                     // If this is the second vertex (index 1), the previous could
                     // only have been vertex 0, thus this must be edge 0.
                     tri_feature_index = 0;
-                    projection = std::max(proj_i, projection);
                 }
+
+                projection = std::max(proj_i, projection);
             } else if (tri_feature == triangle_feature::edge) {
                 // If the maximum feature was already an edge, adding this
                 // vertex to it makes it a face.
-- 
2.43.0


From c8e49374b8e3613a55b562fcc43977be24da0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:50 +0000
Subject: [PATCH 16/77] fix: points inside a polygon with a vertex in the
 middle of a side are inside

---
 src/edyn/util/shape_util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index a0b31b6..b8eadd8 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -273,13 +273,14 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
                 // the Voronoi region on the next edge, it means the Voronoi
                 // region of the vertex connecting these two edges contains
                 // the point. It could be behind either of them if the angle
-                // at the vertex is acute.
+                // at the vertex is acute, but not behind both.
                 auto k = (i + 2) % indices.size();
                 auto i2 = indices[k];
                 auto &v2 = vertices[i2];
                 auto e1 = v2 - v1;
 
-                if (dot(p - v1, e1) <= 0) {
+                if (dot(p - v1, e1) <= 0 &&
+                    (dot(p - v1, n0) >= 0 || dot(p - v1, -orthogonal(e1)) >= 0)) {
                     closest = v1;
                     return true;
                 }
-- 
2.43.0


From c05ec3ec9b684497c4529aa63887c3d94c7ba754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:01 +0000
Subject: [PATCH 17/77] fix: replace the point in the middle of three collinear
 contact points

---
 src/edyn/math/geom.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index a283c5a..3d5d8f6 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -916,23 +916,17 @@ insertion_point_result insertion_point_index(const vector3 *points,
             }
         } else {
             // Points are collinear. Replace point in the middle.
-            auto d0 = dot(points[1] - points[0], points[2] - points[0]);
-
-            if (d0 > 0 && d0 < 1) {
+            if (dot(points[0] - points[1], points[2] - points[1]) < 0) {
                 // Point 1 is between 0 and 2.
                 return {point_insertion_type::replace, 1};
             }
 
-            auto d1 = dot(points[0] - points[1], points[2] - points[1]);
-
-            if (d1 > 0 && d1 < 1) {
+            if (dot(points[1] - points[0], points[2] - points[0]) < 0) {
                 // Point 0 is between 1 and 2.
                 return {point_insertion_type::replace, 0};
             }
 
-            auto d2 = dot(points[2] - points[0], points[1] - points[0]);
-
-            if (d2 > 0 && d2 < 1) {
+            if (dot(points[0] - points[2], points[1] - points[2]) < 0) {
                 // Point 2 is between 0 and 1.
                 return {point_insertion_type::replace, 2};
             }
-- 
2.43.0


From 5f08265c96514453047293f66ff1480f98c53703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:25 +0000
Subject: [PATCH 18/77] fix: interpolate per-vertex mesh properties linearly
 along edges

---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From 6c5ea9a39fa4a9546ae6f8a62416e3eb5ba73245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:30 +0000
Subject: [PATCH 19/77] fix: measure the angle between quaternions along the
 shortest path

---
 src/edyn/math/quaternion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 75b8553..f30f4fd 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -40,8 +40,9 @@ quaternion shortest_arc(const vector3 &v0, const vector3 &v1) noexcept {
 scalar angle_between(const quaternion &q0, const quaternion &q1) noexcept {
     auto s = std::sqrt(length_sqr(q0) * length_sqr(q1));
     EDYN_ASSERT(std::abs(s) > EDYN_EPSILON);
-    auto d = dot(q0, q1);
-    return std::acos(d / s) * scalar(2);
+    // The sign does not matter since `q` and `-q` represent the same rotation.
+    auto d = std::min(std::abs(dot(q0, q1)) / s, scalar(1));
+    return std::acos(d) * scalar(2);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 169d192f28f205b84b5fc8a2f4af0c2410ae4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 20/77] fix: replace the contents of a map when reading it from
 an archive

---
 include/edyn/serialization/std_s11n.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..a6f3376 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -192,6 +192,7 @@ void serialize(Archive &archive, std::map<K, V> &map) {
     archive(size);
 
     if constexpr(Archive::is_input::value) {
+        map.clear();
         auto pair = std::pair<K, V>{};
         for (size_type i = 0; i < size; ++i) {
             archive(pair);
-- 
2.43.0


From 6d8ab8ee68ef9087571935dddce79552c9ae17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 21/77] fix: do not use an uninitialised bit set when reading a
 truncated vector<bool>

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index a6f3376..833d8d5 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -65,7 +65,7 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set {};
             archive(set);
             for (size_t j = 0; j < count; ++j) {
                 vector[start + j] = (set & (1 << j)) > 0;
-- 
2.43.0


From e78715a6c91268591e4b232e3a4d6222f9c705b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 22/77] fix: pass the variant to std::visit in
 serialization_sizeof

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 833d8d5..99b6958 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -143,7 +143,7 @@ size_t serialization_sizeof(const std::variant<Ts...>& var) {
     size_t content_size;
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
-- 
2.43.0


From 83746f193f31b8f0ce9128058208ff638f2e5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 23/77] fix: convex_mesh clears all derived data before
 recalculating it

Calculating the properties of a mesh a second time (e.g. when it is
deserialized into a mesh in use or after changing its vertices) appended
neighbours and relevant faces and edges to the previous ones.
---
 src/edyn/shapes/convex_mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..92f2f72 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -172,6 +172,8 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -193,6 +195,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -209,6 +214,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From 607f193e95adb35c97f74f0246a5698136963e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 24/77] fix: convex_mesh normals of faces with collinear
 vertices

The cross product of two collinear edges is rounding noise rather than
zero once the vertices have been shifted to the centroid, and the noise
was normalized and taken as the face normal.
---
 src/edyn/shapes/convex_mesh.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 92f2f72..76b031b 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -101,9 +101,14 @@ void convex_mesh::calculate_normals() {
             auto i3 = indices[first + (j + 1) % count];
             auto &v2 = vertices[i2];
             auto &v3 = vertices[i3];
-            auto n = cross(v1 - v0, v3 - v2);
-
-            if (try_normalize(n)) {
+            auto e0 = v1 - v0;
+            auto e1 = v3 - v2;
+            auto n = cross(e0, e1);
+            // Compare relative to the edge lengths, since the cross product of
+            // collinear edges is seldom exactly zero.
+            auto collinear = !(length_sqr(n) > length_sqr(e0) * length_sqr(e1) * EDYN_EPSILON);
+
+            if (!collinear && try_normalize(n)) {
                 normal = n;
                 break;
             }
-- 
2.43.0


From fdf8a73978c0f3b1358890796ab161503e953b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 25/77] fix: moment of inertia of capsules aligned with the y
 and z axes

The axial and transversal moments of the cylindrical part were swapped
when the axis of the capsule is not the x axis.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..fc39438 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,7 +72,8 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    // Calculate for the x axis and place the values along `axis` below.
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-- 
2.43.0


From 468b12fdba7f7e0daa82f79e251db912b04d3329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 26/77] fix: transversal moment of inertia of the caps of a
 capsule

The parallel axis theorem was applied to the moment of a hemisphere about
the center of its disc instead of about its center of mass, so that a
capsule of zero length had a greater moment than a sphere.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index fc39438..e476668 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -77,7 +77,10 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    // Moment of inertia of the hemispheres about an axis orthogonal to the
+    // capsule axis passing through their own center of mass.
+    auto hem_inertia = scalar(83) / scalar(320) * sph_mass * radius * radius;
+    auto yy_zz = hem_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From b9c31d4e33d0e2b27aa512f89b3b9d5d1f197dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 27/77] fix: sign of the off-diagonal elements of the inertia
 of polyhedrons

The inertia tensor has the negated products of inertia off its diagonal,
as in shift_moment_of_inertia.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index e476668..ae45e5c 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -146,9 +146,10 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    // Off-diagonal elements are the negated products of inertia.
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 0cff2961f8d5cb478811fd3b04dc5146f130194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 28/77] fix: inserting a second loop at a node of the entity
 graph asserted

---
 src/edyn/core/entity_graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/core/entity_graph.cpp b/src/edyn/core/entity_graph.cpp
index 743d07f..e716782 100644
--- a/src/edyn/core/entity_graph.cpp
+++ b/src/edyn/core/entity_graph.cpp
@@ -49,6 +49,11 @@ entity_graph::index_type entity_graph::insert_edge(entt::entity entity, index_ty
         edge.next = adj_edge_index;
         m_adjacencies[adj_index].edge_index = edge_index;
 
+        if (node_index0 == node_index1) {
+            // A loop has a single adjacency.
+            return edge_index;
+        }
+
         // Repeat for the corresponding adjacency of node_index1.
         adj_index = m_nodes[node_index1].adjacency_index;
 
-- 
2.43.0


From b39d42f70b73d43dd82c8401349ad0674eb2b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 29/77] fix: completion of a background task was not ordered
 after the task in other workers

---
 src/edyn/context/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c275e14..c12dd6c 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -136,7 +136,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         ctx->task(begin, end);
 
         const auto progress = end - begin;
-        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_relaxed) + progress;
+        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_acq_rel) + progress;
         EDYN_ASSERT(completed <= total);
 
         if (completed == total) {
@@ -147,7 +147,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         }
     }
 
-    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_relaxed) - 1;
+    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_acq_rel) - 1;
     EDYN_ASSERT(ref_count >= 0);
 
     if (ref_count == 0) {
-- 
2.43.0


From 66b247e30117062f8a48562aedb2b69dbc485a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 30/77] fix: a background task over an empty range leaked its
 context and never completed

---
 src/edyn/context/task.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c12dd6c..6b2f0e7 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -156,6 +156,14 @@ void parallel_for_async_job_func(job::data_type &data) {
 }
 
 void enqueue_task_default(task_delegate_t task, unsigned size, task_completion_delegate_t completion) {
+    if (size == 0) {
+        // No jobs will be dispatched, there's nothing to wait for.
+        if (completion) {
+            completion();
+        }
+        return;
+    }
+
     auto &dispatcher = job_dispatcher::global();
     auto num_workers = dispatcher.num_workers();
 
-- 
2.43.0


From fe8055e709648ef48dab9112711cb692c0c38f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:57 +0000
Subject: [PATCH 31/77] fix: message queues were cleared while holding the lock
 in shared mode

---
 include/edyn/parallel/message_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/message_dispatcher.hpp b/include/edyn/parallel/message_dispatcher.hpp
index 1ca1b99..1880f25 100644
--- a/include/edyn/parallel/message_dispatcher.hpp
+++ b/include/edyn/parallel/message_dispatcher.hpp
@@ -74,7 +74,7 @@ public:
     }
 
     void clear_queues() {
-        auto lock = std::shared_lock(m_queues_mutex);
+        auto lock = std::lock_guard(m_queues_mutex);
         m_queues.clear();
     }
 
-- 
2.43.0


From 690f8d219a2d632c7b02662781945587cedcf691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 32/77] fix: actions recorded first for an entity were
 duplicated by the next merge

---
 include/edyn/networking/util/input_state_history.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edyn/networking/util/input_state_history.hpp b/include/edyn/networking/util/input_state_history.hpp
index b9c6ead..6cdd8bd 100644
--- a/include/edyn/networking/util/input_state_history.hpp
+++ b/include/edyn/networking/util/input_state_history.hpp
@@ -133,10 +133,10 @@ class input_state_history_writer_impl : public input_state_history_writer {
 
                 if (!history.empty()) {
                     if (!m_history->actions.contains(entity)) {
-                        m_history->actions.emplace(entity, history);
-                    } else {
-                        m_history->actions.get(entity).merge(history);
+                        m_history->actions.emplace(entity);
                     }
+
+                    m_history->actions.get(entity).merge(history);
                 }
             }
         }
@@ -156,10 +156,10 @@ class input_state_history_writer_impl : public input_state_history_writer {
                 }
 
                 if (!m_history->actions.contains(entity)) {
-                    m_history->actions.emplace(entity, comp);
-                } else {
-                    m_history->actions.get(entity).merge(comp);
+                    m_history->actions.emplace(entity);
                 }
+
+                m_history->actions.get(entity).merge(comp);
             }
         }
     }
-- 
2.43.0


From ae815a8d80228ba72fe03c94026ba94443c1a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 33/77] fix: actions on the boundary of two time windows were
 imported twice

---
 include/edyn/networking/util/input_state_history.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edyn/networking/util/input_state_history.hpp b/include/edyn/networking/util/input_state_history.hpp
index 6cdd8bd..d6c0e70 100644
--- a/include/edyn/networking/util/input_state_history.hpp
+++ b/include/edyn/networking/util/input_state_history.hpp
@@ -284,7 +284,8 @@ class input_state_history_reader_impl : public input_state_history_reader {
 
         for (auto [entity, actions] : m_history->actions.each()) {
             for (auto &entry : actions.entries) {
-                if (entry.timestamp > end_time) {
+                // Exclude the end so consecutive windows never import an action twice.
+                if (entry.timestamp >= end_time) {
                     break;
                 }
 
-- 
2.43.0


From b112acc6f7d24db051e9fc8e080c4a1d4575a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 34/77] fix: thickness of a paged mesh was lost for pages
 loaded later

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 2a39de5..d621b2b 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -174,6 +174,8 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
 }
 
 void paged_triangle_mesh::set_thickness(scalar thickness) {
+    m_thickness = thickness;
+
     for (auto &node : m_cache) {
         auto trimesh = node.trimesh;
 
-- 
2.43.0


From 69d67c46f186a18cd5b9530e1d65f7f8d31e42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:17 +0000
Subject: [PATCH 35/77] fix: submesh path went into another directory for files
 without extension

---
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index a88757a..4d7fa81 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -17,8 +17,11 @@ namespace edyn {
 std::string get_submesh_path(const std::string &paged_triangle_mesh_path, size_t index) {
     auto submesh_path = paged_triangle_mesh_path;
     auto dot_pos = submesh_path.rfind('.');
+    auto separator_pos = submesh_path.find_last_of("/\\");
 
-    if (dot_pos != std::string::npos) {
+    // A dot in the name of a directory does not start an extension.
+    if (dot_pos != std::string::npos &&
+        (separator_pos == std::string::npos || dot_pos > separator_pos)) {
         submesh_path.insert(dot_pos, std::to_string(index));
     } else {
         submesh_path += std::to_string(index);
-- 
2.43.0


From 04b5ca0f6fcc7e17844cf677814a7e9a1161803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:01 +0000
Subject: [PATCH 36/77] fix: pages created after setting the thickness of a
 paged mesh ignored it

---
 include/edyn/shapes/create_paged_triangle_mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/shapes/create_paged_triangle_mesh.hpp b/include/edyn/shapes/create_paged_triangle_mesh.hpp
index b7b5b21..9bd1532 100644
--- a/include/edyn/shapes/create_paged_triangle_mesh.hpp
+++ b/include/edyn/shapes/create_paged_triangle_mesh.hpp
@@ -72,6 +72,7 @@ struct submesh_builder {
 
                 // Create triangle mesh for this leaf and allocate vertices and indices.
                 auto submesh = std::make_unique<triangle_mesh>();
+                submesh->set_thickness(paged_tri_mesh.m_thickness);
                 submesh->m_vertices.reserve(local_indices.size());
 
                 if (!vertex_colors.empty()) {
-- 
2.43.0


From d68fa896f086b82ee9f471a695b05e37d46e2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:10 +0000
Subject: [PATCH 37/77] fix: pages of a paged mesh were read and replaced
 concurrently without synchronisation

---
 include/edyn/shapes/paged_triangle_mesh.hpp | 19 ++++++-------
 src/edyn/shapes/paged_triangle_mesh.cpp     | 30 ++++++++++-----------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/edyn/shapes/paged_triangle_mesh.hpp b/include/edyn/shapes/paged_triangle_mesh.hpp
index 3c73b5d..97b0264 100644
--- a/include/edyn/shapes/paged_triangle_mesh.hpp
+++ b/include/edyn/shapes/paged_triangle_mesh.hpp
@@ -50,7 +50,7 @@ public:
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
 
-            if (m_cache[mesh_idx].trimesh) {
+            if (get_submesh(mesh_idx)) {
                 func(mesh_idx);
                 mark_recent_visit(mesh_idx);
             }
@@ -65,7 +65,7 @@ public:
     template<typename Func>
     void visit_all_cached_edges(Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 for (size_t edge_idx = 0; edge_idx < trimesh->num_edges(); ++edge_idx) {
@@ -90,7 +90,7 @@ public:
         m_tree.query(aabb, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->visit_triangles(aabb, [=](uint32_t tri_idx) {
@@ -116,7 +116,7 @@ public:
     template<typename Func>
     void visit_cached_triangles(const AABB &aabb, Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->visit_triangles(aabb, [=](uint32_t tri_idx) {
@@ -138,7 +138,7 @@ public:
     template<typename Func>
     void visit_all_cached_triangles(Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 for (size_t tri_idx = 0; tri_idx < trimesh->num_triangles(); ++tri_idx) {
@@ -162,7 +162,7 @@ public:
         m_tree.raycast(p0, p1, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->raycast(p0, p1, [=](uint32_t tri_idx) {
@@ -185,7 +185,7 @@ public:
     void raycast_cached(const vector3 &p0, const vector3 &p1, Func func) const {
         m_tree.raycast(p0, p1, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->raycast(p0, p1, [=](uint32_t tri_idx) {
@@ -223,8 +223,9 @@ public:
      * @param idx Sub-mesh index.
      * @return Pointer to submesh. Null if not loaded.
      */
-    std::shared_ptr<triangle_mesh> get_submesh(size_t idx) {
-        return m_cache[idx].trimesh;
+    std::shared_ptr<triangle_mesh> get_submesh(size_t idx) const {
+        // Pages can be loaded and unloaded concurrently.
+        return std::atomic_load(&m_cache[idx].trimesh);
     }
 
     /**
diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index d621b2b..19f00a4 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -19,7 +19,7 @@ size_t paged_triangle_mesh::cache_num_vertices() const {
     size_t count = 0;
 
     for (auto &node : m_cache) {
-        if (!node.trimesh) {
+        if (!std::atomic_load(&node.trimesh)) {
             continue;
         }
 
@@ -39,7 +39,7 @@ void paged_triangle_mesh::load_node_if_needed(size_t trimesh_idx) {
 
     auto &node = m_cache[trimesh_idx];
     // Make copy of shared_ptr to increment reference count and avoid concurrent deallocation.
-    auto trimesh = node.trimesh;
+    auto trimesh = std::atomic_load(&node.trimesh);
 
     if (trimesh) {
         m_is_loading_submesh[trimesh_idx].store(false, std::memory_order_relaxed);
@@ -69,8 +69,7 @@ void paged_triangle_mesh::unload_least_recently_visited_node() {
     for (auto it = m_lru_indices.rbegin(); it != m_lru_indices.rend(); ++it) {
         auto &node = m_cache[*it];
 
-        if (node.trimesh) {
-            node.trimesh.reset();
+        if (std::atomic_exchange(&node.trimesh, {})) {
             message_dispatcher::global().send<msg::paged_triangle_mesh_load_page>({internal::paged_mesh_load_queue_identifier}, {}, this, *it);
             break;
         }
@@ -79,13 +78,14 @@ void paged_triangle_mesh::unload_least_recently_visited_node() {
 
 triangle_vertices paged_triangle_mesh::get_triangle_vertices(size_t mesh_idx, size_t tri_idx) const {
     EDYN_ASSERT(mesh_idx < m_cache.size());
-    EDYN_ASSERT(m_cache[mesh_idx].trimesh);
-    return m_cache[mesh_idx].trimesh->get_triangle_vertices(tri_idx);
+    auto trimesh = get_submesh(mesh_idx);
+    EDYN_ASSERT(trimesh);
+    return trimesh->get_triangle_vertices(tri_idx);
 }
 
 void paged_triangle_mesh::clear_cache() {
     for (auto &node : m_cache) {
-        node.trimesh.reset();
+        std::atomic_store(&node.trimesh, {});
     }
 }
 
@@ -93,15 +93,15 @@ void paged_triangle_mesh::assign_mesh(size_t index, std::shared_ptr<triangle_mes
     // Use lock to prevent assigning to the same trimesh shared_ptr concurrently
     // if `unload_least_recently_visited_node` is executing in another thread.
     auto lock = std::lock_guard(m_lru_mutex);
-    m_cache[index].trimesh = mesh;
     mesh->set_thickness(m_thickness);
+    std::atomic_store(&m_cache[index].trimesh, mesh);
     m_is_loading_submesh[index].store(false, std::memory_order_release);
     message_dispatcher::global().send<msg::paged_triangle_mesh_load_page>({internal::paged_mesh_load_queue_identifier}, {}, this, index);
 }
 
 bool paged_triangle_mesh::has_per_vertex_friction() const {
     for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+        auto trimesh = std::atomic_load(&node.trimesh);
 
         if (trimesh && trimesh->has_per_vertex_friction()) {
             return true;
@@ -113,7 +113,7 @@ bool paged_triangle_mesh::has_per_vertex_friction() const {
 
 bool paged_triangle_mesh::has_per_vertex_restitution() const {
     for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+        auto trimesh = std::atomic_load(&node.trimesh);
 
         if (trimesh && trimesh->has_per_vertex_restitution()) {
             return true;
@@ -125,7 +125,7 @@ bool paged_triangle_mesh::has_per_vertex_restitution() const {
 
 bool paged_triangle_mesh::has_per_vertex_material_id() const {
     for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+        auto trimesh = std::atomic_load(&node.trimesh);
 
         if (trimesh && trimesh->has_per_vertex_material_id()) {
             return true;
@@ -144,7 +144,7 @@ scalar paged_triangle_mesh::get_friction(vector3 point) const {
     auto friction = scalar{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
+        auto trimesh = get_submesh(mesh_idx);
         friction = trimesh->get_face_friction(tri_idx, point);
     });
 
@@ -155,7 +155,7 @@ scalar paged_triangle_mesh::get_restitution(vector3 point) const {
     auto restitution = scalar{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
+        auto trimesh = get_submesh(mesh_idx);
         restitution = trimesh->get_face_restitution(tri_idx, point);
     });
 
@@ -166,7 +166,7 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
     auto influence = std::array<triangle_mesh::material_influence, 3>{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
+        auto trimesh = get_submesh(mesh_idx);
         influence = trimesh->get_face_material_id(tri_idx, point);
     });
 
@@ -177,7 +177,7 @@ void paged_triangle_mesh::set_thickness(scalar thickness) {
     m_thickness = thickness;
 
     for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+        auto trimesh = std::atomic_load(&node.trimesh);
 
         if (trimesh) {
             trimesh->set_thickness(thickness);
-- 
2.43.0


From 354c8658814b7af2113bb8e91c685912f5bb4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:27 +0000
Subject: [PATCH 38/77] fix: submeshes embedded in one file were read
 concurrently from the same stream

---
 include/edyn/serialization/paged_triangle_mesh_s11n.hpp | 3 +++
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp     | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
index e719260..a3218da 100644
--- a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
+++ b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 #define EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 
+#include <mutex>
 #include <type_traits>
 #include "edyn/shapes/paged_triangle_mesh.hpp"
 #include "edyn/shapes/triangle_mesh_page_loader.hpp"
@@ -127,6 +128,8 @@ private:
     std::vector<size_t> m_offsets;
     paged_triangle_mesh_serialization_mode m_mode;
     enqueue_task_t *m_enqueue_task {nullptr};
+    // Submeshes embedded in this file can be loaded concurrently.
+    std::mutex m_file_mutex;
 };
 
 /**
diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index 4d7fa81..94e6945 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -133,10 +133,12 @@ void load_mesh_context::load(unsigned start, unsigned end) {
     auto mesh = std::make_shared<triangle_mesh>();
 
     switch(input->m_mode) {
-    case paged_triangle_mesh_serialization_mode::embedded:
+    case paged_triangle_mesh_serialization_mode::embedded: {
+        auto lock = std::lock_guard(input->m_file_mutex);
         input->seek_position(input->m_base_offset + input->m_offsets[m_index]);
         serialize(*input, *mesh);
         break;
+    }
     case paged_triangle_mesh_serialization_mode::external: {
         auto tri_mesh_path = get_submesh_path(input->m_path, m_index);
         auto tri_mesh_archive = file_input_archive(tri_mesh_path);
-- 
2.43.0


From 34aa3f5b3e7608b96fb7248964585ca51cb51d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:19 +0000
Subject: [PATCH 39/77] fix: assign mass and inertia to bodies created without
 them

set_rigidbody_mass and set_rigidbody_inertia replaced components that kinematic and
static bodies do not have, although they must be called before making such a body dynamic.
---
 src/edyn/util/rigidbody.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..53eca67 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -300,15 +300,20 @@ bool validate_rigidbody(entt::registry &registry, entt::entity &entity) {
 void set_rigidbody_mass(entt::registry &registry, entt::entity entity, scalar mass) {
     EDYN_ASSERT(mass > EDYN_EPSILON && mass < large_scalar);
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
-    registry.replace<edyn::mass>(entity, mass);
-    registry.replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
+    // Kinematic and static rigid bodies are created without mass.
+    registry.emplace_or_replace<edyn::mass>(entity, mass);
+    registry.emplace_or_replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
 }
 
 void set_rigidbody_inertia(entt::registry &registry, entt::entity entity, const matrix3x3 &inertia) {
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
     auto I_inv = inverse_matrix_symmetric(inertia);
-    registry.replace<edyn::inertia>(entity, inertia);
-    registry.replace<edyn::inertia_inv>(entity, I_inv);
+    // Kinematic and static rigid bodies are created without inertia.
+    registry.emplace_or_replace<edyn::inertia>(entity, inertia);
+    registry.emplace_or_replace<edyn::inertia_inv>(entity, I_inv);
+
+    auto basis = to_matrix3x3(registry.get<orientation>(entity));
+    registry.emplace_or_replace<inertia_world_inv>(entity, basis * I_inv * transpose(basis));
 }
 
 void set_rigidbody_friction(entt::registry &registry, entt::entity entity, scalar friction) {
-- 
2.43.0


From a26ca31a5b0161c516e72c46661f79df7f7306c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:19 +0000
Subject: [PATCH 40/77] fix: clear collision exclusions with entities that no
 longer exist

clear_collision_exclusion patched the exclusion list of destroyed entities.
---
 src/edyn/util/exclude_collision.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/exclude_collision.cpp b/src/edyn/util/exclude_collision.cpp
index 7dbaed4..174eb17 100644
--- a/src/edyn/util/exclude_collision.cpp
+++ b/src/edyn/util/exclude_collision.cpp
@@ -62,7 +62,11 @@ void clear_collision_exclusion(entt::registry &registry, entt::entity entity) {
 
     for (unsigned i = 0; i < size; ++i) {
         auto other = exclude.entity[i];
-        remove_collision_exclusion_one_way(registry, other, entity);
+
+        // The other entity might have been destroyed without being cleared.
+        if (registry.valid(other) && registry.all_of<collision_exclusion>(other)) {
+            remove_collision_exclusion_one_way(registry, other, entity);
+        }
     }
 
     registry.remove<collision_exclusion>(entity);
-- 
2.43.0


From 5e277a417fb8e82e81b9c9a4868ce9f717afefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 41/77] fix: split and wake up the island of a body that
 becomes non-procedural

set_procedural(entity, false) left the island unsplit, asleep and possibly without any
procedural body, and inserted a null island if the body was not in one yet.
---
 src/edyn/simulation/island_manager.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index c0f3412..21f7251 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -652,7 +652,24 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
     } else {
         if (auto *resident = m_registry->try_get<island_resident>(entity)) {
             entt::sparse_set island_entities;
-            island_entities.push(resident->island_entity);
+            auto island_entity = resident->island_entity;
+
+            // It's not in an island yet if it has just been created.
+            if (island_entity != entt::null) {
+                island_entities.push(island_entity);
+
+                // The bodies which were connected through this one might not be
+                // connected anymore, or the island might be left without
+                // procedural bodies.
+                if (!m_islands_to_split.contains(island_entity)) {
+                    m_islands_to_split.push(island_entity);
+                }
+
+                if (!m_islands_to_wake_up.contains(island_entity)) {
+                    m_islands_to_wake_up.push(island_entity);
+                }
+            }
+
             resident->island_entity = entt::null;
 
             m_registry->emplace<multi_island_resident>(entity, std::move(island_entities));
-- 
2.43.0


From 22be0c3985bd2f17bd10273c08c43d54482af437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 42/77] fix: wake up the island of a body that becomes
 procedural

---
 src/edyn/simulation/island_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 21f7251..0a0df1e 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -644,6 +644,9 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
                     merged_island_entity = *resident->island_entities.begin();
                 }
 
+                // The new procedural body can make others move.
+                wake_up_island(*m_registry, merged_island_entity);
+
                 resident->island_entities.clear(); // Must clear because `on_destroy_multi_island_resident` will be called.
                 m_registry->remove<multi_island_resident>(entity);
                 m_registry->emplace<island_resident>(entity, merged_island_entity);
-- 
2.43.0


From a034716393e335dbde3857383632abff27cc6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 43/77] fix: split islands that were merged after losing an
 edge

A pending split was forgotten when the island was merged into another before
split_islands ran, leaving disconnected bodies in one island.
---
 src/edyn/simulation/island_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0a0df1e..0fe6e03 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -337,6 +337,14 @@ entt::entity island_manager::merge_islands(const std::vector<entt::entity> &isla
 
     insert_to_island(island_entity, all_nodes, all_edges);
 
+    // If one of the merged islands has to be split, now the resulting island does.
+    for (auto other_island_entity : other_island_entities) {
+        if (m_islands_to_split.contains(other_island_entity) &&
+            !m_islands_to_split.contains(island_entity)) {
+            m_islands_to_split.push(island_entity);
+        }
+    }
+
     // Destroy empty islands.
     m_registry->destroy(other_island_entities.begin(), other_island_entities.end());
 
-- 
2.43.0


From c3f8e1900b47f307347ff41fc786d6d65511be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 44/77] fix: handle nodes and edges that changed between
 creation and the first update

A new node already in an island leaked that island into the next connected component,
and an edge cleared before the first update was read.
---
 src/edyn/simulation/island_manager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0fe6e03..0404fef 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -128,13 +128,19 @@ void island_manager::init_new_nodes_and_edges() {
     std::set<entity_graph::index_type> procedural_node_indices;
 
     for (auto entity : m_new_graph_nodes) {
-        if (m_registry->any_of<procedural_tag>(entity)) {
+        // A node could have been assigned to an island already if its kind has
+        // been changed after creation.
+        if (m_registry->any_of<procedural_tag>(entity) &&
+            m_registry->get<island_resident>(entity).island_entity == entt::null) {
             auto &node = node_view.get<graph_node>(entity);
             procedural_node_indices.insert(node.node_index);
         }
     }
 
     for (auto edge_entity : m_new_graph_edges) {
+        // Constraint might've been cleared.
+        if (!edge_view.contains(edge_entity)) continue;
+
         auto &edge = edge_view.get<graph_edge>(edge_entity);
         auto node_entities = graph.edge_node_entities(edge.edge_index);
 
-- 
2.43.0


From 245357b29378646d1cd00c66b415f01acc2b537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 45/77] fix: remove non-procedural bodies from islands they are
 no longer connected to

A kinematic or static body stayed in the island after its last edge to it was destroyed,
and if the island was split it kept referring to an island which did not contain it.
---
 src/edyn/simulation/island_manager.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0404fef..248f6b4 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -432,8 +432,21 @@ void island_manager::split_islands() {
 
         EDYN_ASSERT(!islands.empty());
 
+        // Remove this island from non-procedural entities which are not connected
+        // to the part that will remain in it.
+        auto remove_disconnected = [&](const entt::sparse_set &remaining_nodes) {
+            for (auto entity : source_island.nodes) {
+                if (!procedural_view.contains(entity) && !remaining_nodes.contains(entity)) {
+                    auto [resident] = multi_resident_view.get(entity);
+                    resident.island_entities.remove(source_island_entity);
+                }
+            }
+        };
+
         if (islands.size() == 1) {
             // Island is a single connected component in the entity graph.
+            remove_disconnected(islands.front().nodes);
+            source_island.nodes = std::move(islands.front().nodes);
             continue;
         }
 
@@ -451,6 +464,7 @@ void island_manager::split_islands() {
             }
         }
 
+        remove_disconnected(islands[biggest_idx].nodes);
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
-- 
2.43.0


From 602424202488542bd11ff603a46d0f83b48dbcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 46/77] fix: restart the sleep timer when an island changes or
 is put to sleep

An island merged with or extended by other bodies could fall asleep before they stayed
below the thresholds for the required time, and an island explicitly put to sleep fell
asleep again right after being woken up.
---
 src/edyn/simulation/island_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 248f6b4..71d0a1c 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -297,6 +297,9 @@ void island_manager::insert_to_island(entt::entity island_entity,
 
     island.edges.push(edges.begin(), edges.end());
 
+    // The time spent below the sleep thresholds does not include the new entities.
+    island.sleep_timestamp.reset();
+
     wake_up_island(*m_registry, island_entity);
 }
 
@@ -570,6 +573,8 @@ void island_manager::put_to_sleep(entt::entity island_entity) {
     m_registry->emplace<sleeping_tag>(island_entity);
 
     auto &island = m_registry->get<edyn::island>(island_entity);
+    // Restart timer once it's woken up.
+    island.sleep_timestamp.reset();
     auto procedural_view = m_registry->view<procedural_tag>();
 
     // Assign `sleeping_tag` to all procedural entities.
-- 
2.43.0


From f8e0fc0161149c3effcd0b226ed2791cab6dba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 47/77] fix: give velocities to bodies that were static and
 take them from those that become so

A static body turned dynamic or kinematic had no velocity components, which the solver
reads, and a moving body turned static kept its velocity and with it its islands awake.
---
 src/edyn/util/rigidbody.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 53eca67..d6b8caa 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -588,6 +588,26 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
 
     const bool procedural = kind == rigidbody_kind::rb_dynamic;
 
+    if (kind == rigidbody_kind::rb_static) {
+        // Static bodies do not move.
+        if (registry.all_of<linvel>(entity)) {
+            registry.replace<linvel>(entity, vector3_zero);
+        }
+
+        if (registry.all_of<angvel>(entity)) {
+            registry.replace<angvel>(entity, vector3_zero);
+        }
+    } else {
+        // Bodies created as static do not have a velocity.
+        if (!registry.all_of<linvel>(entity)) {
+            registry.emplace<linvel>(entity, vector3_zero);
+        }
+
+        if (!registry.all_of<angvel>(entity)) {
+            registry.emplace<angvel>(entity, vector3_zero);
+        }
+    }
+
     auto &node = registry.get<graph_node>(entity);
     registry.ctx().get<entity_graph>().set_connecting_node(node.node_index, procedural);
     registry.ctx().get<broadphase>().set_procedural(entity, procedural);
-- 
2.43.0


From af5757eb3b5d6c4b8d494884e37445bfa71ad804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:23 +0000
Subject: [PATCH 48/77] fix: destroy manifolds of bodies that had their shape
 removed

---
 src/edyn/collision/broadphase.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index f0aa6eb..3925511 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -122,11 +122,17 @@ void broadphase::destroy_separated_manifolds() {
 
     // Destroy manifolds of pairs whose AABBs are not intersecting anymore.
     for (auto [entity, manifold] : manifold_view.each()) {
-        auto [b0] = aabb_view.get(manifold.body[0]);
-        auto [b1] = aabb_view.get(manifold.body[1]);
-        const auto separation_offset = vector3_one * -m_separation_threshold;
+        // Bodies that had their shape removed do not have an AABB anymore.
+        bool separated = !aabb_view.contains(manifold.body[0]) || !aabb_view.contains(manifold.body[1]);
+
+        if (!separated) {
+            auto [b0] = aabb_view.get(manifold.body[0]);
+            auto [b1] = aabb_view.get(manifold.body[1]);
+            const auto separation_offset = vector3_one * -m_separation_threshold;
+            separated = !intersect(b0.inset(separation_offset), b1);
+        }
 
-        if (!intersect(b0.inset(separation_offset), b1)) {
+        if (separated) {
             clear_contact_manifold(*m_registry, entity);
             m_registry->destroy(entity);
         }
-- 
2.43.0


From 8de69e545f2c6dcbc81f847acf7e6a58878ff298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:30 +0000
Subject: [PATCH 49/77] fix: destroy contact points between bodies that became
 non-procedural

---
 src/edyn/util/rigidbody.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index d6b8caa..18a8b71 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -617,16 +617,24 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     // at least one dynamic entity.
     if (!procedural) {
         auto manifold_view = registry.view<contact_manifold>();
+        auto manifold_entities = std::vector<entt::entity>{};
+
         visit_edges(registry, entity, [&](entt::entity edge_entity) {
             if (manifold_view.contains(edge_entity)) {
                 auto [manifold] = manifold_view.get(edge_entity);
                 auto other = manifold.body[0] == entity ? manifold.body[1] : manifold.body[0];
 
                 if (!registry.all_of<procedural_tag>(other)) {
-                    registry.destroy(edge_entity);
+                    manifold_entities.push_back(edge_entity);
                 }
             }
         });
+
+        for (auto manifold_entity : manifold_entities) {
+            // Contact points have to be destroyed along with the manifold.
+            clear_contact_manifold(registry, manifold_entity);
+            registry.destroy(manifold_entity);
+        }
     }
 }
 
-- 
2.43.0


From 1892c5a3f9a56db7696532dff6f66160d92c43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 50/77] fix: insert bodies that had their shape reassigned only
 once in the broadphase tree

---
 src/edyn/collision/broadphase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 3925511..31d489f 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -86,6 +86,10 @@ void broadphase::init_new_aabb_entities() {
         // Entity might've been cleared.
         if (!aabb_view.contains(entity)) continue;
 
+        // The AABB might've been removed and assigned again before this update
+        // thus causing the entity to be present more than once.
+        if (m_registry->all_of<tree_resident>(entity)) continue;
+
         auto &aabb = aabb_view.get<AABB>(entity);
         bool procedural = procedural_view.contains(entity);
         auto &tree = procedural ? m_tree : m_np_tree;
-- 
2.43.0


From ca12df1aa4b6a830a5c82e01fef180c7d9626b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:58 +0000
Subject: [PATCH 51/77] fix: keep the collision filter of bodies created
 without a shape

---
 src/edyn/util/rigidbody.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 18a8b71..0a0f509 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -129,14 +129,15 @@ void make_rigidbody(entt::entity entity, entt::registry &registry, const rigidbo
                 }
             }
         }, *def.shape);
+    }
 
-        if (def.collision_group != collision_filter::all_groups ||
-            def.collision_mask != collision_filter::all_groups)
-        {
-            auto &filter = registry.emplace<collision_filter>(entity);
-            filter.group = def.collision_group;
-            filter.mask = def.collision_mask;
-        }
+    // A shape might be assigned later to a body created without one.
+    if (def.collision_group != collision_filter::all_groups ||
+        def.collision_mask != collision_filter::all_groups)
+    {
+        auto &filter = registry.emplace<collision_filter>(entity);
+        filter.group = def.collision_group;
+        filter.mask = def.collision_mask;
     }
 
     switch (def.kind) {
-- 
2.43.0


From 819ade0ca9141064b83fc991424563f0e47eb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:33 +0000
Subject: [PATCH 52/77] fix: do not simulate the duration of a pause when
 resuming in sequential mode

---
 include/edyn/simulation/stepper_sequential.hpp | 1 +
 src/edyn/simulation/stepper_sequential.cpp     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/edyn/simulation/stepper_sequential.hpp b/include/edyn/simulation/stepper_sequential.hpp
index 52146aa..e32e463 100644
--- a/include/edyn/simulation/stepper_sequential.hpp
+++ b/include/edyn/simulation/stepper_sequential.hpp
@@ -42,6 +42,7 @@ private:
     double m_last_time {};
     bool m_multithreaded;
     bool m_paused;
+    bool m_resumed {false};
 };
 
 }
diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index ee0313b..408c807 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -42,6 +42,12 @@ void stepper_sequential::update(double time) {
         return;
     }
 
+    if (m_resumed) {
+        // Do not simulate the time during which it was paused.
+        m_last_time = time;
+        m_resumed = false;
+    }
+
     auto sim_time = get_simulation_timestamp();
     auto elapsed = std::max(time - m_last_time, 0.0);
     m_accumulated_time += elapsed;
@@ -147,6 +153,7 @@ void stepper_sequential::step_simulation(double time) {
 }
 
 void stepper_sequential::set_paused(bool paused) {
+    m_resumed = !paused && (m_paused || m_resumed);
     m_paused = paused;
     m_accumulated_time = 0;
 }
-- 
2.43.0


From fc5c72eb035f332aac9f00f9db62a7671158a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:19 +0000
Subject: [PATCH 53/77] fix: allow a static rigid body to have a center of mass

---
 src/edyn/util/rigidbody.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 0a0f509..794a2fb 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -521,10 +521,10 @@ void rigidbody_set_kind(entt::registry &registry, entt::entity entity, rigidbody
 namespace edyn::internal {
 
 void apply_center_of_mass(entt::registry &registry, entt::entity entity, const vector3 &com) {
-    auto body_view = registry.view<position, orientation, linvel, angvel>();
+    auto body_view = registry.view<position, orientation>();
     auto com_view = registry.view<center_of_mass>();
 
-    auto [pos, orn, linvel, angvel] = body_view.get<position, orientation, edyn::linvel, edyn::angvel>(entity);
+    auto [pos, orn] = body_view.get<position, orientation>(entity);
     auto com_old = vector3_zero;
     auto has_com = com_view.contains(entity);
 
@@ -536,7 +536,13 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // since they're stored with respect to the center of mass.
     auto origin = to_world_space(-com_old, pos, orn);
     auto com_world = to_world_space(com, origin, orn);
-    linvel += cross(angvel, com_world - pos);
+
+    // Static bodies do not have a velocity.
+    if (registry.all_of<linvel, angvel>(entity)) {
+        auto [linvel, angvel] = registry.get<edyn::linvel, edyn::angvel>(entity);
+        linvel += cross(angvel, com_world - pos);
+    }
+
     pos = com_world;
 
     if (com != vector3_zero) {
-- 
2.43.0


From 2d7baf5146e3a2e7068e454b321dae338347a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 54/77] fix: clear_rigidbody removes the origin as well

---
 src/edyn/util/rigidbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 794a2fb..c2d4046 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -211,7 +211,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
         registry.remove<roll_direction>(entity);
     }
 
-    registry.remove<material, gravity, center_of_mass>(entity);
+    registry.remove<material, gravity, center_of_mass, origin>(entity);
 
     registry.remove<linvel, angvel>(entity);
     registry.remove<mass, mass_inv>(entity);
-- 
2.43.0


From fcc90fb439d3ae177eb0c59dfaa8848d8dfbb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:01 +0000
Subject: [PATCH 55/77] fix: clear_rigidbody does not leave the entity tagged
 as sleeping

---
 src/edyn/util/rigidbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index c2d4046..c7ca7fa 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -197,7 +197,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
     registry.remove<procedural_tag>(entity);
 
     registry.remove<networked_tag>(entity);
-    registry.remove<sleeping_disabled_tag>(entity);
+    registry.remove<sleeping_tag, sleeping_disabled_tag>(entity);
     registry.remove<collision_filter>(entity);
 
     if (rigidbody_has_shape(registry, entity)) {
-- 
2.43.0


From 4f592b0bfb19e07563ab8d078747517869d59050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:01 +0000
Subject: [PATCH 56/77] fix: rigidbody_set_shape updates the AABB of the body

---
 src/edyn/util/rigidbody.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index c7ca7fa..a234eb3 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -420,6 +420,16 @@ void wake_up_entity(entt::registry &registry, entt::entity entity) {
     }
 }
 
+template<typename ShapeType>
+static void reset_aabb(entt::registry &registry, entt::entity entity, const ShapeType &shape) {
+    // Remove and assign again so the broadphase inserts it anew, since the AABB
+    // of static bodies is not updated afterwards.
+    auto origin = get_rigidbody_origin(registry, entity);
+    auto aabb = shape_aabb(shape, origin, registry.get<orientation>(entity));
+    registry.remove<AABB>(entity);
+    registry.emplace<AABB>(entity, aabb);
+}
+
 template<typename ShapeType>
 void rigidbody_assign_shape(entt::registry &registry, entt::entity entity, ShapeType &shape) {
     if (!registry.any_of<static_tag>(entity)) {
@@ -446,13 +456,10 @@ void rigidbody_assign_shape(entt::registry &registry, entt::entity entity, Shape
         // This is an amorphous rigid body. Assign new shape.
         registry.emplace<ShapeType>(entity, shape);
         registry.emplace<shape_index>(entity, index);
-
-        const auto &pos = registry.get<position>(entity);
-        const auto &orn = registry.get<orientation>(entity);
-        auto aabb = shape_aabb(shape, pos, orn);
-        registry.emplace<AABB>(entity, aabb);
     }
 
+    reset_aabb(registry, entity, shape);
+
     // Assign tag for dynamic rolling shapes.
     if (registry.all_of<dynamic_tag>(entity)) {
         if constexpr(tuple_has_type<ShapeType, rolling_shapes_tuple_t>::value) {
-- 
2.43.0


From 81c30b913be897c5d0e10521a007a2583754b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:03 +0000
Subject: [PATCH 57/77] fix: set_kinematic_orientation yields a finite velocity
 along the shortest way

---
 src/edyn/util/rigidbody.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index a234eb3..eee6877 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -266,9 +266,15 @@ void set_kinematic_orientation(entt::registry &registry, entt::entity entity, co
         // Rotation that takes current orientation to new.
         auto r = orn * conjugate(curorn);
 
+        // Opposite quaternions are the same orientation. Pick the shortest way.
+        if (r.w < 0) {
+            r = quaternion{-r.x, -r.y, -r.z, -r.w};
+        }
+
         // Calculate angular velocity doing the inverse of what
-        // edyn::quaternion::integrate does.
-        const auto ws = std::acos(r.w) / (0.5f * dt);
+        // edyn::quaternion::integrate does. Due to rounding errors, `r.w` could
+        // be slightly greater than one.
+        const auto ws = std::acos(std::min(r.w, scalar(1))) / (0.5f * dt);
         const auto min_ws = scalar(0.001);
         constexpr auto half = scalar(0.5);
         scalar t;
-- 
2.43.0


From 49a29b3a82733147fd8696ab4c980f54b5a17037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 58/77] fix: a body that becomes dynamic has its inertia in its
 current orientation

---
 src/edyn/util/rigidbody.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index eee6877..6d0af66 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -35,6 +35,7 @@
 #include "edyn/comp/collision_filter.hpp"
 #include "edyn/comp/graph_node.hpp"
 #include "edyn/dynamics/moment_of_inertia.hpp"
+#include "edyn/sys/update_inertias.hpp"
 #include "edyn/util/aabb_util.hpp"
 #include "edyn/util/transient_util.hpp"
 #include "edyn/util/tuple_util.hpp"
@@ -628,6 +629,11 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
         }
     }
 
+    if (procedural) {
+        // The body could've been rotated while it was not dynamic.
+        update_inertia(registry, entity);
+    }
+
     auto &node = registry.get<graph_node>(entity);
     registry.ctx().get<entity_graph>().set_connecting_node(node.node_index, procedural);
     registry.ctx().get<broadphase>().set_procedural(entity, procedural);
-- 
2.43.0


From 70a54e2a4bfb87705634dae42da6a92b920708f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:27 +0000
Subject: [PATCH 59/77] fix: a body that becomes static has an AABB that is up
 to date

---
 src/edyn/collision/broadphase.cpp | 1 +
 src/edyn/util/rigidbody.cpp       | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 31d489f..918eb01 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -259,6 +259,7 @@ void broadphase::set_procedural(entt::entity entity, bool procedural) {
     auto &resident = m_registry->get<tree_resident>(entity);
 
     if (resident.procedural == procedural) {
+        (procedural ? m_tree : m_np_tree).move(resident.id, m_registry->get<AABB>(entity));
         return;
     }
 
diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 6d0af66..1bdc3f1 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -618,6 +618,15 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
         if (registry.all_of<angvel>(entity)) {
             registry.replace<angvel>(entity, vector3_zero);
         }
+
+        // The AABB of static bodies is not updated afterwards and it could've
+        // been moved since the last update.
+        if (rigidbody_has_shape(registry, entity)) {
+            visit_shape(registry, entity, [&](auto &shape) {
+                auto origin = get_rigidbody_origin(registry, entity);
+                registry.get<AABB>(entity) = shape_aabb(shape, origin, registry.get<orientation>(entity));
+            });
+        }
     } else {
         // Bodies created as static do not have a velocity.
         if (!registry.all_of<linvel>(entity)) {
-- 
2.43.0


From 4ddeb5f9ebbcb5f7548b82c0219f792fefa50ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:12 +0000
Subject: [PATCH 60/77] fix: attributes of a paged mesh at a point are those of
 the triangle that contains it

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 43 +++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 19f00a4..6d46647 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -140,12 +140,39 @@ AABB make_point_aabb(vector3 point, scalar size = 0.005) {
     return {point - extents, point + extents};
 }
 
+// Calls `func` with the cached triangle that contains the given point. More
+// triangles can have an AABB which contains it.
+template<typename Func>
+void visit_triangle_at_point(const paged_triangle_mesh &mesh, vector3 point, Func func) {
+    auto closest_mesh = std::shared_ptr<triangle_mesh>{};
+    auto closest_tri_idx = size_t{};
+    auto min_distance_sqr = EDYN_SCALAR_MAX;
+
+    mesh.visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
+        auto trimesh = mesh.get_submesh(mesh_idx);
+        auto vertices = trimesh->get_triangle_vertices(tri_idx);
+        auto coord = max(trimesh->barycentric_coordinates(tri_idx, point), vector3_zero);
+        coord /= coord.x + coord.y + coord.z;
+        auto closest = vertices[0] * coord.x + vertices[1] * coord.y + vertices[2] * coord.z;
+        auto dist_sqr = distance_sqr(point, closest);
+
+        if (dist_sqr < min_distance_sqr) {
+            closest_mesh = trimesh;
+            closest_tri_idx = tri_idx;
+            min_distance_sqr = dist_sqr;
+        }
+    });
+
+    if (closest_mesh) {
+        func(*closest_mesh, closest_tri_idx);
+    }
+}
+
 scalar paged_triangle_mesh::get_friction(vector3 point) const {
     auto friction = scalar{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = get_submesh(mesh_idx);
-        friction = trimesh->get_face_friction(tri_idx, point);
+    visit_triangle_at_point(*this, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        friction = trimesh.get_face_friction(tri_idx, point);
     });
 
     return friction;
@@ -154,9 +181,8 @@ scalar paged_triangle_mesh::get_friction(vector3 point) const {
 scalar paged_triangle_mesh::get_restitution(vector3 point) const {
     auto restitution = scalar{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = get_submesh(mesh_idx);
-        restitution = trimesh->get_face_restitution(tri_idx, point);
+    visit_triangle_at_point(*this, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        restitution = trimesh.get_face_restitution(tri_idx, point);
     });
 
     return restitution;
@@ -165,9 +191,8 @@ scalar paged_triangle_mesh::get_restitution(vector3 point) const {
 std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_material_id(vector3 point) const {
     auto influence = std::array<triangle_mesh::material_influence, 3>{};
 
-    visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = get_submesh(mesh_idx);
-        influence = trimesh->get_face_material_id(tri_idx, point);
+    visit_triangle_at_point(*this, point, [&](const triangle_mesh &trimesh, size_t tri_idx) {
+        influence = trimesh.get_face_material_id(tri_idx, point);
     });
 
     return influence;
-- 
2.43.0


From fd3b0aa0ac2265526c703c68981db781d690cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 61/77] fix: raycasts reported hits behind the start or beyond
 the end of the segment

---
 src/edyn/collision/raycast.cpp | 41 +++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..cd5a0d3 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -55,6 +55,18 @@ raycast_result raycast(entt::registry &registry, vector3 p0, vector3 p1,
     return {result, hit_entity};
 }
 
+// Keeps an intersection of the line through `p0` and `p1` only if it lies in the
+// segment between them. The fraction is zero if `p0` is inside the shape.
+static shape_raycast_result clip_to_segment(shape_raycast_result result, bool starts_inside) {
+    if (starts_inside) {
+        result.fraction = 0;
+    } else if (result.fraction < 0 || result.fraction > 1) {
+        return {};
+    }
+
+    return result;
+}
+
 shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &ctx) {
     // Reference: Real-Time Collision Detection - Christer Ericson,
     // Section 5.3.3 - Intersecting Ray or Segment Against Box.
@@ -100,8 +112,13 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
         }
     }
 
+    // Check if intersection range intersects the [0, 1] interval.
+    if (t_max < 0 || t_min > 1) {
+        return {};
+    }
+
     auto result = shape_raycast_result{};
-    result.fraction = t_min;
+    result.fraction = clamp_unit(t_min);
     result.normal = box.get_face_normal(face_idx, ctx.orn);
     result.info_var = box_raycast_info{face_idx};
 
@@ -127,6 +144,10 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     auto radius = cylinder.radius;
     auto radius_sqr = square(radius);
 
+    auto axial_pos = dot(ctx.p0 - ctx.pos, cyl_dir_norm);
+    auto starts_inside = std::abs(axial_pos) <= cylinder.half_length &&
+        length_sqr(ctx.p0 - ctx.pos - cyl_dir_norm * axial_pos) <= radius_sqr;
+
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
         // Cylinder and segment are parallel. Check if segment intersects a
         // cap face.
@@ -142,7 +163,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         result.normal = face_normal;
         result.info_var = cylinder_raycast_info{cylinder_feature::face, face_idx};
 
-        return result;
+        return clip_to_segment(result, starts_inside);
     }
 
     // Line intersects infinite cylinder. Check if it's within finite cylinder.
@@ -158,7 +179,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         result.fraction = fraction_in;
         result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
         result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
-        return result;
+        return clip_to_segment(result, starts_inside);
     }
 
     // Intersection point is beyond cylinder with finite length.
@@ -176,7 +197,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     result.normal = face_normal;
     result.info_var = cylinder_raycast_info{cylinder_feature::face, face_idx};
 
-    return result;
+    return clip_to_segment(result, starts_inside);
 }
 
 shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_context &ctx) {
@@ -191,7 +212,7 @@ shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_con
     shape_raycast_result result;
     result.fraction = t;
     result.normal = normalize(intersection - ctx.pos);
-    return result;
+    return clip_to_segment(result, false);
 }
 
 shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_context &ctx) {
@@ -207,6 +228,10 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     auto cap_dir = vertices[1] - vertices[0];
     auto radius = capsule.radius;
 
+    vector3 closest; scalar closest_fraction;
+    auto starts_inside = closest_point_segment(vertices[0], vertices[1], ctx.p0,
+                                               closest_fraction, closest) <= square(radius);
+
     auto intersect_hemisphere = [&](size_t hemi_idx) -> shape_raycast_result {
         scalar fraction;
 
@@ -221,7 +246,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
         result.fraction = fraction;
         result.normal = normal;
         result.info_var = capsule_raycast_info{capsule_feature::hemisphere, hemi_idx};
-        return result;
+        return clip_to_segment(result, starts_inside);
     };
 
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
@@ -247,7 +272,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
         result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
-        return result;
+        return clip_to_segment(result, starts_inside);
     }
 
     // Intersection point is beyond cylindrical section.
@@ -373,7 +398,7 @@ shape_raycast_result shape_raycast(const plane_shape &plane, const raycast_conte
         auto result = shape_raycast_result{};
         result.fraction = t;
         result.normal = plane.normal;
-        return result;
+        return clip_to_segment(result, false);
     }
 }
 
-- 
2.43.0


From 0c1e3db434e2e6f6fe30bf9ec2c81a59f801bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 62/77] fix: normal of a ray hitting the hemisphere of a
 capsule was not the one at the point hit

---
 src/edyn/collision/raycast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index cd5a0d3..f53a049 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -239,8 +239,8 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
             return {};
         }
 
-        auto intersection = lerp(ctx.p0, ctx.p1, u_in);
-        auto normal = normalize(intersection - ctx.pos);
+        auto intersection = lerp(ctx.p0, ctx.p1, fraction);
+        auto normal = normalize(intersection - vertices[hemi_idx]);
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
-- 
2.43.0


From de721805137e0aea2b6f9308905a61513365f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 63/77] fix: an asynchronous raycast with nothing in its path
 never invoked its delegate

---
 src/edyn/collision/raycast_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/raycast_service.cpp b/src/edyn/collision/raycast_service.cpp
index 9353242..80c29f1 100644
--- a/src/edyn/collision/raycast_service.cpp
+++ b/src/edyn/collision/raycast_service.cpp
@@ -43,6 +43,9 @@ void raycast_service::run_broadphase(bool mt) {
 
 void raycast_service::finish_broadphase() {
     for (auto &ctx : m_broad_ctx) {
+        // There is a result for every ray, even if there's nothing in its path.
+        m_results.try_emplace(ctx.id);
+
         for (auto entity : ctx.candidates) {
             auto &narrow_ctx = m_narrow_ctx.emplace_back();
             narrow_ctx.id = ctx.id;
-- 
2.43.0


From 8dd07a615f7ecc9f76d8868bc88f9ede52dc1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 64/77] fix: normal of a ray hitting the side of a cylinder or
 capsule was orthogonal to the ray, or NaN

---
 src/edyn/collision/raycast.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index f53a049..e03db49 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -177,7 +177,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         // Intersection lies on the side of cylinder.
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - cyl_vertices[0] - cyl_dir_norm * projections[0]);
         result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
         return clip_to_segment(result, starts_inside);
     }
@@ -260,16 +260,18 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     // cylindrical section.
     auto intersection = lerp(ctx.p0, ctx.p1, u_in);
 
+    auto cap_dir_norm = normalize(cap_dir);
+
     scalar projections[] = {
-        dot(intersection - vertices[0], cap_dir),
-        dot(intersection - vertices[1], cap_dir)
+        dot(intersection - vertices[0], cap_dir_norm),
+        dot(intersection - vertices[1], cap_dir_norm)
     };
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylindrical section.
         auto result = shape_raycast_result{};
         result.fraction = u_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - vertices[0] - cap_dir_norm * projections[0]);
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
         return clip_to_segment(result, starts_inside);
-- 
2.43.0


From 023a8a96e3bea7d6ed534cebfa7f4e3068600ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 65/77] fix: a ray starting at the center of a sphere
 normalized a zero vector

---
 src/edyn/collision/raycast.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index e03db49..c0a0e6f 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -55,6 +55,18 @@ raycast_result raycast(entt::registry &registry, vector3 p0, vector3 p1,
     return {result, hit_entity};
 }
 
+// Normal of a sphere at a point. The ray might start at its center, where there
+// is no normal, then it points against the ray.
+static vector3 sphere_normal(const vector3 &center, const vector3 &point, const raycast_context &ctx) {
+    auto normal = point - center;
+
+    if (!try_normalize(normal)) {
+        normal = normalize(ctx.p0 - ctx.p1);
+    }
+
+    return normal;
+}
+
 // Keeps an intersection of the line through `p0` and `p1` only if it lies in the
 // segment between them. The fraction is zero if `p0` is inside the shape.
 static shape_raycast_result clip_to_segment(shape_raycast_result result, bool starts_inside) {
@@ -211,7 +223,7 @@ shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_con
 
     shape_raycast_result result;
     result.fraction = t;
-    result.normal = normalize(intersection - ctx.pos);
+    result.normal = sphere_normal(ctx.pos, intersection, ctx);
     return clip_to_segment(result, false);
 }
 
@@ -240,7 +252,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
         }
 
         auto intersection = lerp(ctx.p0, ctx.p1, fraction);
-        auto normal = normalize(intersection - vertices[hemi_idx]);
+        auto normal = sphere_normal(vertices[hemi_idx], intersection, ctx);
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
-- 
2.43.0


From ff512533628c2d88671a4b13514e9acc7b660caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:34 +0000
Subject: [PATCH 66/77] fix: rays parallel to a face of a polyhedron were
 discarded behind the face instead of in front of it

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index c0a0e6f..dea3381 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -316,7 +316,7 @@ shape_raycast_result shape_raycast(const polyhedron_shape &poly, const raycast_c
         if (std::abs(denom) < EDYN_EPSILON) {
             // Segment does not intersect polyhedron if there's any face that is
             // parallel to it and it lies in front of the face.
-            if (dist > 0) {
+            if (dist < 0) {
                 return {};
             }
         } else {
-- 
2.43.0


From e3add7075a9f4c215fb3e7ae9620e07daeb62c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:26 +0000
Subject: [PATCH 67/77] fix: rays nearly parallel to a cylinder or capsule
 missed it due to cancellation

---
 src/edyn/math/geom.cpp | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 3d5d8f6..c65b324 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1222,32 +1222,26 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
                                                      scalar radius, scalar half_length,
                                                      coordinate_axis axis,
                                                      scalar &fraction_in, scalar &fraction_out) noexcept {
-    // Let a plane be defined by the ray and the vector orthogonal to the
-    // cylinder axis and the ray (i.e. their cross product). This plane cuts
-    // the cylinder and their intersection is an ellipse with vertical half
-    // length (aka semi-minor axis) equals to the cylinder radius and horizontal
-    // half length (aka semi-major axis) greater than or equal to the radius.
-    // The distance between the ray and the cylinder axis gives us the value of
-    // `y` in the ellipse equation `x^2/a^2 + y^2/b^2 = 1`. Solving for `x` will
-    // give us information to calculate the exact point where the ray intersects
-    // the cylinder.
-    // Detailed derivation: https://xissburg.github.io/2022-10-03-intersecting-line-against-cylinder
-
+    // Project the ray onto the plane orthogonal to the cylinder axis and
+    // intersect it with the circle that is the projection of the cylinder.
+    // The components orthogonal to the axis are calculated explicitly, which
+    // remains accurate as the directions become parallel.
     auto cyl_dir = coordinate_axis_vector(axis, orn);
-    vector3 cyl_vertices[] = {
-        pos + cyl_dir * half_length,
-        pos - cyl_dir * half_length
-    };
-    scalar s, t;
+    auto d = p1 - p0;
+    auto m = p0 - pos;
+    auto d_orth = d - cyl_dir * dot(d, cyl_dir);
+    auto m_orth = m - cyl_dir * dot(m, cyl_dir);
+    auto a = dot(d_orth, d_orth);
 
-    if (!closest_point_line_line(cyl_vertices[0], cyl_vertices[1], p0, p1, s, t)) {
+    // The axis comes from a rotation, thus allow for some rounding error.
+    if (a <= square(16 * EDYN_EPSILON) * dot(d, d)) {
         return {intersect_ray_cylinder_result::kind::parallel_directions};
     }
 
+    // Parameter where the ray is closest to the cylinder axis.
+    auto t = -dot(m_orth, d_orth) / a;
     auto radius_sqr = square(radius);
-    auto closest_cyl = lerp(cyl_vertices[0], cyl_vertices[1], s);
-    auto closest_ray = lerp(p0, p1, t);
-    auto normal = closest_ray - closest_cyl;
+    auto normal = m_orth + d_orth * t;
     auto dist_sqr = length_sqr(normal);
 
     // Distance between lines bigger than radius.
@@ -1256,13 +1250,7 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
     }
 
     // Offset `t` backwards to place it where the intersection happens.
-    auto d = p1 - p0;
-    auto e = cyl_vertices[1] - cyl_vertices[0];
-    auto dd = dot(d, d);
-    auto ee = dot(e, e);
-    auto de = dot(d, e);
-    auto delta_sqr = (radius_sqr - dist_sqr) * ee / (dd * ee - de * de);
-    auto delta = std::sqrt(delta_sqr);
+    auto delta = std::sqrt((radius_sqr - dist_sqr) / a);
     fraction_in = t - delta;
     fraction_out = t + delta;
     return {intersect_ray_cylinder_result::kind::intersects, dist_sqr, normal};
-- 
2.43.0


From f4bac0f95023ef51c6ce723a67c2649c914f36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:26 +0000
Subject: [PATCH 68/77] fix: rays hitting a capsule exactly where its cylinder
 ends were tested against the other hemisphere

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index dea3381..488d03c 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -291,7 +291,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     // Intersection point is beyond cylindrical section.
     // Intersect line with hemisphere.
-    auto hemi_idx = projections[0] < 0 ? 0 : 1;
+    auto hemi_idx = projections[0] > 0 ? 1 : 0;
     return intersect_hemisphere(hemi_idx);
 }
 
-- 
2.43.0


From a74d02b7a7e3ad5db579306646ac40fa5ba98a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:34 +0000
Subject: [PATCH 69/77] fix: dropping null entities from a replicated list also
 dropped or duplicated valid ones

---
 src/edyn/replication/map_child_entity.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/edyn/replication/map_child_entity.cpp b/src/edyn/replication/map_child_entity.cpp
index 76c9317..b286a10 100644
--- a/src/edyn/replication/map_child_entity.cpp
+++ b/src/edyn/replication/map_child_entity.cpp
@@ -4,16 +4,16 @@
 namespace edyn::internal {
 
 static void remove_null_entities_in_sequence(entt::meta_sequence_container &seq) {
-    // Move null entities to the end.
-    auto end = std::remove_if(seq.begin(), seq.end(), [](auto &&elem) {
-        return elem.template cast<entt::entity>() == entt::null;
-    });
-
     // Remove null if container is dynamic.
-    while (end != seq.end()) {
-        end = seq.erase(end);
+    for (auto it = seq.begin(); it != seq.end();) {
+        if ((*it).cast<entt::entity>() != entt::null) {
+            ++it;
+            continue;
+        }
+
+        it = seq.erase(it);
 
-        if (!end) { // Not a dynamic container.
+        if (!it) { // Not a dynamic container.
             break;
         }
     }
-- 
2.43.0


From c492f589ab893a957bb26382f41573c2662e35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:34 +0000
Subject: [PATCH 70/77] fix: entities held in nested members of replicated
 components were not mapped

---
 include/edyn/replication/map_child_entity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edyn/replication/map_child_entity.hpp b/include/edyn/replication/map_child_entity.hpp
index 4b4f215..1004565 100644
--- a/include/edyn/replication/map_child_entity.hpp
+++ b/include/edyn/replication/map_child_entity.hpp
@@ -53,7 +53,7 @@ void map_child_entity_meta(const entity_map &emap, const entt::meta_type &meta_t
                     map_child_entity_meta(emap, pair.second.type(), val);
                 }
             }
-        } else if (auto child_type = entt::resolve(id); child_type) {
+        } else if (auto child_type = entt::resolve(data.type().id()); child_type) {
             // If the member is another type registered in entt::meta, call this
             // function recursively to map the entities contained in it.
             auto child_value = data.get(entt::meta_handle(value));
@@ -85,7 +85,7 @@ void set_invalid_child_entity_to_null_meta(const entt::registry &registry, const
                     set_invalid_child_entity_to_null_meta(registry, elem.type(), elem);
                 }
             }
-        } else if (auto child_type = entt::resolve(id); child_type) {
+        } else if (auto child_type = entt::resolve(data.type().id()); child_type) {
             // If the member is another type registered in entt::meta, call this
             // function recursively to set the invalid entities contained in it
             // to null.
-- 
2.43.0


From e5e8d739ddc3c891c7de0a303c9fb9c5a461a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:34 +0000
Subject: [PATCH 71/77] fix: dictionaries of replicated components kept
 entities that no longer exist

---
 include/edyn/replication/map_child_entity.hpp | 12 ++++++++++++
 src/edyn/replication/map_child_entity.cpp     | 15 +++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/edyn/replication/map_child_entity.hpp b/include/edyn/replication/map_child_entity.hpp
index 1004565..2fcdffd 100644
--- a/include/edyn/replication/map_child_entity.hpp
+++ b/include/edyn/replication/map_child_entity.hpp
@@ -12,6 +12,7 @@ namespace edyn::internal {
 void map_child_entity_sequence(const entity_map &emap, entt::meta_sequence_container &seq);
 void set_invalid_child_entity_to_null_in_sequence(const entt::registry &registry, entt::meta_sequence_container &seq);
 void map_child_entity_associative(const entity_map &emap, entt::meta_associative_container &map);
+void remove_invalid_child_entity_in_associative(const entt::registry &registry, entt::meta_associative_container &map);
 
 template<typename Value>
 void map_child_entity_meta(const entity_map &emap, const entt::meta_type &meta_type, Value &value) {
@@ -85,6 +86,17 @@ void set_invalid_child_entity_to_null_meta(const entt::registry &registry, const
                     set_invalid_child_entity_to_null_meta(registry, elem.type(), elem);
                 }
             }
+        } else if (data.type().is_associative_container()) {
+            auto map = data.get(entt::meta_handle(value)).as_associative_container();
+
+            if (map.mapped_type() == entt::resolve<entt::entity>()) {
+                remove_invalid_child_entity_in_associative(registry, map);
+            } else if (auto child_type = entt::resolve(map.mapped_type().id()); child_type) {
+                for (auto pair : map) {
+                    auto &val = pair.second;
+                    set_invalid_child_entity_to_null_meta(registry, pair.second.type(), val);
+                }
+            }
         } else if (auto child_type = entt::resolve(data.type().id()); child_type) {
             // If the member is another type registered in entt::meta, call this
             // function recursively to set the invalid entities contained in it
diff --git a/src/edyn/replication/map_child_entity.cpp b/src/edyn/replication/map_child_entity.cpp
index b286a10..d110aaa 100644
--- a/src/edyn/replication/map_child_entity.cpp
+++ b/src/edyn/replication/map_child_entity.cpp
@@ -73,4 +73,19 @@ void map_child_entity_associative(const entity_map &emap, entt::meta_associative
     }
 }
 
+void remove_invalid_child_entity_in_associative(const entt::registry &registry, entt::meta_associative_container &map) {
+    EDYN_ASSERT(map.mapped_type() == entt::resolve<entt::entity>());
+    std::vector<entt::meta_any> erase_keys;
+
+    for (auto pair : map) {
+        if (!registry.valid(pair.second.cast<entt::entity>())) {
+            erase_keys.push_back(pair.first);
+        }
+    }
+
+    for (auto &key : erase_keys) {
+        map.erase(key);
+    }
+}
+
 }
-- 
2.43.0


From a7c2600a0f9404d2af6b92a191841959467baaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 72/77] fix: snapshots of entities that lost a recently
 modified component read a component that is not there

---
 .../edyn/networking/util/client_snapshot_exporter.hpp    | 9 +++++++--
 .../edyn/networking/util/server_snapshot_exporter.hpp    | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/edyn/networking/util/client_snapshot_exporter.hpp b/include/edyn/networking/util/client_snapshot_exporter.hpp
index e7530b0..d576471 100644
--- a/include/edyn/networking/util/client_snapshot_exporter.hpp
+++ b/include/edyn/networking/util/client_snapshot_exporter.hpp
@@ -138,7 +138,10 @@ class client_snapshot_exporter_impl : public client_snapshot_exporter {
             auto comp_index = modified.entry[i].index;
             visit_tuple(components_tuple, comp_index, [&](auto &&c) {
                 using CompType = std::decay_t<decltype(c)>;
-                internal::snapshot_insert_entity<CompType>(registry, entity, snap, comp_index);
+                // The component might have been removed since it was modified.
+                if (registry.all_of<CompType>(entity)) {
+                    internal::snapshot_insert_entity<CompType>(registry, entity, snap, comp_index);
+                }
             });
         }
     }
@@ -153,7 +156,9 @@ class client_snapshot_exporter_impl : public client_snapshot_exporter {
             visit_tuple(components_tuple, comp_index, [&](auto &&c) {
                 using CompType = std::decay_t<decltype(c)>;
                 if constexpr(std::is_base_of_v<network_input, CompType>) {
-                    internal::snapshot_insert_entity<CompType>(registry, entity, snap, comp_index);
+                    if (registry.all_of<CompType>(entity)) {
+                        internal::snapshot_insert_entity<CompType>(registry, entity, snap, comp_index);
+                    }
                 }
             });
         }
diff --git a/include/edyn/networking/util/server_snapshot_exporter.hpp b/include/edyn/networking/util/server_snapshot_exporter.hpp
index 5dd3ad2..94322c6 100644
--- a/include/edyn/networking/util/server_snapshot_exporter.hpp
+++ b/include/edyn/networking/util/server_snapshot_exporter.hpp
@@ -99,6 +99,11 @@ class server_snapshot_exporter_impl : public server_snapshot_exporter {
                 constexpr auto is_input = std::is_base_of_v<network_input, CompType>;
                 constexpr auto is_action = std::is_same_v<CompType, action_history>;
 
+                // The component might have been removed since it was modified.
+                if (!registry.all_of<CompType>(entity)) {
+                    return;
+                }
+
                 // Must not send action history or input state of entities
                 // owned by destination client.
                 if (!(is_action && owned_by_destination) && !(is_input && owned_by_destination)) {
-- 
2.43.0


From db5040462298590e85c0e89af8f8dc6902a8e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 73/77] fix: point constraint with friction stores an impulse
 of a row it did not prepare when there is no relative spin

---
 src/edyn/constraints/point_constraint.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..9e133be 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -33,15 +33,19 @@ void point_constraint::prepare(
     if (friction_torque > 0) {
         auto spin_axis = bodyA.angvel - bodyB.angvel;
 
-        if (try_normalize(spin_axis)) {
-            auto &row = cache.add_row();
-            row.J = {vector3_zero, spin_axis, vector3_zero, -spin_axis};
-            row.impulse = applied_friction_impulse;
-
-            auto friction_impulse = friction_torque * dt;
-            row.lower_limit = -friction_impulse;
-            row.upper_limit = friction_impulse;
+        // Pick any axis if there's no relative angular velocity. The number of
+        // rows must match what's expected in `store_applied_impulses`.
+        if (!try_normalize(spin_axis)) {
+            spin_axis = vector3_x;
         }
+
+        auto &row = cache.add_row();
+        row.J = {vector3_zero, spin_axis, vector3_zero, -spin_axis};
+        row.impulse = applied_friction_impulse;
+
+        auto friction_impulse = friction_torque * dt;
+        row.lower_limit = -friction_impulse;
+        row.upper_limit = friction_impulse;
     }
 }
 
-- 
2.43.0


From be802a97a02034be09bb68c3e931c6cc58dfa03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 74/77] fix: bend damping of cvjoint only worked when twist
 damping was set

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index c16d1f9..3c8652c 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -193,7 +193,7 @@ void cvjoint_constraint::prepare(
 
         auto friction_impulse = bend_friction_torque * dt;
 
-        if (twist_damping > 0) {
+        if (bend_damping > 0) {
             friction_impulse += std::abs(angspd_rel) * bend_damping * dt;
         }
 
-- 
2.43.0


From 84c010b4731cfcae770b52022658798c9e5eb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 75/77] fix: generic constraint can prepare more rows than the
 preparation cache holds

---
 include/edyn/dynamics/row_cache.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index a77dcfc..f64eb36 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -54,7 +54,9 @@ struct row_cache {
  * `row_cache` for better performance during the solver iterations.
  */
 struct constraint_row_prep_cache {
-    static constexpr unsigned max_rows = 16;
+    // Enough for a `generic_constraint` with all four rows in all six degrees
+    // of freedom.
+    static constexpr unsigned max_rows = 24;
     static constexpr unsigned max_constraints = 8;
 
     struct element {
-- 
2.43.0


From 9f8a38e4f9e0387cab14625d6b7c7fbb397ae3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:30 +0000
Subject: [PATCH 76/77] fix: linear rows of generic constraint apply a net
 torque when the pivots are apart

---
 src/edyn/constraints/generic_constraint.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/edyn/constraints/generic_constraint.cpp b/src/edyn/constraints/generic_constraint.cpp
index 7bea800..a9b9d0d 100644
--- a/src/edyn/constraints/generic_constraint.cpp
+++ b/src/edyn/constraints/generic_constraint.cpp
@@ -13,7 +13,10 @@ void generic_constraint::prepare(
 
     auto pivotA = to_world_space(pivot[0], bodyA.origin, bodyA.orn);
     auto pivotB = to_world_space(pivot[1], bodyB.origin, bodyB.orn);
-    auto rA = pivotA - bodyA.pos;
+    // The linear axes are fixed in A and the pivots might be apart in the degrees
+    // of freedom that aren't locked. Thus, the lever arm in A goes all the way to
+    // the pivot in B, otherwise a net torque would be applied.
+    auto rA = pivotB - bodyA.pos;
     auto rB = pivotB - bodyB.pos;
 
     auto pivot_offset = pivotB - pivotA;
@@ -264,7 +267,7 @@ void generic_constraint::solve_position(position_solver &solver) {
         auto pivotA = to_world_space(pivot[0], originA, ornA);
         auto pivotB = to_world_space(pivot[1], originB, ornB);
         auto pivot_offset = pivotB - pivotA;
-        auto rA = pivotA - posA;
+        auto rA = pivotB - posA;
         auto rB = pivotB - posB;
 
         auto axisA = rotate(ornA, frame[0].column(i));
-- 
2.43.0


From 506e2252291867548366b66e0cb2dd1373d83489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:03 +0000
Subject: [PATCH 77/77] fix: rotate the roll direction of body B with the
 orientation of body B

---
 src/edyn/constraints/contact_extras_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/contact_extras_constraint.cpp b/src/edyn/constraints/contact_extras_constraint.cpp
index 39048fa..9efcd31 100644
--- a/src/edyn/constraints/contact_extras_constraint.cpp
+++ b/src/edyn/constraints/contact_extras_constraint.cpp
@@ -49,7 +49,7 @@ void contact_extras_constraint::prepare(constraint_row_prep_cache &cache, scalar
             // thus preventing impulses in the undesired directions.
             for (auto j = 0; j < 2; ++j) {
                 if (roll_dir[j] != vector3_zero) {
-                    auto roll_dir_world = rotate(bodyA.orn, roll_dir[j]);
+                    auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
                     axis *= dot(roll_dir_world, axis);
                 }
             }
-- 
2.43.0

