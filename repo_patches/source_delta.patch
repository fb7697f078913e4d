From 2072995680da39e3adbb7109cbe5ec0202bff3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 01/51] fix: segment_obb_distance_sqrd used the diagonal 3-1 in
 place of the edge 3-0

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From f1ae67766f9d1a071541861bfc7055a4680e31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 02/51] fix: polygon and polyline closest pair searches skipped
 the closing edges and left outputs unset

---
 .../polygon_polygon_closest_point.hpp         | 22 ++++++++++++++++++-
 .../distance/polygon_polygon_distance.hpp     |  5 ++++-
 .../polyline_polyline_closest_point.hpp       |  5 +++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..5811106 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,27 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        //! The ranges below hold the edges (i, i+1); the closing edges are measured here and give the first upper bound.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l;
+            std::size_t i2l = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, i2l), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = i2l;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..2bdfe54 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,10 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+		//! The ranges below hold the edges (i, i+1); the closing edges are measured here and give the first upper bound.
+		area_t minDist2 = (std::min)(
+			segment_polygon_distance_sqrd(access1::get_point(p1, access1::size(p1) - 1), access1::get_point(p1, 0), p2, cmp),
+			segment_polygon_distance_sqrd(access2::get_point(p2, access2::size(p2) - 1), access2::get_point(p2, 0), p1, cmp));
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..2982e14 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,11 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        //! The outputs belong to the initial bound until something nearer is found.
+        i1 = i2 = 0;
+        s = t = Dimensionless{};
+        c1 = access1::get_point(p1, 0);
+        c2 = access2::get_point(p2, 0);
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 9d06d3ce370f159c9d76793e296762c9077592dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 03/51] fix: ray intersections treated every parallel segment
 or line as collinear and cut lines off behind their reference point

---
 .../algorithm/intersection/ray_line_intersection.hpp      | 8 ++------
 .../algorithm/intersection/ray_segment_intersection.hpp   | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..099d19c 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -31,7 +31,7 @@ namespace geometrix {
         ray_line_intersection_result() = default;
 
         ray_line_intersection_result(bool isIntersecting, bool isOverlapping = false)
-        : result(((isIntersecting || isOverlapping) ? e_is_intersecting : 0) | (isOverlapping ? e_overlapping : 0))
+        : result(((isIntersecting || isOverlapping) ? e_is_intersecting : 0) | (isOverlapping ? e_is_overlapping : 0))
         {}
 
         bool is_intersecting() const { return (result & e_is_intersecting) != 0; }
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (get_orientation(v2, v1, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +92,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From b70d8e3cd3b32f833dd11f920281f43083557fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 04/51] fix: 3d segment intersection reported touching at an
 end of the first segment as a crossing

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..b74a3b2 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !cmp.greater_than( t, zero ) || !cmp.less_than( t, one ) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 9801f007319d1d91eb457c709d7711d5182028d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 05/51] fix: oriented_intersection reported collinear overlap
 from a shared end as endpoint contact

---
 geometrix/algorithm/orientation.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometrix/algorithm/orientation.hpp b/geometrix/algorithm/orientation.hpp
index 9f640a6..a3020b5 100644
--- a/geometrix/algorithm/orientation.hpp
+++ b/geometrix/algorithm/orientation.hpp
@@ -105,6 +105,11 @@ namespace geometrix {
             if( (originEqualsp3 && destinationEqualsp4) || (originEqualsp4 && destinationEqualsp3) )
                 return e_overlapping;
 
+            //! An end strictly inside the other segment and a shared end: the segments overlap along a stretch.
+            bool isEndShared = originEqualsp3 || originEqualsp4 || destinationEqualsp3 || destinationEqualsp4;
+            if( isEndShared && (p1isBetweenp3p4 || p2isBetweenp3p4 || p3isBetweenp1p2 || p4isBetweenp1p2) )
+                return e_overlapping;
+
             if(originEqualsp3)
                 return e_endpoint;
 
-- 
2.43.0


From 60d1b46c551969894c402fa6d0bd7951e11bdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 06/51] fix: sphere_polyline_intersection did not compile for
 lack of a typename

---
 .../algorithm/intersection/sphere_polyline_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
index fd5a134..b465321 100644
--- a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
@@ -26,7 +26,7 @@ inline bool sphere_polyline_intersect( const Sphere& s, const Polyline& pline, V
     BOOST_CONCEPT_ASSERT((PointSequenceConcept<Polyline>));
     BOOST_CONCEPT_ASSERT((NumberComparisonPolicyConcept<NumberComparisonPolicy>));
     using access = point_sequence_traits<Polyline>;
-    using length_t = arithmetic_type_of<typename access::point_type>::type;
+    using length_t = typename arithmetic_type_of<typename access::point_type>::type;
     using dimensionless_t = decltype(std::declval<length_t>() / std::declval<length_t>());
     using point_type = point<length_t, 2>;
 
-- 
2.43.0


From ff7f6c270ba569477b1d4cea6234c32e128b63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 07/51] fix: segment_capsule_intersection never took its
 parallel branch and divided by zero

---
 .../algorithm/intersection/segment_capsule_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..c96ac73 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -47,7 +47,7 @@ namespace geometrix {
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
-- 
2.43.0


From a732f8d36c913e0fc8718485b87b8ebeb89369db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 08/51] fix: moving sphere against box tests took the ray's
 exit point for the contact region when the sphere started within its radius
 of the box

---
 .../intersection/moving_sphere_aabb_intersection.hpp         | 5 ++++-
 .../intersection/moving_sphere_obb_intersection.hpp          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..a2c13b8 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -82,8 +82,11 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto xresult = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!xresult)
             return moving_sphere_aabb_intersection_result();
+        if (xresult.is_origin_inside() && !a.intersects(get_center(s), cmp))
+            assign(p, get_center(s));
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..ed05dea 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -94,8 +94,11 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto xresult = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!xresult)
             return moving_sphere_obb_intersection_result();
+        if (xresult.is_origin_inside() && !a.intersects(get_center(rs), cmp))
+            assign(p, get_center(rs));
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
-- 
2.43.0


From 37f0134bbf9213cd861a09a6ef705a160874e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 09/51] fix: convex polygon intersection visited the wrong
 number of vertices of a contained first polygon

---
 .../intersection/convex_polygon_polygon_intersection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..29b41c2 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -160,7 +160,7 @@ namespace geometrix {
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From 8bca803e17cb87913dc91bf34df157aa63f7856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 10/51] fix: collinear segments that only share an end were
 reported as overlapping

---
 .../segment_segment_intersection.hpp          | 82 +++++++++----------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index b74a3b2..17068dc 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -55,91 +55,91 @@ namespace geometrix {
                 return e_overlapping;
             }
 
-            if( CisBetweenAB && BisBetweenCD )
+            bool originEqualsC = numeric_sequence_equals( A, C, cmp );
+            bool destinationEqualsD = numeric_sequence_equals( B, D, cmp );
+            bool originEqualsD = numeric_sequence_equals( A, D, cmp );
+            bool destinationEqualsC = numeric_sequence_equals( B, C, cmp );
+            if( (originEqualsC && destinationEqualsD) || (originEqualsD && destinationEqualsC) )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = C;
+                    xPoint[0] = A;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if( CisBetweenAB && AisBetweenCD )
+            if(originEqualsC)
             {
                 if(xPoint)
-                {
-                    xPoint[0] = C;
-                    xPoint[1] = A;
-                }
+                    xPoint[0] = A;
+                return e_endpoint;
+            }
 
-                return e_overlapping;
+            if(originEqualsD)
+            {
+                if(xPoint)
+                    xPoint[0] = A;
+                return e_endpoint;
             }
 
-            if( DisBetweenAB && BisBetweenCD )
+            if(destinationEqualsC)
+            {
+                if(xPoint)
+                    xPoint[0] = B;
+                return e_endpoint;
+            }
+
+            if(destinationEqualsD)
+            {
+                if(xPoint)
+                    xPoint[0] = B;
+                return e_endpoint;
+            }
+
+            if( CisBetweenAB && BisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = D;
+                    xPoint[0] = C;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if( DisBetweenAB && AisBetweenCD )
+            if( CisBetweenAB && AisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = D;
+                    xPoint[0] = C;
                     xPoint[1] = A;
                 }
 
                 return e_overlapping;
             }
 
-            bool originEqualsC = numeric_sequence_equals( A, C, cmp );
-            bool destinationEqualsD = numeric_sequence_equals( B, D, cmp );
-            bool originEqualsD = numeric_sequence_equals( A, D, cmp );
-            bool destinationEqualsC = numeric_sequence_equals( B, C, cmp );
-            if( (originEqualsC && destinationEqualsD) || (originEqualsD && destinationEqualsC) )
+            if( DisBetweenAB && BisBetweenCD )
             {
                 if(xPoint)
                 {
-                    xPoint[0] = A;
+                    xPoint[0] = D;
                     xPoint[1] = B;
                 }
 
                 return e_overlapping;
             }
 
-            if(originEqualsC)
-            {
-                if(xPoint)
-                    xPoint[0] = A;
-                return e_endpoint;
-            }
-
-            if(originEqualsD)
-            {
-                if(xPoint)
-                    xPoint[0] = A;
-                return e_endpoint;
-            }
-
-            if(destinationEqualsC)
+            if( DisBetweenAB && AisBetweenCD )
             {
                 if(xPoint)
-                    xPoint[0] = B;
-                return e_endpoint;
-            }
+                {
+                    xPoint[0] = D;
+                    xPoint[1] = A;
+                }
 
-            if(destinationEqualsD)
-            {
-                if(xPoint)
-                    xPoint[0] = B;
-                return e_endpoint;
+                return e_overlapping;
             }
 
             return e_non_crossing;
-- 
2.43.0


From a44f396fe9f5e3d2a387eafad053c185d5c3b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 11/51] fix: segment_polygon_intersection did not compile and
 dropped one end of an overlap

---
 .../algorithm/intersection/segment_polygon_intersection.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..8651d14 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -42,7 +42,7 @@ namespace geometrix {
             if (itype == e_crossing || itype == e_endpoint)
                 intersections.insert(xpoints[0]);
             else if (itype == e_overlapping)
-                intersections.insert(xpoints, xpoints + 1);
+                intersections.insert(xpoints, xpoints + 2);
         }
 
         if (!intersections.empty())
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From a4d77589304e2d04c89736ffdb106d40af0bee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 12/51] fix: polyline_polyline_intersect stopped after the
 first segment with any intersection

---
 .../intersection/polyline_polyline_intersection.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..71516b5 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,11 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			stop = visitor(iType, i1, j1, i, j, x1, x2);
+			return stop;
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From 3fc5c4a66b590e091b493e2e1282e0fdc2ec504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 13/51] fix: polyline_split at the end dropped the last point
 of the first part

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..ae3ceda 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+        //! The split position is at (or past) the end: the first part is the whole polyline.
+        if (j == size)
+            a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 4621ee9020ab87aff2ec62dfb842c263e641f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 14/51] fix: point_polyline_orientation treated points behind
 the first vertex as nearest to the second

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From 762816a1d2e397103aaf8f7d021f2474ad5d8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 15/51] fix: ramer_douglas_peucker_algorithm left the split
 vertex out of the first half

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..3c05e95 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -51,7 +51,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From 97f0c23a2ce65b36a0490c5ab7eaed28a900795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 16/51] fix: polyline_offset emitted an unset point at a
 straight joint

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..a5a41a2 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -326,7 +326,8 @@ namespace geometrix {
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
 					point_type xPoint;
-					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
+					if (line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp) != e_crossing)
+						assign(xPoint, pOffsetB);
 					result.push_back(xPoint);
 
 					A = C;
-- 
2.43.0


From d6e7ac785c88bd51cfd50db33c31fd4083bd1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 17/51] fix: collinear points next to the first vertex of a
 polygon were kept, and the wrong index was reported

---
 .../remove_collinear_points.hpp               | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..31363aa 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -28,6 +28,7 @@ namespace geometrix {
             return cPoints;
 
         Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        std::size_t bIndex = 1;//! index of the point at the back of newPoly.
         for (std::size_t i = 2; i < size; ++i)
         {
             const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
@@ -38,14 +39,28 @@ namespace geometrix {
                 if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
                 {
                     newPoly.push_back(c);
+                    bIndex = i;
                     continue;
                 }
+
+                cPoints.insert(i);
             }
             else
-                assign(b, c);//! replace b with c.      
+            {
+                assign(b, c);//! replace b with c.
+                cPoints.insert(bIndex);
+                bIndex = i;
+            }
+        }
 
-            cPoints.insert(i);
+        //! The first and last points may be collinear with their neighbors across the closing edge.
+        if (access::size(newPoly) > 3 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(newPoly), cmp))
+        {
+            cPoints.insert(bIndex);
+            newPoly.pop_back();
         }
+        if (access::size(newPoly) > 3 && is_collinear(access::back(newPoly), access::front(newPoly), access::get_point(newPoly, 1), cmp))
+            cPoints.insert(0);
 
         return cPoints;
     }
@@ -75,6 +90,12 @@ namespace geometrix {
                 assign(b, c);//! replace b with c.      
         }
 
+        //! The first and last points may be collinear with their neighbors across the closing edge.
+        if (access::size(newPoly) > 3 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(newPoly), cmp))
+            newPoly.pop_back();
+        if (access::size(newPoly) > 3 && is_collinear(access::back(newPoly), access::front(newPoly), access::get_point(newPoly, 1), cmp))
+            newPoly.erase(newPoly.begin());
+
         return newPoly;
     }
 
-- 
2.43.0


From 855a50400100f69a3d11247218cc111566fb0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 18/51] fix: point_in_circumcircle did not compile

---
 geometrix/algorithm/point_in_circumcircle.hpp | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geometrix/algorithm/point_in_circumcircle.hpp b/geometrix/algorithm/point_in_circumcircle.hpp
index ddbbe60..e78b2a8 100644
--- a/geometrix/algorithm/point_in_circumcircle.hpp
+++ b/geometrix/algorithm/point_in_circumcircle.hpp
@@ -16,8 +16,8 @@ namespace geometrix {
 
     enum class point_circle_orientation
     {
-        outside = -1
-        cocircular = 0
+        outside = -1,
+        cocircular = 0,
         inside = 1
     };
 
@@ -35,7 +35,7 @@ namespace geometrix {
         static_assert(dimension_of<Point4>::value == 2, "point_in_cicumcircle is 2D only.");
 
         using length_t = typename arithmetic_type_of<Point1>::type;
-        using area_t = decltype(std::declval<length_t>()*std::declval<length_t>);
+        using area_t = decltype(std::declval<length_t>()*std::declval<length_t>());
 
         length_t apx = get<0>(a) - get<0>(p);
         length_t apy = get<1>(a) - get<1>(p);
@@ -44,18 +44,18 @@ namespace geometrix {
         length_t cpx = get<0>(c) - get<0>(p);
         length_t cpy = get<1>(c) - get<1>(p);
 
-        area_t abdet = adx * bdy - bdx * ady;
-        area_t bcdet = bdx * cdy - cdx * bdy;
-        area_t cadet = cdx * ady - adx * cdy;
-        area_t alift = adx * adx + ady * ady;
-        area_t blift = bdx * bdx + bdy * bdy;
-        area_t clift = cdx * cdx + cdy * cdy;
+        area_t abdet = apx * bpy - bpx * apy;
+        area_t bcdet = bpx * cpy - cpx * bpy;
+        area_t cadet = cpx * apy - apx * cpy;
+        area_t alift = apx * apx + apy * apy;
+        area_t blift = bpx * bpx + bpy * bpy;
+        area_t clift = cpx * cpx + cpy * cpy;
 
-        area_t r = alift * bcdet + blift * cadet + clift * abdet;
-        if(cmp.greater_than(r, constants::zero<area_t>())
+        auto r = alift * bcdet + blift * cadet + clift * abdet;
+        if(cmp.greater_than(r, constants::zero<decltype(r)>()))
             return point_circle_orientation::inside;
 
-        if(cmp.less_than(r, constants::zero<area_t>())
+        if(cmp.less_than(r, constants::zero<decltype(r)>()))
             return point_circle_orientation::outside;
          
         return point_circle_orientation::cocircular;
-- 
2.43.0


From 091ac7ab8180deba3973f6b7640ea096d7858646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 19/51] fix: is_segment_in_range_2d accepted a segment behind
 the origin joining the lines of the range vectors

---
 geometrix/algorithm/is_segment_in_range.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..d814ee0 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -72,14 +72,11 @@ namespace geometrix {
 */
 
 		direct_comparison_policy directCmp;
-		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
-		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
-		
-		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
-		
+		//! Special case where both segment endpoints lay on the lines of the range vectors.
+		//! Neither endpoint is in the range, so both must lay behind the origin.
+		if( (detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>()) || (detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>()) )
+			return false;
+
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
 	}
-- 
2.43.0


From 44b645b2eca7a0847889b9ed180672f0a7347148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 20/51] fix: is_segment_in_range_2d with points intersected
 whole lines and lost segments that meet the range

---
 geometrix/algorithm/is_segment_in_range.hpp | 88 ++++++---------------
 1 file changed, 22 insertions(+), 66 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index d814ee0..a3116e2 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -115,83 +115,39 @@ namespace geometrix {
 			return true;
 		}
 
+		length_t t;
+		Point xPointLo[2], xPointHi[2];
+		const auto loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
+		const auto hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
+
+		//! One endpoint is inside... the segment leaves through one of the range vectors (or just touches the range.)
 		if( startIn != endIn )
 		{
-			Point xPointLo, xPointHi;
-			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
-			if( loIType == e_crossing )
-			{
-				xPoints[0] = xPointLo;
-				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
-				return true;
-			}
-			else if( loIType == e_overlapping )
+			const Point inside = startIn ? get_start( segment ) : get_end( segment );
+			if( loIType == e_overlapping || hiIType == e_overlapping )
 			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
+				xPoints[0] = loIType == e_overlapping ? origin : inside;
+				xPoints[1] = loIType == e_overlapping ? inside : origin;
 			}
-
-			intersection_type hiIType = line_segment_intersect( origin, origin + hi, segment, xPointHi, cmp );
-			if( (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				if( loIType == e_endpoint )
-					xPoints[0] = xPointLo;
-				else
-					xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
-				xPoints[1] = xPointHi;				
-				return true;
-			}
-			else if( hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-
-			return false;
-		}
-
-		//! Are both points outside the range?
-		const auto dotHiSegStart = dot_product( hi, vSegStart );
-		const auto dotLoSegEnd = dot_product( lo, vSegEnd );
-		const auto dotLoSegStart = dot_product( lo, vSegStart );
-		const auto dotHiSegEnd = dot_product( hi, vSegEnd );
-
-		//! Check if start is outside of the hi end and end is outside the lo end.
-		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
-		{
-			//! Crosses both in this case.
-			Point xPointLo[2], xPointHi[2];
-			length_t t;
-			intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
-			intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
-			if( (loIType == e_crossing || loIType == e_endpoint) && (hiIType == e_crossing || hiIType == e_endpoint) )
+			else if( loIType == e_crossing )
 			{
 				xPoints[0] = xPointLo[0];
-				xPoints[1] = xPointHi[0];
-				return true;
+				xPoints[1] = inside;
 			}
-			else if( loIType == e_overlapping || hiIType == e_overlapping )
+			else
 			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
+				xPoints[0] = inside;
+				xPoints[1] = hiIType == e_crossing ? xPointHi[0] : inside;
 			}
+			return true;
 		}
-		else 
+
+		//! Both endpoints are outside... the segment must cross both range vectors.
+		if( (loIType == e_crossing || loIType == e_endpoint) && (hiIType == e_crossing || hiIType == e_endpoint) )
 		{
-			//! Special case where both segment endpoints lay on a range vector.
-			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
-			{
-				xPoints[0] = get_start(segment);
-				xPoints[1] = get_start(segment);
-				return true;
-			}
+			xPoints[0] = xPointLo[0];
+			xPoints[1] = xPointHi[0];
+			return true;
 		}
 
 		//! The segment falls outside of the range.
-- 
2.43.0


From 96a4d5daf0aeb145d89057a7b345dd6b638eb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 21/51] fix: lexicographical_segment_compare took the first
 segment's end from the second

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From f89dfc161cac59b9b5d796d2d5f60cceaae65f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 22/51] fix: pseudo_angle was negative for a vector along -x
 with a negative zero ordinate

---
 geometrix/utility/vector_angle_compare.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/vector_angle_compare.hpp b/geometrix/utility/vector_angle_compare.hpp
index 7c555cb..8ed2db5 100644
--- a/geometrix/utility/vector_angle_compare.hpp
+++ b/geometrix/utility/vector_angle_compare.hpp
@@ -26,9 +26,8 @@ namespace geometrix {
     {
         GEOMETRIX_ASSERT(!is_null(v));
         using std::abs;
-        using std::copysign;
-        auto result = copysign(1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v))), get<1>(v));
-        return (get<1>(v) < 0) ? 4 + result : result;
+        auto result = 1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v)));
+        return (get<1>(v) < 0) ? 4 - result : result;
     }
 
     template <typename NumberComparisonPolicy>
-- 
2.43.0


From aaffa8d8c3358b4b764a7d382b6a6bd2af01e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 23/51] fix: bisect did not bisect the angle of vectors of
 different lengths

---
 geometrix/arithmetic/vector/bisect.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..86ba71b 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -40,13 +40,13 @@ namespace geometrix {
 			auto one_half = constants::one_half<dimensionless_t>();
 			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+				return normalize(one_half * (nlo + nhi));
+			return normalize(one_half * (-nlo - nhi));
 		}
 		else if (dp == constants::negative_one<decltype(dp)>())
 			return right_normal(nhi);
 
-		return -hi;
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -57,11 +57,13 @@ namespace geometrix {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
         auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(one_half * (nlo + nhi));
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(one_half * (-nlo - nhi));
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From 216b0144772fb02583b5187b929095f58194638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 24/51] fix: orientation_segment_traversal never ended on a
 segment going down within one column of cells

---
 geometrix/algorithm/orientation_grid_traversal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..fb65cd4 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -84,7 +84,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
-- 
2.43.0


From f4f2b03a137d5dca40e08c256cf949dcbb1f0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 25/51] fix: fast_voxel_grid_traversal missed the last cell of
 a segment ending on a corner of it

---
 geometrix/algorithm/fast_voxel_grid_traversal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/fast_voxel_grid_traversal.hpp b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
index 0681423..25ec28e 100644
--- a/geometrix/algorithm/fast_voxel_grid_traversal.hpp
+++ b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
@@ -144,7 +144,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( i != i_end && (j == j_end || tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
@@ -291,7 +291,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( i != i_end && (j == j_end || tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
-- 
2.43.0


From f90ad6e6a12b56ec4ae522d1f3bde04f5dab596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 26/51] fix: floodfill_grid_traversal entered holes above a
 hole in the lowest row of cells

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..fd3e2f1 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,6 +212,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
@@ -250,6 +252,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
-- 
2.43.0


From 3a8fd2bfcce854004937e97b5e03dbfed3d109ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 27/51] fix: kd_tree::search visited points outside the range

---
 geometrix/algorithm/kd_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..93d181e 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -67,7 +67,10 @@ namespace geometrix {
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
             if( m_pLeaf )
-                visitor( *m_pLeaf );
+            {
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
+            }
             else
                 search<0>( range, visitor, compare );
         }
@@ -163,7 +166,8 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From 1a14d40ae6e048a8f6ebd89ced01e3dfa3c8e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 28/51] fix: solid_leaf_bsp_tree took points on the line of
 separate collinear edges for boundary points

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..c33aad5 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -423,7 +423,8 @@ namespace geometrix {
             //! to the front list, back list, or both, as appropriate
             if (selected == simplices.end())
             {
-                return create_leaf(std::move(sIndices), Side == traits_type::solid_side);
+                //! All the remaining simplices lie on planes already used by ancestors and have this leaf in front of them.
+                return create_leaf(std::move(sIndices), traits_type::solid_side == node_orientation::front);
             }
 
             auto sIndex = sIndices[std::distance(boost::begin(simplices), selected)];
@@ -459,6 +460,9 @@ namespace geometrix {
 
                     coplanarIndices.push_back(sIndices[i]);
 
+                    //! The plane of a coplanar simplex must not split again as one side would be degenerate.
+                    usedBits.set(i);
+
                     //! Attempt to push according to the normal of the smplex.
                     auto smplxPlane = m_planes[sIndices[i]];
                     auto smplxNormal = plane_access::get_normal_vector(smplxPlane);
-- 
2.43.0


From 8a9740149629c1a118cbf607172d89ec3e8878cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 29/51] fix: solid_leaf_bsp_tree traced the wrong side for a
 ray leaving from the plane of a node

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index c33aad5..396c34c 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -660,7 +660,8 @@ namespace geometrix {
                     auto denom = scalar_projection(d, get_normal_vector(node));
                     //! Compute distance from dividing plane to p.
                     auto dist = get_distance_to_origin(node) - scalar_projection(as_vector(p), get_normal_vector(node));
-                    auto nearIndex = dist > constants::zero<length_t>();
+                    //! From a point on the plane the far side is the one the ray is heading for.
+                    auto nearIndex = dist > constants::zero<length_t>() || (dist == constants::zero<length_t>() && denom > constants::zero<decltype(denom)>());
                     //! If denom is zero, ray runs parallel to plane. In this case,
                     //! just fall through to visit the near side (the one p lies on)
                     if (denom != constants::zero<decltype(denom)>())
-- 
2.43.0


From 73a0b4b95aac1a58bf2b62dcdc43231b4a223f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 30/51] fix: node_bsp_tree_2d::painters_traversal did not
 compile for any visitor

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..f1ad4c5 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -578,7 +578,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::decay<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From c1d5e3b8f3d63cdb64c5fcdbaad1fa54c6a83c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 31/51] fix: node_bsp_tree_2d::locate_point missed a vertex
 touching a splitting line from its negative side

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index f1ad4c5..91f37eb 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,6 +545,9 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
+                //! The point may still be an end of edges which lie only on the other side.
+                if( m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
                 return m_positiveChild->locate_point( point, compare );
             }
             else if( m_negativeChild != 0 )
-- 
2.43.0


From df6a8b75aacb043c4a257f095e2d21338baf239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 32/51] fix: visible_vertices_mesh_search walked around inner
 mesh vertices forever

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..c4698d4 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -123,11 +123,20 @@ namespace geometrix
 			const auto& toIndices = m_mesh.get_triangle_indices( next );
 						
 			std::size_t side = get_triangle_adjacent_side( fromIndices, toIndices );
+			//! All of the start triangle has been seen... don't go around a vertex forever.
+			if( next == m_start )
+				return boost::none;
+
 			auto pointLo = m_mesh.get_triangle_vertices( item.to )[side];
 			auto pointHi = m_mesh.get_triangle_vertices( item.to )[(side + 1) % 3];
 
 			if( exterior_product_area( pointHi - pointLo, m_origin - pointLo ) < constants::zero<decltype(std::declval<coordinate_type>() * std::declval<coordinate_type>())>() )
+			{
+				//! The origin sees the other side of this edge, so sight lines never leave the triangle through it.
+				if( !allAround )
+					return boost::none;
 				std::swap( pointLo, pointHi );
+			}
 
 			if (!allAround && !is_segment_in_range_2d(make_segment(pointLo, pointHi), item.lo, item.hi, m_origin)) 
 				return boost::none;
-- 
2.43.0


From 43606cc3c27a9392b3c18985475cd5e3c8f1badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 33/51] fix: mesh_2d::get_random_position read past the
 triangles when rounding left the weights short of one

---
 geometrix/algorithm/mesh_2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..24cba2c 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -211,7 +211,8 @@ namespace geometrix
             using std::sqrt;
 
             auto it(std::lower_bound(m_integral.begin(), m_integral.end(), rT));
-            std::size_t iTri = std::distance(m_integral.begin(), it);
+            //! The sum of the normalized weights can round to slightly less than one.
+            std::size_t iTri = (std::min<std::size_t>)(std::distance(m_integral.begin(), it), m_triangles.size() - 1);
             GEOMETRIX_ASSERT(iTri < m_triangles.size());
             const auto& points = get_triangle_vertices( iTri );
             double sqrt_r1 = sqrt(r1);
-- 
2.43.0


From 88649da0e5b07ad7fc78c7fa9a408c61b1ae23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 34/51] fix: doubly_connected_edge_list copies and moves
 dropped the component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From bd97768b32e721efd9d587f01922b0dccf4033a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 35/51] fix: assigning an expression to one of its operands
 read coordinates already overwritten

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 66f56ce..cacd250 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -137,9 +137,12 @@ public:
     {
         //! Helper macro to build access traits code.
         #define GEOMETRIX_ASSIGN_ACCESS_EXPR_( z, i, e ) \
-            (*this)[i] = geometrix::get<i>( e );         \
+            result[i] = geometrix::get<i>( e );          \
         /***/
+        //! The expression can refer to this sequence, so none of it is changed before all of it is evaluated.
+        numeric_array result;
         BOOST_PP_REPEAT( DIMENSION, GEOMETRIX_ASSIGN_ACCESS_EXPR_, e )
+        m_sequence = result;
         return *this;
         #undef GEOMETRIX_ASSIGN_ACCESS_EXPR
     }
@@ -150,8 +153,10 @@ protected:
     template <typename Expr>
     numeric_sequence& operator+= ( const Expr& p )
     {
+        numeric_array result = m_sequence;
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( result, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        m_sequence = result;
         return *this;
     }
 
@@ -160,8 +165,10 @@ protected:
     template <typename Expr>
     numeric_sequence& operator-= ( const Expr& p )
     {
+        numeric_array result = m_sequence;
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( result, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        m_sequence = result;
         return *this;
     }
     // numeric_sequence operator-(numeric_sequence, const numeric_sequence&) automatically
-- 
2.43.0


From 2bd32152e36898601b49af27b756168531699686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 36/51] fix: polygon_with_holes emptied the polygons passed to
 set_outer and add_hole

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From 58d771e7228ad333b0e5886f89a020a689bcc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 37/51] fix: triangle did not compile for any point type

---
 geometrix/primitive/triangle.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/primitive/triangle.hpp b/geometrix/primitive/triangle.hpp
index 18b32eb..0434634 100644
--- a/geometrix/primitive/triangle.hpp
+++ b/geometrix/primitive/triangle.hpp
@@ -30,16 +30,16 @@ public:
         : std::array<Point, 3>(a)
     {}
 
-    template <typename Point1, typename Point2, typename Point3, typename Point4>
-    triangle(const Point1& p1, const Point2& p2, const Point3& p3, const Point4& p4)
-        : triangle(array_type{ {construct<Point>(p1), construct<Point>(p2), construct<Point>(p3), construct<Point>(p4)} })
+    template <typename Point1, typename Point2, typename Point3>
+    triangle(const Point1& p1, const Point2& p2, const Point3& p3)
+        : triangle(array_type{ {construct<Point>(p1), construct<Point>(p2), construct<Point>(p3)} })
     {}
 
     typedef Point                                                  point_type;
     typedef typename dimension_of< point_type >::type              dimension_type;
     typedef typename geometric_traits<point_type>::arithmetic_type arithmetic_type;
 
-    static_assert(sizeof(triangle<Point>) == 3 * sizeof(Point), "Triangle should be the size of 3 points.");
+    static_assert(sizeof(array_type) == 3 * sizeof(Point), "Triangle should be the size of 3 points.");
 };
 
 template <typename Point>
-- 
2.43.0


From 495caab346bcbe828164189dc0206817b91ce317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 38/51] fix: fixed_point scaled down to floating point keeps
 the fraction; binary scales divide by a power of two

---
 geometrix/numeric/fixed_point_traits.hpp | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..d85687c 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -21,6 +21,8 @@
 #include <boost/numeric/conversion/cast.hpp>
 #include <boost/mpl/int.hpp>
 #include <boost/mpl/greater.hpp>
+#include <boost/mpl/if.hpp>
+#include <boost/type_traits/is_float.hpp>
 #include <boost/utility/enable_if.hpp>
 #include <cstdint>
 #include <limits>
@@ -33,6 +35,15 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! The type in which to divide by the scale: the requested type when it is floating point, else the (widened) format.
+        template <typename T, typename B>
+        struct scale_down_type
+            : boost::mpl::if_< boost::is_float<T>, T, typename widen<B>::type >
+        {};
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +63,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +77,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +103,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +117,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +153,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +179,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +216,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +243,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return boost::numeric_cast<T>( static_cast< typename detail::scale_down_type<T, B>::type >( v ) / integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From 64d9ee025a6da38da6ae9918bbe244f233af2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 39/51] fix: fixed_point scales whole numbers up in the wider
 type

---
 geometrix/numeric/fixed_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 02dafe6..d83b0d1 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -59,14 +59,14 @@ namespace geometrix {
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::false_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up< typename geometrix::widen<T>::type >( value ) ) );
         }
 
         //! Compile time.
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::true_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up< typename geometrix::widen<T>::type >( value ) ) );
         }
 
         //! Conversion from another fixed_point type with possibly different traits.
-- 
2.43.0


From c5d30ddd506ee49dbb3d64e695ce24dbe6230e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 40/51] fix: copysign of fixed_point narrowed inside braces

---
 geometrix/numeric/fixed_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index d83b0d1..c01fe33 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -343,7 +343,7 @@ namespace geometrix {
         friend fixed_point copysign(const fixed_point& v, const fixed_point& u)
         {
             using std::copysign;
-            return fixed_point{from_format_tag(), copysign(v.m_value, u.m_value), v};
+            return fixed_point{from_format_tag(), static_cast<format_type>(copysign(v.m_value, u.m_value)), v};
         }
 
     private:
-- 
2.43.0


From 52fd2b0ee84eda34f76d5f994a80b25e7a567945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 41/51] fix: product of a matrix and a scalar read the scalar
 as a matrix

---
 geometrix/algebra/functions/multiplication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/multiplication.hpp b/geometrix/algebra/functions/multiplication.hpp
index 6844684..816c698 100644
--- a/geometrix/algebra/functions/multiplication.hpp
+++ b/geometrix/algebra/functions/multiplication.hpp
@@ -193,7 +193,7 @@ namespace geometrix {
 
             result_type operator()(tag_t, const Left& l, const Right& r ) const
             {
-                return do_multiplies(get<Row, Column>( r ), get( l ));
+                return do_multiplies(get<Row, Column>( l ), get( r ));
             }
         };
     };
-- 
2.43.0


From dd15ab2ccc9a53aa7e4066994e24e6ac9454fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 42/51] fix: a matrix times a vector has one element per row of
 the matrix

---
 geometrix/algebra/functions/dot_product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/dot_product.hpp b/geometrix/algebra/functions/dot_product.hpp
index cf7bdc3..847f3f2 100644
--- a/geometrix/algebra/functions/dot_product.hpp
+++ b/geometrix/algebra/functions/dot_product.hpp
@@ -74,7 +74,7 @@ namespace geometrix {
 		using left_type = typename std::decay<Left>::type;
         typedef void                                     rank_1;
         typedef void                                     is_vector;
-        typedef typename dimension_of<Right>::type       dimension_type;
+        typedef typename row_dimension_of<Left>::type    dimension_type;
         typedef typename reference_frame_of<Right>::type reference_frame;//! Todo: This isn't properly calculated under transforms.
         typedef void                                     is_sequence;
         typedef void                                     is_numeric_sequence;
-- 
2.43.0


From c6dfafe61c3657be4c7f750ff84da1a19b7de604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 43/51] fix: the run-time lup_solve lacks its size parameter

---
 geometrix/algebra/lup_decomposition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/lup_decomposition.hpp b/geometrix/algebra/lup_decomposition.hpp
index a133451..0d4d3cb 100644
--- a/geometrix/algebra/lup_decomposition.hpp
+++ b/geometrix/algebra/lup_decomposition.hpp
@@ -59,7 +59,7 @@ namespace geometrix {
         }
     }
 
-    template <typename T>
+    template <typename T, std::size_t N>
     boost::array<T, N> lup_solve( matrix<T, N, N>& lu, const boost::array<std::size_t,N>& pi, const boost::array<T,N>& b )
     {
         boost::array<T, N> x, y;
-- 
2.43.0


From 84a8ae6dc4fd0463d401f6d7a07fd3e163843f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 44/51] fix: eberly_segment_segment_distance_sqrd looked for
 the nearest points on the wrong edges

Compare s and t with the squared area, minimise over the edge each region
faces, and take the parallel end with t == 1 from the right formula.
---
 .../eberly_segment_segment_distance.hpp       | 94 +++++++++----------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..e7bd33e 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -54,7 +54,8 @@ namespace geometrix {
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
         auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
+        auto area = exterior_product_area(v1, v2);
+        auto det = area * area;
         auto s = b*e - c*d;
         auto t = b*d - a*e;
 
@@ -97,11 +98,10 @@ namespace geometrix {
                 else
                 {
                     s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
+                    if (-d <= b)
                         t = 1;
                     else
-                        t = -tmp / b;
+                        t = -d / b;
                 }
             }
         }
@@ -123,27 +123,26 @@ namespace geometrix {
                         else
                         {
                             //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
+                            t = 1.0;
+                            auto tmp= b + d;
                             if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
+                                s = 0;
+                            else if (-tmp > a)
+                                s = 1;
                             else
-                                t = -tmp / c;
+                                s = -tmp / a;
                         }
                     }
                     else
                     {
                         //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
+                        t = 0;
+                        if (d > 0)
+                            s = 0;
+                        else if (-d > a)
+                            s = 1;
                         else
-                            t = -tmp / c;
+                            s = -d / a;
                     }
                 }
                 else
@@ -193,25 +192,24 @@ namespace geometrix {
                     else
                     {
                         //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
+                        if (-d < a)
                         {
-                            t = 1;
-                            if (tmp > 0)
+                            t = 0;
+                            if (d > 0)
                                 s = 0;
                             else
-                                s = -tmp / a;
+                                s = -d / a;
                         }
                         else
                         {
                             s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
+                            auto tmp= b + e;
+                            if (-tmp < c)
                             {
-                                if (tmp2 > 0)
+                                if (tmp > 0)
                                     t = 0;
                                 else
-                                    t = -tmp2 / c;
+                                    t = -tmp / c;
                             }
                             else
                                 t = 1;
@@ -226,37 +224,35 @@ namespace geometrix {
                     if (t <= det)
                     {
                         //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
+                        s = 0;
+                        if (e > 0)
                             t = 0;
-                        else if (-tmp > c)
+                        else if (-e > c)
                             t = 1;
                         else
-                            t = -tmp / c;
+                            t = -e / c;
                     }
                     else
                     {
                         //Region 4
                         auto tmp= b + d;
-                        if (-tmp < a)
+                        if (tmp < 0)
                         {
                             t = 1;
-                            if (tmp > 0)
-                                s = 0;
+                            if (-tmp > a)
+                                s = 1;
                             else
                                 s = -tmp / a;
                         }
                         else
                         {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
+                            s = 0;
+                            if (-e < c)
                             {
-                                if (tmp2 > 0)
+                                if (e > 0)
                                     t = 0;
                                 else
-                                    t = -tmp2 / c;
+                                    t = -e / c;
                             }
                             else
                                 t = 1;
@@ -266,25 +262,23 @@ namespace geometrix {
                 else
                 {
                     //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
+                    if (d < 0)
                     {
-                        t = 1;
-                        if (tmp > 0)
-                            s = 0;
+                        t = 0;
+                        if (-d > a)
+                            s = 1;
                         else
-                            s = -tmp / a;
+                            s = -d / a;
                     }
                     else
                     {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
+                        s = 0;
+                        if (-e < c)
                         {
-                            if (tmp2 > 0)
+                            if (e > 0)
                                 t = 0;
                             else
-                                t = -tmp2 / c;
+                                t = -e / c;
                         }
                         else
                             t = 1;
-- 
2.43.0


From 0d1960873f704e1d7d930445796849ab66bd7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 45/51] fix: visible vertices no longer pass through an edge
 that only touches the side of the visible range

A cone whose next edge ended exactly in line with the origin and a side of
the cone kept its whole range, so vertices hidden behind the border of the
mesh were reported as visible.
---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index c4698d4..e229826 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -161,8 +161,12 @@ namespace geometrix
 				
 				if (!allAround)
 				{
-					vecLo = is_vector_between(item.lo, item.hi, vecLo, false, cmp) ? vecLo : item.lo;
-					vecHi = is_vector_between(item.lo, item.hi, vecHi, false, cmp) ? vecHi : item.hi;
+					vecLo = is_vector_between(item.lo, item.hi, vecLo, true, cmp) ? vecLo : item.lo;
+					vecHi = is_vector_between(item.lo, item.hi, vecHi, true, cmp) ? vecHi : item.hi;
+
+					//! The edge only touches the side of the range, so nothing is seen through it.
+					if (get_orientation(vecLo, vecHi, cmp) != geometrix::oriented_left)
+						return boost::none;
 				}
 
 				if (get_orientation(vecHi, vecLo, cmp) == geometrix::oriented_left)
-- 
2.43.0


From 182780eb655b09f76b8bde00281ea7d111648cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 46/51] fix: coalescing a polygon's adjacent points leaves no
 point near the first at its end

Only the last point was compared with the first, so when it was dropped the
point before it could be left within tolerance of the first.
---
 .../remove_collinear_points.hpp               | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 31363aa..6d7fa5c 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/utility/utilities.hpp>
 #include <set>
+#include <vector>
 
 namespace geometrix {
 
@@ -141,12 +142,13 @@ namespace geometrix {
             const auto& b = poly[i];
             auto distanceSqrd = point_point_distance_sqrd(a, b);
             if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                    newPoly.push_back(b);
-            }
+                newPoly.push_back(b);
         }
 
+        //! The last points are adjacent to the first.
+        while (newPoly.size() > 1 && !cmp.greater_than(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)), constants::zero<decltype(point_point_distance_sqrd(access::back(newPoly), access::front(newPoly)))>()))
+            newPoly.pop_back();
+
         return newPoly;
     }
 
@@ -160,22 +162,21 @@ namespace geometrix {
             return cIndex;
 
         //! TODO: need to generically construct polygons.
-        Polygon newPoly{ poly.front() };
+        std::vector<std::size_t> kept(1, 0);
         for (std::size_t i = 1; i < size; ++i)
         {
-            auto& a = access::back(newPoly);
-            const auto& b = poly[i];
-            auto distanceSqrd = point_point_distance_sqrd(a, b);
+            auto distanceSqrd = point_point_distance_sqrd(poly[kept.back()], poly[i]);
             if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                {
-                    newPoly.push_back(b);
-                    continue;
-                }
-            }
+                kept.push_back(i);
+            else
+                cIndex.insert(i);
+        }
 
-            cIndex.insert(i);
+        //! The last points are adjacent to the first.
+        while (kept.size() > 1 && !cmp.greater_than(point_point_distance_sqrd(poly[kept.back()], poly[0]), constants::zero<decltype(point_point_distance_sqrd(poly[0], poly[0]))>()))
+        {
+            cIndex.insert(kept.back());
+            kept.pop_back();
         }
 
         return cIndex;
-- 
2.43.0


From a52b73363120e4fe43d9d10c56ab620cde550e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 47/51] fix: tangent circles and spheres do not take the root
 of a negative number

---
 .../algorithm/intersection/circle_circle_intersection.hpp    | 5 ++++-
 .../algorithm/intersection/sphere_sphere_intersection.hpp    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..5f9f785 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,10 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+
+        //! Where the circles only touch up to the tolerance or rounding, the square may be negative.
+        auto h = h2 > constants::zero<decltype(h2)>() ? sqrt(h2) : constants::zero<length_t>();
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..08e51e9 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,10 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+
+        //! Where the circles only touch up to the tolerance or rounding, the square may be negative.
+        auto h = h2 > constants::zero<decltype(h2)>() ? sqrt(h2) : constants::zero<length_t>();
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From 26eb90df343a96ca8ca8c8ea4def782abbc24168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 48/51] fix: a ray or segment tangent to a sphere does not take
 the root of a negative number

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp   | 3 ++-
 .../algorithm/intersection/segment_sphere_intersection.hpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..bbba5d6 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -39,7 +39,8 @@ namespace geometrix {
 
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
 		using std::sqrt;
-		t = -b - sqrt(discr);
+		//! Where the sphere is only touched up to the tolerance, the discriminant may be negative.
+		t = discr > 0 ? -b - sqrt(discr) : -b;
 
 		// If t is negative, ray started inside sphere so clamp t to zero 
 		if (cmp.less_than(t, 0))
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..40a9776 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -112,7 +112,8 @@ namespace geometrix {
 
         // segment now found to intersect sphere, compute smallest t value of intersection 
         using std::sqrt;
-        t = -b - sqrt(discr);
+        //! Where the sphere is only touched up to the tolerance, the discriminant may be negative.
+        t = discr > 0 ? -b - sqrt(discr) : -b;
         if (cmp.greater_than(t, length))
             return false;
 
-- 
2.43.0


From ead0dbb8d05b51964f8606a8a1873513413aae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 49/51] fix: line_segment_intersect meets a segment at its end
 within the policy

---
 geometrix/algorithm/line_intersection.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometrix/algorithm/line_intersection.hpp b/geometrix/algorithm/line_intersection.hpp
index 8d2b835..d41bcc4 100644
--- a/geometrix/algorithm/line_intersection.hpp
+++ b/geometrix/algorithm/line_intersection.hpp
@@ -145,6 +145,8 @@ inline intersection_type line_segment_intersect( const PointA& A, const PointB&
 
     if( compare.greater_than(t, constants::zero<dimensionless_t>()) && compare.less_than(t, constants::one<dimensionless_t>()) )
         iType = e_crossing;
+    else if( iType == e_invalid_intersection )
+        iType = e_endpoint;
     
     assign(xPoint, C + t * (D-C));
 
-- 
2.43.0


From b7deac5468e86a623639a4ee64988170913fabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 50/51] fix: collinear 3D segments touch at their ends within
 the policy

---
 .../intersection/segment_segment_intersection.hpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 17068dc..1602671 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -261,21 +261,23 @@ namespace geometrix {
             else
             {
                 //! Parallel
-                if( !boost::fusion::all( v1 ^ (p3-p1), boost::lambda::_1 == constants::zero<length_t>() ) )
+                vector_t u = p3-p1;
+                vector<area_t, 3> normal = v1 ^ u;
+                if( !cmp.equals( get<0>( normal ), constants::zero<area_t>() ) || !cmp.equals( get<1>( normal ), constants::zero<area_t>() ) || !cmp.equals( get<2>( normal ), constants::zero<area_t>() ) )
                     return e_non_crossing;
 
                 //! On the same line.
-                area_t f = dot_product(v1, (p3-p1));
+                area_t f = dot_product(v1, u);
                 area_t vLengthSqr = magnitude_sqrd(v1) ;
                 dimensionless_t s0 = f / vLengthSqr ;
                 dimensionless_t s1 = s0 + b / vLengthSqr ;
                 auto st = boost::minmax( s0, s1 ) ;
 
-                if( one < boost::get<0>(st) || zero > boost::get<1>(st) )
+                if( cmp.less_than( one, boost::get<0>(st) ) || cmp.greater_than( zero, boost::get<1>(st) ) )
                     return e_non_crossing;
-                else if( 1. > boost::get<0>(st) )
+                else if( cmp.greater_than( one, boost::get<0>(st) ) )
                 {
-                    if( 0. < boost::get<1>(st) )
+                    if( cmp.less_than( zero, boost::get<1>(st) ) )
                     {
                         if( 0. < boost::get<0>(st) )
                             iPoint[0] <<= p1 + boost::get<0>(st) * v1;
-- 
2.43.0


From ffcbd41e31cbc1d207ff8574c2316839038a5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 51/51] fix: visible vertices are found from an origin on an
 edge up to rounding

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index e229826..0eb27fa 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -130,12 +130,14 @@ namespace geometrix
 			auto pointLo = m_mesh.get_triangle_vertices( item.to )[side];
 			auto pointHi = m_mesh.get_triangle_vertices( item.to )[(side + 1) % 3];
 
-			if( exterior_product_area( pointHi - pointLo, m_origin - pointLo ) < constants::zero<decltype(std::declval<coordinate_type>() * std::declval<coordinate_type>())>() )
+			if( exterior_product_area( pointLo - m_origin, pointHi - m_origin ) < constants::zero<decltype(std::declval<coordinate_type>() * std::declval<coordinate_type>())>() )
 			{
 				//! The origin sees the other side of this edge, so sight lines never leave the triangle through it.
 				if( !allAround )
 					return boost::none;
-				std::swap( pointLo, pointHi );
+
+				//! The start triangle holds the origin only up to rounding, so anything past the edge may be seen.
+				return edge_item( item.to, next, vector_t( pointLo - pointHi ), vector_t( pointHi - pointLo ) );
 			}
 
 			if (!allAround && !is_segment_in_range_2d(make_segment(pointLo, pointHi), item.lo, item.hi, m_origin)) 
-- 
2.43.0

