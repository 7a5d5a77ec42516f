From bb4ba8be36625f8775a7ca3446a7e6a5f2c80c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 01/73] fix: kd_tree search visits only the points inside the
 range

---
 geometrix/algorithm/kd_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..93d181e 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -67,7 +67,10 @@ namespace geometrix {
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
             if( m_pLeaf )
-                visitor( *m_pLeaf );
+            {
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
+            }
             else
                 search<0>( range, visitor, compare );
         }
@@ -163,7 +166,8 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From cba13503114a9c73d2c2aa3685b691ad9e8f214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 02/73] fix: solid leaf BSP does not split twice by the plane
 of coplanar simplices

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..e9898f9 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -432,14 +432,14 @@ namespace geometrix {
             boost::dynamic_bitset<> frontBits, backBits;
             index_vector frontIndices, backIndices, coplanarIndices;
             std::size_t i = 0;
-            auto add_to_front = [&i, &frontList, &frontBits, &usedBits, &frontIndices, &sIndices](const item_t& item) -> void {
+            auto add_to_front = [&i, &frontList, &frontBits, &frontIndices, &sIndices](const item_t& item, bool isUsed) -> void {
                 frontList.push_back(item);
-                frontBits.push_back(usedBits[i]);
+                frontBits.push_back(isUsed);
                 frontIndices.push_back(sIndices[i]);
             };
-            auto add_to_back = [&i, &backList, &backBits, &usedBits, &backIndices, &sIndices](const item_t& item) -> void {
+            auto add_to_back = [&i, &backList, &backBits, &backIndices, &sIndices](const item_t& item, bool isUsed) -> void {
                 backList.push_back(item);
-                backBits.push_back(usedBits[i]);
+                backBits.push_back(isUsed);
                 backIndices.push_back(sIndices[i]);
             };
             for (const auto& item : simplices)
@@ -465,18 +465,19 @@ namespace geometrix {
                     auto planeNormal = plane_access::get_normal_vector(splitPlane);
                     auto dp = dot_product(smplxNormal, planeNormal);
                     GEOMETRIX_ASSERT(cmp.equals(dp, constants::one<decltype(dp)>()) || cmp.equals(dp, -constants::one<decltype(dp)>()));
+                    //! The plane of a coplanar simplex is the one being split here: splitting by it again in a
+                    //! child would create a leaf with no interior, so it is marked as used.
                     if (dp < constants::zero<decltype(dp)>())
-                    {
-                        add_to_back(item);
-                        break;
-                    }
-                    BOOST_FALLTHROUGH;
+                        add_to_back(item, true);
+                    else
+                        add_to_front(item, true);
+                    break;
                 }
                 case plane_orientation::in_front_of_plane:
-                    add_to_front(item);
+                    add_to_front(item, usedBits[i]);
                     break;
                 case plane_orientation::in_back_of_plane:
-                    add_to_back(item);
+                    add_to_back(item, usedBits[i]);
                     break;
                 case plane_orientation::straddling_plane:
                 {
@@ -484,8 +485,8 @@ namespace geometrix {
                     simplex_type frontPart;
                     simplex_type backPart;
                     bsp_detail::split_simplex(smplx, splitPlane, frontPart, backPart, cmp);
-                    add_to_front(extract.make_split(frontPart, item));
-                    add_to_back(extract.make_split(backPart, item));
+                    add_to_front(extract.make_split(frontPart, item), usedBits[i]);
+                    add_to_back(extract.make_split(backPart, item), usedBits[i]);
                     break;
                 }
                 };
-- 
2.43.0


From 07bda13f117810365f5648eba217306cf4317683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/73] fix: solid leaf BSP ray starting on a splitting plane
 visits only the side it heads into

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index e9898f9..4a98074 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -663,7 +663,9 @@ namespace geometrix {
                     if (denom != constants::zero<decltype(denom)>())
                     {
                         auto t = dist / denom;
-                        if (constants::zero<length_t>() <= t && t <= tmax)
+                        if (dist == constants::zero<length_t>())
+                            nearIndex = denom < constants::zero<decltype(denom)>();//! p is on the plane, visit only the side the ray heads into.
+                        else if (constants::zero<length_t>() <= t && t <= tmax)
                         {
                             if (t >= tmin)
                             {
-- 
2.43.0


From ceb15cbc45499c24d6c0530fc509f2c55e740a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 04/73] fix: solid leaf BSP border ray from inside the solid
 returns where it leaves the solid

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index 4a98074..0815d72 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -650,6 +650,7 @@ namespace geometrix {
             auto node = m_root;
             std::set<index_type> maxIndices, minIndices;
             //std::vector<simplex_type> maxS, minS;
+            bool fromSolid = false;
             while (1)
             {
                 if (!is_leaf(node))
@@ -690,14 +691,19 @@ namespace geometrix {
                     if (is_solid(node))
                     {
                         //! Look at geometry in sIndices and find the closest hit.
-						if (!minIndices.empty() || !onlyBorder)
+						if (!onlyBorder || (!minIndices.empty() && !fromSolid))
 						{
 							auto sIndex = find_closest_hit(p, d, minIndices, cmp);
 							return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
 						}
 
-						auto sIndex = find_closest_hit(p, d, maxIndices, cmp);
-						return solid_bsp_ray_tracing_result<length_t>(true, tmax, sIndex);
+						//! The ray starts inside of the solid, carry on until it leaves.
+						fromSolid = true;
+                    }
+                    else if (fromSolid)
+                    {
+						auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+						return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
                     }
 
                     //! Exit if no more subtrees to visit, else pop off a node and continue
-- 
2.43.0


From 57ee748b28555d8fc4bbd5f955f8914560bff06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 05/73] fix: node BSP painters_traversal accepts visitors
 passed by reference

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..30b0173 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -578,7 +578,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::remove_reference<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From 3ddc7e425a8ecb32bb24b72e19e85bb88310dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 06/73] fix: node BSP locates a boundary point that only
 touches the negative side of a splitting line

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 30b0173..1002352 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,7 +545,13 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
-                return m_positiveChild->locate_point( point, compare );
+                point_location_classification location = m_positiveChild->locate_point( point, compare );
+
+                //! The point may still touch an edge on the negative side of the splitting line.
+                if( location != e_boundary && m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
+
+                return location;
             }
             else if( m_negativeChild != 0 )
             {
-- 
2.43.0


From cb039230f581f576419ad069d813c55bb3bdcd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 07/73] fix: bresenham_segment_traversal compiles

---
 geometrix/algorithm/bresenham_grid_traversal.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/bresenham_grid_traversal.hpp b/geometrix/algorithm/bresenham_grid_traversal.hpp
index 3c8366a..4185517 100644
--- a/geometrix/algorithm/bresenham_grid_traversal.hpp
+++ b/geometrix/algorithm/bresenham_grid_traversal.hpp
@@ -12,6 +12,7 @@
 
 #include <geometrix/primitive/segment_traits.hpp>
 #include <geometrix/arithmetic/arithmetic.hpp>
+#include <cstdlib>
 
 namespace geometrix
 {
@@ -38,7 +39,7 @@ namespace geometrix
         }
         else if (dy == 0) // have a horizontal line
         {
-            xsign = dx / math::abs(dx);
+            xsign = dx / std::abs(dx);
 
             visitor(bx, by);
             while (bx != x2)
@@ -49,7 +50,7 @@ namespace geometrix
         }
         else if (dx == 0) // have vertical line
         {
-            ysign = dy / math::abs(dy);
+            ysign = dy / std::abs(dy);
             visitor(bx, by);
             while (by != y2)
             {
@@ -59,10 +60,10 @@ namespace geometrix
         }
         else // use Bresenham algorithm
         {
-            xsign = dx / math::abs(dx);
-            ysign = dy / math::abs(dy);
-            dx = math::abs(dx);
-            dy = math::abs(dy);
+            xsign = dx / std::abs(dx);
+            ysign = dy / std::abs(dy);
+            dx = std::abs(dx);
+            dy = std::abs(dy);
             // set initial point on line
             visitor(bx, by);
 
-- 
2.43.0


From 2a689a23711503e1e8447a037d2fb71fc3070bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 08/73] fix: orientation_segment_traversal follows descending
 segments within one column

---
 geometrix/algorithm/orientation_grid_traversal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..fb65cd4 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -84,7 +84,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
-- 
2.43.0


From 38beeaf80c5ce9b89bc7c0bf967759a632d15708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 09/73] fix: flood fill skips every hole of a column, also
 behind a shorter or lower one

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..5cc2ebc 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,7 +212,9 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
 							++bit;
@@ -250,7 +252,9 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
-						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
+						if (bit != holeBounds.end() && k >= bit->first)
 						{
 							k = bit->second + 1;
 							++bit;
-- 
2.43.0


From 6557c39e8bd0877bea1a622c382f880eb01b637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 10/73] fix: visible_vertices_mesh_search ends, and keeps its
 cone of sight within bounds touched by the next edge

---
 .../algorithm/visible_vertices_mesh_search.hpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..4be245f 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -116,6 +116,10 @@ namespace geometrix
 		//! Generate a new item to visit based on the adjacent triangle at index next.
 		boost::optional<edge_item> prepare_adjacent_traversal( std::size_t next, const edge_item& item )
 		{
+			//! The start triangle holds the origin; no line of sight returns to it.
+			if( next == m_start )
+				return boost::none;
+
 			comparison_policy cmp( 0 );
 			bool allAround = get<0>( item.lo ) == constants::infinity<coordinate_type>() && get<0>( item.hi ) == constants::negative_infinity<coordinate_type>();
 
@@ -127,7 +131,12 @@ namespace geometrix
 			auto pointHi = m_mesh.get_triangle_vertices( item.to )[(side + 1) % 3];
 
 			if( exterior_product_area( pointHi - pointLo, m_origin - pointLo ) < constants::zero<decltype(std::declval<coordinate_type>() * std::declval<coordinate_type>())>() )
+			{
+				//! No line of sight leaves the triangle through an edge which faces the origin.
+				if( !allAround )
+					return boost::none;
 				std::swap( pointLo, pointHi );
+			}
 
 			if (!allAround && !is_segment_in_range_2d(make_segment(pointLo, pointHi), item.lo, item.hi, m_origin)) 
 				return boost::none;
@@ -152,8 +161,8 @@ namespace geometrix
 				
 				if (!allAround)
 				{
-					vecLo = is_vector_between(item.lo, item.hi, vecLo, false, cmp) ? vecLo : item.lo;
-					vecHi = is_vector_between(item.lo, item.hi, vecHi, false, cmp) ? vecHi : item.hi;
+					vecLo = is_vector_between(item.lo, item.hi, vecLo, true, cmp) ? vecLo : item.lo;
+					vecHi = is_vector_between(item.lo, item.hi, vecHi, true, cmp) ? vecHi : item.hi;
 				}
 
 				if (get_orientation(vecHi, vecLo, cmp) == geometrix::oriented_left)
-- 
2.43.0


From 485b3715c33b4c02066a2b8381c68e2bf1c9a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 11/73] fix: triangle_grid_cache lookups do not add cells to a
 sparse grid

---
 geometrix/algorithm/grid_2d.hpp | 6 ++++++
 geometrix/algorithm/mesh_2d.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/grid_2d.hpp b/geometrix/algorithm/grid_2d.hpp
index be0a7ac..768b6e4 100644
--- a/geometrix/algorithm/grid_2d.hpp
+++ b/geometrix/algorithm/grid_2d.hpp
@@ -34,6 +34,12 @@ namespace geometrix
             , m_grid(boost::extents[traits.get_width()][traits.get_height()])
         {}
         
+        template <typename Point>
+        data_type const* find_cell(const Point& point) const
+        {
+            return &get_cell(point);
+        }
+
         template <typename Point>
         data_type const& get_cell(const Point& point) const
         {
diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..95aae0b 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -95,9 +95,13 @@ namespace geometrix
         template <typename Point>
         data_t find_indices(const Point& p) const
         {
-            auto& grid = *m_grid;
+            //! A lookup must not add cells: the cache is shared by concurrent readers.
+            auto const& grid = *m_grid;
             if (grid.is_contained(p))
-                return grid.get_cell(p);
+            {
+                if (auto const* cell = grid.find_cell(p))
+                    return *cell;
+            }
 
             return data_t();
         }
-- 
2.43.0


From 3942b9dec998de668121acb763e27983c4ae4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 12/73] fix: mesh_2d random position selection stays in range
 when the normalized areas sum to less than one

---
 geometrix/algorithm/mesh_2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index 95aae0b..fb626b9 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -216,6 +216,9 @@ namespace geometrix
 
             auto it(std::lower_bound(m_integral.begin(), m_integral.end(), rT));
             std::size_t iTri = std::distance(m_integral.begin(), it);
+            //! The normalized weights can sum to slightly less than one.
+            if (iTri == m_triangles.size())
+                --iTri;
             GEOMETRIX_ASSERT(iTri < m_triangles.size());
             const auto& points = get_triangle_vertices( iTri );
             double sqrt_r1 = sqrt(r1);
-- 
2.43.0


From 9ee6b358b48eed7c4ec261ea499e7b8ebe8d08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 13/73] fix: doubly_connected_edge_list copies and moves carry
 the component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From e97b7d75a5e256bec887ad303011fad623888c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 14/73] fix: scope_timer measures with a clock that is never
 set back

---
 geometrix/utility/scope_timer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/utility/scope_timer.hpp b/geometrix/utility/scope_timer.hpp
index f1c444e..3677ebd 100644
--- a/geometrix/utility/scope_timer.hpp
+++ b/geometrix/utility/scope_timer.hpp
@@ -112,13 +112,13 @@ namespace geometrix {
 		scope_timer(const std::string& functionName)
 			: m_function(functionName)
             , t2{}
-			, t1(std::chrono::high_resolution_clock::now())
+			, t1(std::chrono::steady_clock::now())
 		{}
 
 		~scope_timer()
 		{
 			using namespace scope_timer_detail;
-			t2 = std::chrono::high_resolution_clock::now();
+			t2 = std::chrono::steady_clock::now();
 			std::uint64_t seconds = std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count();
 			call_map& callMap = call_map::instance();
 			callMap[m_function].push(seconds);
@@ -127,8 +127,8 @@ namespace geometrix {
 	private:
 
 		std::string m_function;
-		std::chrono::time_point<std::chrono::high_resolution_clock> t2;
-		std::chrono::time_point<std::chrono::high_resolution_clock> t1;
+		std::chrono::time_point<std::chrono::steady_clock> t2;
+		std::chrono::time_point<std::chrono::steady_clock> t1;
 
 	};
 }//! namespace geometrix;
-- 
2.43.0


From bb0a5eacdeae84544dad13b639b654aca032f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 15/73] fix: scope_timer may be used from several threads

---
 geometrix/utility/scope_timer.hpp | 6 ++++++
 geometrix/utility/scope_timer.ipp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/geometrix/utility/scope_timer.hpp b/geometrix/utility/scope_timer.hpp
index 3677ebd..7284af9 100644
--- a/geometrix/utility/scope_timer.hpp
+++ b/geometrix/utility/scope_timer.hpp
@@ -15,6 +15,8 @@
 #include <chrono>
 #include <cstdint>
 #include <cmath>
+#include <mutex>
+#include <string>
 
 #if !defined(GEOMETRIX_DISABLE_SCOPE_TIMERS)
 #define GEOMETRIX_SCOPE_TIMERS_ENABLED 1
@@ -97,6 +99,9 @@ namespace geometrix {
 			typedef boost::container::flat_map<std::string, call_data> map_type;
 
 			static call_map& instance();
+
+			//! Guards the instance; timers end on any thread.
+			static std::mutex& mutex();
 			void write() const;
 
 			call_map() {}
@@ -121,6 +126,7 @@ namespace geometrix {
 			t2 = std::chrono::steady_clock::now();
 			std::uint64_t seconds = std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count();
 			call_map& callMap = call_map::instance();
+			std::lock_guard<std::mutex> lock(call_map::mutex());
 			callMap[m_function].push(seconds);
 		}
 
diff --git a/geometrix/utility/scope_timer.ipp b/geometrix/utility/scope_timer.ipp
index 8653c03..6b04d8f 100644
--- a/geometrix/utility/scope_timer.ipp
+++ b/geometrix/utility/scope_timer.ipp
@@ -20,6 +20,12 @@ namespace geometrix {
 			return theMap;
 		}
 
+		inline std::mutex& call_map::mutex()
+		{
+			static std::mutex theMutex;
+			return theMutex;
+		}
+
 		inline call_map::~call_map()
 		{
 			write();
@@ -27,6 +33,7 @@ namespace geometrix {
 		
 		inline void call_map::write() const
 		{
+			std::lock_guard<std::mutex> lock(mutex());
 			if (!empty())
 			{
 			    auto timestamp = std::chrono::system_clock::now().time_since_epoch().count();
-- 
2.43.0


From 20d0723eef2d03fa4c561d67c013d1b6064242a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 16/73] fix: scope_timer survives memory exhaustion in its
 destructors

---
 geometrix/utility/scope_timer.hpp | 12 +++++++++---
 geometrix/utility/scope_timer.ipp |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/geometrix/utility/scope_timer.hpp b/geometrix/utility/scope_timer.hpp
index 7284af9..69545ef 100644
--- a/geometrix/utility/scope_timer.hpp
+++ b/geometrix/utility/scope_timer.hpp
@@ -125,9 +125,15 @@ namespace geometrix {
 			using namespace scope_timer_detail;
 			t2 = std::chrono::steady_clock::now();
 			std::uint64_t seconds = std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count();
-			call_map& callMap = call_map::instance();
-			std::lock_guard<std::mutex> lock(call_map::mutex());
-			callMap[m_function].push(seconds);
+			//! A sample which cannot be stored is dropped; it must not end the program.
+			try
+			{
+				call_map& callMap = call_map::instance();
+				std::lock_guard<std::mutex> lock(call_map::mutex());
+				callMap[m_function].push(seconds);
+			}
+			catch (...)
+			{}
 		}
 
 	private:
diff --git a/geometrix/utility/scope_timer.ipp b/geometrix/utility/scope_timer.ipp
index 6b04d8f..7a470b7 100644
--- a/geometrix/utility/scope_timer.ipp
+++ b/geometrix/utility/scope_timer.ipp
@@ -28,7 +28,12 @@ namespace geometrix {
 
 		inline call_map::~call_map()
 		{
-			write();
+			try
+			{
+				write();
+			}
+			catch (...)
+			{}
 		}
 		
 		inline void call_map::write() const
-- 
2.43.0


From 7f6a537151592444fa33e60953d6e8f14a4cd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 17/73] fix: running_stat starts and restarts with a sum of
 zero

---
 geometrix/utility/scope_timer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometrix/utility/scope_timer.hpp b/geometrix/utility/scope_timer.hpp
index 69545ef..189ae4f 100644
--- a/geometrix/utility/scope_timer.hpp
+++ b/geometrix/utility/scope_timer.hpp
@@ -32,11 +32,13 @@ namespace geometrix {
         public:
             running_stat()
                 : m_n{}
+                , m_sum{}
             {}
 
             void clear()
             {
                 m_n = 0;
+                m_sum = T{};
             }
 
             BOOST_FORCEINLINE void push(T x)
-- 
2.43.0


From a271e1271f1db0850f1bdb1ee5af10af0bf34e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 18/73] fix: scope timer files escape quotes in function names

---
 geometrix/utility/scope_timer.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/utility/scope_timer.ipp b/geometrix/utility/scope_timer.ipp
index 7a470b7..74f9775 100644
--- a/geometrix/utility/scope_timer.ipp
+++ b/geometrix/utility/scope_timer.ipp
@@ -8,6 +8,7 @@
 //
 #pragma once
 #include "scope_timer.hpp"
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/format.hpp>
 #include <fstream>
 
@@ -54,7 +55,7 @@ namespace geometrix {
 					auto totalTime = stat.sum() * conv;
 					double avgTime = stat.mean() * conv;
                     double stdDev = stat.standard_deviation() * conv;
-					ofs << "\"" << item.first << "\"," << counts << "," << totalTime << "," << avgTime << "," << stdDev << std::endl;
+					ofs << "\"" << boost::replace_all_copy(item.first, "\"", "\"\"") << "\"," << counts << "," << totalTime << "," << avgTime << "," << stdDev << std::endl;
 				}
 				ofs.flush();
 				ofs.close();
-- 
2.43.0


From c9f6c5a979c1e57d5a97fe030f0293e6d3522633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 19/73] fix: fixed_point converts to floating point without
 dropping the fraction

---
 geometrix/numeric/fixed_point_traits.hpp | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..5936280 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -33,6 +33,16 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! The value to divide when scaling down to T: a division that yields a fraction must not be done in integers.
+        template <typename T, typename B>
+        BOOST_CONSTEXPR typename std::common_type<T, typename widen<B>::type>::type scale_dividend( B v )
+        {
+            return static_cast<typename std::common_type<T, typename widen<B>::type>::type>( widen_cast( v ) );
+        }
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +62,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +76,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +102,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +116,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +152,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +178,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +215,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +242,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return boost::numeric_cast<T>( detail::scale_dividend<T>( v ) / integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From e9edbe2de6e49d6caa3c0c46227e5fce06ab044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 20/73] fix: writing a fixed_point keeps the stream's precision
 and every digit

---
 geometrix/numeric/fixed_point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 02dafe6..4f4a7fe 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -24,6 +24,7 @@
 #include <boost/mpl/int.hpp>
 #include <boost/mpl/greater.hpp>
 #include <boost/utility/enable_if.hpp>
+#include <boost/io/ios_state.hpp>
 #include <cstdint>
 #include <limits>
 #include <cmath>
@@ -366,7 +367,9 @@ namespace geometrix {
     std::ostream& operator << ( std::ostream& os, const fixed_point<Traits>& v )
     {
         double value = v.template convert_to<double>();
-        os << std::setprecision( std::numeric_limits< fixed_point<Traits> >::digits10 ) << value;
+        //! Enough digits to tell every value from its neighbours, without changing the precision of the caller's stream.
+        boost::io::ios_precision_saver precision( os, std::numeric_limits< fixed_point<Traits> >::digits * 301 / 1000 + 2 );
+        os << value;
         return os;
     }
 
-- 
2.43.0


From a363702f9ebfef93f2b886be8c2811298f70d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 21/73] fix: private_allocator refuses requests whose size does
 not fit into memory

---
 geometrix/utility/private_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/utility/private_allocator.hpp b/geometrix/utility/private_allocator.hpp
index c6da860..2e3d8e8 100644
--- a/geometrix/utility/private_allocator.hpp
+++ b/geometrix/utility/private_allocator.hpp
@@ -10,6 +10,7 @@
 #define GEOMETRIX_UTILITY_PRIVATE_ALLOCATOR_HPP
 
 #include <cstddef>
+#include <new>
 #include <boost/limits.hpp>
 
 namespace geometrix {
@@ -59,6 +60,8 @@ namespace geometrix {
 
             pointer allocate(size_type num, const void* = 0)
             {
+                if(num > max_size())
+                    throw std::bad_alloc();
                 return (pointer)(::operator new(num * sizeof(T)));
             }
 
-- 
2.43.0


From b5d42b504cd8c345daf766c3cd631491a00abcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 22/73] fix: memoize inserts a recursive function's value
 without a stale position

---
 geometrix/utility/memoize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/memoize.hpp b/geometrix/utility/memoize.hpp
index 7c5d87b..bc8d38d 100644
--- a/geometrix/utility/memoize.hpp
+++ b/geometrix/utility/memoize.hpp
@@ -41,7 +41,7 @@ namespace geometrix
 				if( it != cache.end() && !cache.key_comp()(key, it->first) )
 					return it->second;
 				Return ret = fn( a... );
-				cache.insert( it, std::make_pair( key, ret ) );
+				cache.insert( std::make_pair( key, ret ) );//! fn may have changed the cache: the position found above is stale.
 				return ret;
 			};
 		}
-- 
2.43.0


From 3f2e56d19e402b50af33446a7b4035710eef6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 23/73] fix: random generators stay below their limit, and
 copies have their own engine

---
 geometrix/utility/random_generator.hpp | 38 ++++++++++----------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index 4c92a77..ebc9505 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -19,26 +19,22 @@ namespace geometrix {
 
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
-            , m_range( std::size_t(0), maxIndex )
-            , m_generator( m_randomNumberGenerator, m_range )
+            , m_range( std::size_t(0), maxIndex > 0 ? maxIndex - 1 : 0 )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
-            , m_range( std::size_t(0), maxIndex )
-            , m_generator( m_randomNumberGenerator, m_range )
+            , m_range( std::size_t(0), maxIndex > 0 ? maxIndex - 1 : 0 )
         {}
 
         //! Generate an integer on the interval [0,maxIndex).
-        std::size_t operator()() const { return m_generator(); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        std::size_t operator()() const { return m_range( m_randomNumberGenerator ); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
-        mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
-        boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
+        mutable RandomNumberGenerator            m_randomNumberGenerator;
+        mutable boost::uniform_int<std::size_t>  m_range;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -49,19 +45,16 @@ namespace geometrix {
         random_real_generator( double maxReal = 1.0, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
             , m_range( 0.0, maxReal )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
 
         //! Generate a real (double) on the interval [0.0,maxReal).
-        double operator()() const { return m_generator(); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        double operator()() const { return m_range( m_randomNumberGenerator ); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
-        mutable RandomNumberGenerator                                                    m_randomNumberGenerator;
-        boost::uniform_real<>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_real<> > m_generator;
+        mutable RandomNumberGenerator            m_randomNumberGenerator;
+        mutable boost::uniform_real<>            m_range;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -72,19 +65,16 @@ namespace geometrix {
         random_integer_generator( unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
             , m_range( std::size_t(0), (std::numeric_limits<std::size_t>::max)() )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
 
         //! Generate a number on the interval [0,N)
-        std::size_t operator()( std::size_t N = (std::numeric_limits<std::size_t>::max)() ) const { return (m_generator() % N); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        std::size_t operator()( std::size_t N = (std::numeric_limits<std::size_t>::max)() ) const { return (m_range( m_randomNumberGenerator ) % N); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
-        mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
-        boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
+        mutable RandomNumberGenerator            m_randomNumberGenerator;
+        mutable boost::uniform_int<std::size_t>  m_range;
     };
 
     //! generator to generate an ordered sequence (for synthesizing std::iota.. which isn't on all platforms).
-- 
2.43.0


From 2811aa3c46bee3e595283780cb488327e92ec812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 24/73] fix: bentley_ottmann_sweep takes an event out of the
 queue before handling it

---
 geometrix/algorithm/bentley_ottmann_sweep.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/bentley_ottmann_sweep.hpp b/geometrix/algorithm/bentley_ottmann_sweep.hpp
index bdea989..c491f8e 100644
--- a/geometrix/algorithm/bentley_ottmann_sweep.hpp
+++ b/geometrix/algorithm/bentley_ottmann_sweep.hpp
@@ -13,6 +13,7 @@
 #include <vector>
 #include <set>
 #include <functional>
+#include <utility>
 
 namespace geometrix {
 
@@ -90,9 +91,10 @@ namespace geometrix {
     {
         while ( !events.empty() )
         {
-            auto iter = events.cbegin();
-            eventHandler.handle_event( events, sweepLine, *iter );
-			events.erase( iter );
+            //! Handling the event can add events, which may move the others: take it out of the queue first.
+            typename EventQueue::value_type event( std::move( *events.begin() ) );
+            events.erase( events.cbegin() );
+            eventHandler.handle_event( events, sweepLine, event );
         }    
     }
 
-- 
2.43.0


From 0c31810ee50821e0dffcdfaf8f36fe7024b0ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 25/73] fix: polyline_polyline_intersect stops only when the
 visitor asks for it

---
 .../intersection/polyline_polyline_intersection.hpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..0a603a2 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,10 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			return stop = visitor(iType, i1, j1, i, j, x1, x2);
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From ffff778af89d73596b72c195d375fcbaa1a2a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 26/73] fix: collinear segments that only touch meet at an end
 point

---
 .../intersection/segment_segment_intersection.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..74d36b4 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -63,7 +63,7 @@ namespace geometrix {
                     xPoint[1] = B;
                 }
 
-                return e_overlapping;
+                return numeric_sequence_equals( C, B, cmp ) ? e_endpoint : e_overlapping;
             }
 
             if( CisBetweenAB && AisBetweenCD )
@@ -74,7 +74,7 @@ namespace geometrix {
                     xPoint[1] = A;
                 }
 
-                return e_overlapping;
+                return numeric_sequence_equals( C, A, cmp ) ? e_endpoint : e_overlapping;
             }
 
             if( DisBetweenAB && BisBetweenCD )
@@ -85,7 +85,7 @@ namespace geometrix {
                     xPoint[1] = B;
                 }
 
-                return e_overlapping;
+                return numeric_sequence_equals( D, B, cmp ) ? e_endpoint : e_overlapping;
             }
 
             if( DisBetweenAB && AisBetweenCD )
@@ -96,7 +96,7 @@ namespace geometrix {
                     xPoint[1] = A;
                 }
 
-                return e_overlapping;
+                return numeric_sequence_equals( D, A, cmp ) ? e_endpoint : e_overlapping;
             }
 
             bool originEqualsC = numeric_sequence_equals( A, C, cmp );
-- 
2.43.0


From 2664122ea1d1fa0790515e9634f439bbdfed2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 27/73] fix: segment_polygon_intersection compiles

---
 .../algorithm/intersection/segment_polygon_intersection.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..41702b3 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From 6a60e8b0208fa6d33b7fd15acc93a3a7355626de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 28/73] fix: polygon_with_holes does not empty the caller's
 polygons

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From 5080befc407fad13da3d3349890e96c81d8bc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 29/73] fix: convex_polygon_polygon_intersection visits every
 vertex of a contained polygon, and borders may touch

---
 .../intersection/convex_polygon_polygon_intersection.hpp     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..a59c830 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -154,13 +154,12 @@ namespace geometrix {
             }
         } while((aa < n || ba < m) && aa < n2 && ba < m2);
 
-        if (inflag == unknown) 
+        if (inflag == unknown && nVisited == 0) //! With neither inside of the other a point visited is where they touch.
         {
-            GEOMETRIX_ASSERT(nVisited == 0);
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From c099f7fb173c12ae1c2c4d8a45bac0ede72d5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 30/73] fix: splitting a polyline at or beyond its end keeps
 its last vertex

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..274614b 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+		//! The whole polyline lies before the split.
+		if (j >= size)
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 0c0366c77766eeac8529ed48b6e06773cc9c4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 31/73] fix: removing collinear or equal points of point
 sequences includes the seam and folds, and identifies the points removed

---
 .../remove_collinear_points.hpp               | 171 +++++++++---------
 1 file changed, 90 insertions(+), 81 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..09731ce 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -13,41 +13,94 @@
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/utility/utilities.hpp>
 #include <set>
+#include <vector>
 
 namespace geometrix {
 
-    template <typename Polygon, typename NumberComparisonPolicy>
-    inline std::set<std::size_t> identify_collinear_points_polygon(const Polygon& poly, const NumberComparisonPolicy& cmp)
-    {
-        using access = point_sequence_traits<Polygon>;
+    namespace detail {
+        //! The indices of the points of a polygon which remain when no point may be collinear with its neighbors.
+        template <typename Polygon, typename NumberComparisonPolicy>
+        inline std::vector<std::size_t> non_collinear_points_polygon(const Polygon& poly, const NumberComparisonPolicy& cmp)
+        {
+            using access = point_sequence_traits<Polygon>;
+            std::size_t size = access::size(poly);
+            auto collinear = [&](std::size_t a, std::size_t b, std::size_t c)
+            {
+                return is_collinear(access::get_point(poly, a), access::get_point(poly, b), access::get_point(poly, c), cmp);
+            };
+
+            std::vector<std::size_t> kept;
+            for (std::size_t i = 0; i < size; ++i)
+            {
+                while (kept.size() > 1 && collinear(kept[kept.size() - 2], kept.back(), i))
+                    kept.pop_back();
+                kept.push_back(i);
+            }
 
-        std::set<std::size_t> cPoints;
+            //! Check the points on either side of the seam.
+            while (kept.size() > 3)
+            {
+                if (collinear(kept[kept.size() - 2], kept.back(), kept.front()))
+                    kept.pop_back();
+                else if (collinear(kept.back(), kept.front(), kept[1]))
+                    kept.erase(kept.begin());
+                else
+                    break;
+            }
 
-        std::size_t size = access::size(poly);
-        if (size < 4)
-            return cPoints;
+            return kept;
+        }
 
-        Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
-        for (std::size_t i = 2; i < size; ++i)
+        //! The indices of the points of a polygon which remain when no point may be equal to its neighbors.
+        template <typename Polygon, typename NumberComparisonPolicy>
+        inline std::vector<std::size_t> non_adjacent_points_polygon(const Polygon& poly, const NumberComparisonPolicy& cmp)
         {
-            const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
-            auto& b = access::back(newPoly);
-            const auto& c = poly[i];
-            if (!is_collinear(a, b, c, cmp))
+            using access = point_sequence_traits<Polygon>;
+            std::size_t size = access::size(poly);
+            auto distinct = [&](std::size_t a, std::size_t b)
             {
-                if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                {
-                    newPoly.push_back(c);
-                    continue;
-                }
+                auto distanceSqrd = point_point_distance_sqrd(access::get_point(poly, a), access::get_point(poly, b));
+                return cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>());
+            };
+
+            std::vector<std::size_t> kept;
+            for (std::size_t i = 0; i < size; ++i)
+            {
+                if (kept.empty() || distinct(kept.back(), i))
+                    kept.push_back(i);
             }
-            else
-                assign(b, c);//! replace b with c.      
 
-            cPoints.insert(i);
+            while (kept.size() > 1 && !distinct(kept.back(), kept.front()))
+                kept.pop_back();
+
+            return kept;
+        }
+
+        inline std::set<std::size_t> indices_not_kept(std::size_t size, const std::vector<std::size_t>& kept)
+        {
+            std::set<std::size_t> removed;
+            auto it = kept.begin();
+            for (std::size_t i = 0; i < size; ++i)
+            {
+                if (it != kept.end() && *it == i)
+                    ++it;
+                else
+                    removed.insert(i);
+            }
+            return removed;
         }
+    }//! namespace detail;
+
+    template <typename Polygon, typename NumberComparisonPolicy>
+    inline std::set<std::size_t> identify_collinear_points_polygon(const Polygon& poly, const NumberComparisonPolicy& cmp)
+    {
+        using access = point_sequence_traits<Polygon>;
+
+        std::size_t size = access::size(poly);
+        if (size < 4)
+            return std::set<std::size_t>();
 
-        return cPoints;
+        return detail::indices_not_kept(size, detail::non_collinear_points_polygon(poly, cmp));
     }
 
     template <typename Polygon, typename NumberComparisonPolicy>
@@ -55,25 +108,13 @@ namespace geometrix {
     {
         typedef point_sequence_traits<Polygon> access;
                 
-        std::size_t size = access::size( poly );
-        if (size < 4)
+        if (access::size( poly ) < 4)
             return poly;
         
         //! TODO: need to generically construct polygons.
-        Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
-        for (std::size_t i = 2; i < size; ++i)
-        {
-            const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
-            auto& b = access::back(newPoly);
-            const auto& c = poly[i];
-            if (!is_collinear(a, b, c, cmp))
-            {
-                if( i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                    newPoly.push_back(c);               
-            }
-            else
-                assign(b, c);//! replace b with c.      
-        }
+        Polygon newPoly;
+        for (auto i : detail::non_collinear_points_polygon(poly, cmp))
+            newPoly.push_back(access::get_point(poly, i));
 
         return newPoly;
     }
@@ -91,13 +132,10 @@ namespace geometrix {
         Polyline newPoly{ poly.front(), access::get_point(poly, 1) };
         for (std::size_t i = 2; i < size; ++i)
         {
-            const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
-            auto& b = access::back(newPoly);
             const auto& c = poly[i];
-            if (!is_collinear(a, b, c, cmp))
-                newPoly.push_back(c);
-            else
-                assign(b, c);//! replace b with c.      
+            while (access::size(newPoly) > 1 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), c, cmp))
+                newPoly.pop_back();
+            newPoly.push_back(c);
         }
 
         return newPoly;
@@ -108,23 +146,13 @@ namespace geometrix {
     {
         typedef point_sequence_traits<Polygon> access;
 
-        std::size_t size = access::size(poly);
-        if (size < 4)
+        if (access::size(poly) < 4)
             return poly;
 
         //! TODO: need to generically construct polygons.
-        Polygon newPoly{ poly.front()};
-        for (std::size_t i = 1; i < size; ++i)
-        {
-            auto& a = access::back(newPoly);
-            const auto& b = poly[i];
-            auto distanceSqrd = point_point_distance_sqrd(a, b);
-            if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                    newPoly.push_back(b);
-            }
-        }
+        Polygon newPoly;
+        for (auto i : detail::non_adjacent_points_polygon(poly, cmp))
+            newPoly.push_back(access::get_point(poly, i));
 
         return newPoly;
     }
@@ -133,31 +161,12 @@ namespace geometrix {
     inline std::set<std::size_t> identify_adjacent_points_polygon(const Polygon& poly, const NumberComparisonPolicy& cmp)
     {
         using access = point_sequence_traits<Polygon>;
-        std::set<std::size_t> cIndex;
+
         std::size_t size = access::size(poly);
         if (size < 4)
-            return cIndex;
-
-        //! TODO: need to generically construct polygons.
-        Polygon newPoly{ poly.front() };
-        for (std::size_t i = 1; i < size; ++i)
-        {
-            auto& a = access::back(newPoly);
-            const auto& b = poly[i];
-            auto distanceSqrd = point_point_distance_sqrd(a, b);
-            if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                {
-                    newPoly.push_back(b);
-                    continue;
-                }
-            }
-
-            cIndex.insert(i);
-        }
+            return std::set<std::size_t>();
 
-        return cIndex;
+        return detail::indices_not_kept(size, detail::non_adjacent_points_polygon(poly, cmp));
     }
 
     template <typename Polyline, typename NumberComparisonPolicy>
-- 
2.43.0


From edcc8dd39b5026eb82af4d8263783ff16a96d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 32/73] fix: Ramer-Douglas-Peucker measures against the edge
 kept and handles closed polylines

---
 .../ramer_douglas_peucker_algorithm.hpp               | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..39a35e8 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -15,6 +15,7 @@
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/line.hpp>
 #include <geometrix/algorithm/distance/point_line_distance.hpp>
+#include <geometrix/algorithm/distance/point_point_distance.hpp>
 
 #include <boost/range/join.hpp>
 
@@ -36,10 +37,14 @@ namespace geometrix {
 			auto index = std::size_t{};
 			if ((start + 2) < end)
 			{
-				line_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
+				const auto first = access::get_point(poly, start);
+				const auto last = access::get_point(poly, end - 1);
+
+				//! A line needs two distinct points: where the ends coincide measure from the ends.
+				const bool isClosed = !(point_point_distance_sqrd(first, last) > constants::zero<decltype(point_point_distance_sqrd(first, last))>());
 				for (std::size_t i = start + 1; (i + 1) < end; ++i)
 				{
-					auto d = point_line_distance(access::get_point(poly, i), l);
+					length_t d = isClosed ? point_point_distance(access::get_point(poly, i), first) : point_line_distance(access::get_point(poly, i), line_t(first, last));
 					if (d > dmax)
 					{
 						index = i;
@@ -51,7 +56,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From 8a6cb445c40fd2ad67d9c7d7247f4c1c3663f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 33/73] fix: a ball moving from within a box's margin hits the
 box where it enters it

---
 .../intersection/moving_sphere_aabb_intersection.hpp     | 9 ++++++++-
 .../intersection/moving_sphere_obb_intersection.hpp      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..745b988 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -85,6 +85,9 @@ namespace geometrix {
         if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
             return moving_sphere_aabb_intersection_result();
 
+        // A ray starting inside e is reported with the point where it exits. The region is that of the point at time t.
+        assign(p, get_center(s) + t * velocity);
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
         // they must have at least one bit set among them 
@@ -140,7 +143,11 @@ namespace geometrix {
             // expanded box is correct intersection time 
             Point newCenter = construct<Point>(get_center(s) + t * velocity);
             //! Now find the intersection point on the sphere.
-            assign(q, newCenter + get_radius(s) * normalize(point_segment_closest_point(newCenter, corner(a, u ^ 3), corner(a, v)) - newCenter));
+            //! It is the closest point of the box, which is the center itself when that is already inside.
+            if (m == 0)
+                assign(q, newCenter);
+            else
+                assign(q, point_segment_closest_point(newCenter, corner(a, u ^ 3), corner(a, v)));
             return moving_sphere_aabb_intersection_result(true, false, false, true, false);
         } 
         
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..581fae6 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -97,6 +97,9 @@ namespace geometrix {
         if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
             return moving_sphere_obb_intersection_result();
 
+        // A ray starting inside e is reported with the point where it exits. The region is that of the point at time t.
+        assign(p, get_center(rs) + t * rvelocity);
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
         // they must have at least one bit set among them
@@ -152,7 +155,11 @@ namespace geometrix {
             // expanded box is correct intersection time
             Point newCenter = construct<Point>(get_center(s) + t * velocity);
             //! Now find the intersection point on the sphere.
-            assign(q, newCenter + get_radius(s) * normalize(point_segment_closest_point(newCenter, corner(u ^ 3), corner(v)) - newCenter));
+            //! It is the closest point of the box, which is the center itself when that is already inside.
+            if (m == 0)
+                assign(q, newCenter);
+            else
+                assign(q, point_segment_closest_point(newCenter, corner(u ^ 3), corner(v)));
             return moving_sphere_obb_intersection_result(true, false, false, true, false);
         }
 
-- 
2.43.0


From 78ccd2fe23cfc9fa6640c838d4ff5e0f54005263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 34/73] fix: extreme vertex of a convex polygon in a direction

---
 .../detail/separating_axis_common.hpp         | 53 ++++++++-----------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..71b3768 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -21,48 +21,39 @@ namespace geometrix {
 	
 	namespace detail_separating_axis {
 
-		inline std::size_t get_middle_index(std::size_t i0, std::size_t i1, std::size_t n)
-		{
-			if(i0 < i1)
-				return (i0 + i1) / 2;
-			else
-				return ((i0 + i1 + n) / 2) % n;
-		}
-
 		template <typename Polygon, typename Vector, typename NumberComparisonPolicy>
 		inline std::size_t get_extreme_index(const Polygon& c, const Vector& d, const NumberComparisonPolicy& cmp)
 		{
 			using access = point_sequence_traits<Polygon>;
-			using point_type = typename access::point_type;
-			using length_t = typename arithmetic_type_of<point_type>::type;
-			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
+			const std::size_t n = access::size(c);
+			auto height = [&](std::size_t i) { return dot_product(d, access::get_point(c, i % n)); };
+
+			//! The heights of the vertices of a convex polygon rise to a maximum and fall from there. Bisect the vertices in [i0, i1) which contain the maximum.
 			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			std::size_t i1 = n;
+			bool rising0 = height(1) > height(0);
+			if(!rising0 && height(n - 1) <= height(0))
+				return 0;
+
+			while(i1 - i0 > 1)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
-				auto de = dot_product(d, e);
-				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
-				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
+				std::size_t mid = (i0 + i1) / 2;
+				bool rising = height(mid + 1) > height(mid);
+				if(!rising && height(mid - 1) <= height(mid))
+					return mid;
+
+				bool isBeforeMid = rising0 ? (!rising || height(i0) > height(mid)) : (!rising && height(i0) < height(mid));
+				if(isBeforeMid)
+					i1 = mid;
 				else
 				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
+					i0 = mid;
+					rising0 = rising;
 				}
 			}
+
+			return height(i1) > height(i0) ? i1 % n : i0;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From c687c6ed4cad9e9befc9c7aa14a65c51f006c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 35/73] fix: lexicographical_segment_compare orders by both
 ends of the first segment

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From 2e51e846846f418cdc17f0286fc7926d4f7e847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 36/73] fix: pseudo_angle of a vector whose y is a negative
 zero

---
 geometrix/utility/vector_angle_compare.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/vector_angle_compare.hpp b/geometrix/utility/vector_angle_compare.hpp
index 7c555cb..0e44923 100644
--- a/geometrix/utility/vector_angle_compare.hpp
+++ b/geometrix/utility/vector_angle_compare.hpp
@@ -28,7 +28,7 @@ namespace geometrix {
         using std::abs;
         using std::copysign;
         auto result = copysign(1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v))), get<1>(v));
-        return (get<1>(v) < 0) ? 4 + result : result;
+        return (result < 0) ? 4 + result : result;
     }
 
     template <typename NumberComparisonPolicy>
-- 
2.43.0


From 93acc153a03091512608062e7624ab6ac5e84e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 37/73] fix: distance of boxes in three dimensions

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From becce5058a43f96c00d7928953c3c0acb1ec4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 38/73] fix: eberly_segment_segment_distance clamps the closest
 points

---
 .../eberly_segment_segment_distance.hpp       | 256 ++----------------
 1 file changed, 21 insertions(+), 235 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..210a2de 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -48,250 +48,36 @@ namespace geometrix {
         auto v2 = p4 - p3;
 
         auto a = point_point_distance_sqrd(p1, p2);
-        auto b = dot_product(-v1, v2);
+        auto b = dot_product(v1, v2);
         auto c = point_point_distance_sqrd(p3, p4);
 
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
-        auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
-        auto s = b*e - c*d;
-        auto t = b*d - a*e;
+        auto e = dot_product(v2, vd);
+        auto det = a*c - b*b;
+        decltype(b / a) s = 0, t = 0;
 
-        if (det == 0)
+        //! The point of s1 closest to the line through s2; any will do if they are parallel.
+        if (det > 0)
+            s = (b*e - c*d) / det;
+        s = s < 0 ? 0 : s > 1 ? 1 : s;
+
+        //! The point of s2 closest to it, and if that is an end, the point of s1 closest to the end.
+        auto tmp = b*s + e;
+        if (tmp <= 0)
         {
-            if (b > 0)
-            {
-                if (d >= 0)
-                {
-                    s = 0;
-                    t = 0;
-                }
-                else if (-d <= a)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 1;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-            else
-            {
-                if (-d >= a)
-                {
-                    s = 1;
-                    t = 0;
-                }
-                else if (d <= 0)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
+            if (a > 0)
+                s = -d / a;
         }
-        else
+        else if (tmp >= c)
         {
-            if (s >= 0)
-            {
-                if (s <= det)
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //! Region 0
-                            auto invDet= 1.0 / det;
-                            s *= invDet;
-                            t *= invDet;
-                        }
-                        else
-                        {
-                            //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                    }
-                    else
-                    {
-                        //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                }
-                else
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //Region 1
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                        else
-                        {
-                            //Region 2
-                            auto tmp= b + d;
-                            if (-tmp < a)
-                            {
-                                t = 1;
-                                if (tmp > 0)
-                                    s = 0;
-                                else
-                                    s = -tmp / a;
-                            }
-                            else
-                            {
-                                s = 1;
-                                auto tmp2= b + e;
-                                if (-tmp2 < c)
-                                {
-                                    if (tmp2 > 0)
-                                        t = 0;
-                                    else
-                                        t = -tmp2 / c;
-                                }
-                                else
-                                    t = 1;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-            }
-            else
-            {
-                if (t >= 0)
-                {
-                    if (t <= det)
-                    {
-                        //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                    else
-                    {
-                        //Region 4
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-                else
-                {
-                    //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
-                    {
-                        t = 1;
-                        if (tmp > 0)
-                            s = 0;
-                        else
-                            s = -tmp / a;
-                    }
-                    else
-                    {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
-                        {
-                            if (tmp2 > 0)
-                                t = 0;
-                            else
-                                t = -tmp2 / c;
-                        }
-                        else
-                            t = 1;
-                    }
-                }
-            }
+            t = 1;
+            if (a > 0)
+                s = (b - d) / a;
         }
+        else
+            t = tmp / c;
+        s = s < 0 ? 0 : s > 1 ? 1 : s;
 
         if (s == 0)
         {
-- 
2.43.0


From 2ffec249a253aa324d2b13f4621ab6fc3efb457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 39/73] fix: distance of a point to a segment of no length, or
 on the segment, is a number

---
 .../algorithm/distance/point_segment_closest_point.hpp     | 7 +++++++
 geometrix/algorithm/distance/point_segment_distance.hpp    | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..22740d0 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,8 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 == construct<decltype(l2)>(0))//! The segment has no length.
+			return construct<point_t>(A);
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +89,11 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 == construct<decltype(l2)>(0))//! The segment has no length.
+		{
+			t = constants::zero<Dimensionless>();
+			return construct<point_t>(A);
+		}
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
diff --git a/geometrix/algorithm/distance/point_segment_distance.hpp b/geometrix/algorithm/distance/point_segment_distance.hpp
index b76c8a2..88affc7 100644
--- a/geometrix/algorithm/distance/point_segment_distance.hpp
+++ b/geometrix/algorithm/distance/point_segment_distance.hpp
@@ -52,7 +52,9 @@ namespace geometrix {
         auto f = dot_product(ab, ab);
         if (e >= f)
             return dot_product(bc, bc);
-        return dot_product(ac, ac) - e * e / f;
+        auto d2 = dot_product(ac, ac) - e * e / f;
+        auto zero = construct<decltype(d2)>(0);
+        return d2 > zero ? d2 : zero;//! The difference can be rounded to less than zero.
     }
 
     template <typename Point, typename Segment>
-- 
2.43.0


From 98a9c3b1351fe7ff18ddc991a0221e17fa3d90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 40/73] fix: segment_obb_distance uses the box's four sides,
 and is zero inside

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..3cc7c92 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -11,7 +11,8 @@
 #pragma once
 
 #include <geometrix/primitive/oriented_bounding_box.hpp>
-#include <geometrix/algorithm/distance/point_segment_distance.hpp>
+#include <geometrix/algorithm/distance/point_obb_distance.hpp>
+#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
 
 namespace geometrix {
 	
@@ -30,10 +31,12 @@ namespace geometrix {
 	template <typename Segment, typename PointOBB, typename VectorOBB, typename NumberComparisonPolicy>
 	inline typename result_of::segment_obb_distance_sqrd<Segment>::type segment_obb_distance_sqrd(const Segment& seg, const oriented_bounding_box<PointOBB, VectorOBB>& obb, const NumberComparisonPolicy& cmp)
 	{
-		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
+		//! The box is solid: a segment inside it is at no distance.
+		auto sqDistance = point_obb_distance_sqrd(get_start(seg), obb);
+		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From ccda9a287e87e83a61731d1423f6bc81b031c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 41/73] fix: closest points of long polylines and polygons when
 the first vertices are closest

---
 .../algorithm/distance/polygon_polygon_closest_point.hpp      | 4 ++++
 .../algorithm/distance/polyline_polyline_closest_point.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..9b72d1c 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -104,6 +104,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = constants::zero<Dimensionless>();
+        assign(c1, access1::get_point(p1, 0));
+        assign(c2, access2::get_point(p2, 0));
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..6531dd9 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = constants::zero<Dimensionless>();
+        assign(c1, access1::get_point(p1, 0));
+        assign(c2, access2::get_point(p2, 0));
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 2bd42cacdac9ed99ec4595e245566fec80bc8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 42/73] fix: distances of long polygons include their closing
 edges

---
 .../polygon_polygon_closest_point.hpp         | 33 +++++++++++++++++++
 .../distance/polygon_polygon_distance.hpp     |  7 +++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 9b72d1c..41d270e 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -109,6 +109,39 @@ namespace geometrix {
         assign(c1, access1::get_point(p1, 0));
         assign(c2, access2::get_point(p2, 0));
 
+        //! The ranges below do not include the closing edges.
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t il;
+            auto last = access1::size(p1) - 1;
+            auto dl = segment_polygon_closest_point(access1::get_point(p1, last), access1::get_point(p1, 0), p2, il, sl, tl, c1l, c2l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = last;
+                i2 = il;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+
+            last = access2::size(p2) - 1;
+            dl = segment_polygon_closest_point(access2::get_point(p2, last), access2::get_point(p2, 0), p1, il, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = il;
+                i2 = last;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
+
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
 
diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..e28a6f8 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -10,7 +10,8 @@
 #define GEOMETRIX_ALGORITHM_POLYGON_POLYGON_DISTANCE_HPP
 #pragma once
 
-#include <geometrix/algorithm/distance/point_segment_distance.hpp>
+#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
+#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
 #include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
 #include <geometrix/primitive/point_sequence_utilities.hpp>
 #include <queue>
@@ -97,6 +98,10 @@ namespace geometrix {
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
 		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
 
+		//! The ranges below do not include the closing edges.
+		minDist2 = (std::min)(minDist2, segment_polygon_distance_sqrd(access1::get_point(p1, access1::size(p1)-1), access1::get_point(p1, 0), p2, cmp));
+		minDist2 = (std::min)(minDist2, segment_polygon_distance_sqrd(access2::get_point(p2, access2::size(p2)-1), access2::get_point(p2, 0), p1, cmp));
+
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
 
-- 
2.43.0


From c13b6e1c29f08fa68117a93dc33498d2ac232261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 43/73] fix: ray_segment_intersection reports parallel but
 separate pieces as not crossing

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From 59442d8e4d57a5a07dda21e27477498d5ad83601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 44/73] fix: ray_line_intersection with parallel lines, and on
 the line's other side

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..05bc20a 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (!cmp.equals(exterior_product_area(v2, v1), constants::zero<length_t>()))
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +92,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
-- 
2.43.0


From d64159219f96ea764ecffad29d4729d99e79ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 45/73] fix: line_aabb_intersection compiles, and a line beside
 the box misses it

---
 .../algorithm/intersection/line_aabb_intersection.hpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/line_aabb_intersection.hpp b/geometrix/algorithm/intersection/line_aabb_intersection.hpp
index 845efc8..7e2f1f4 100644
--- a/geometrix/algorithm/intersection/line_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/line_aabb_intersection.hpp
@@ -25,8 +25,8 @@ namespace geometrix {
 
 		line_aabb_intersection_result() = default;
 
-		line_aabb_intersection_result(bool isIntersecting, bool isOriginInside = false)
-			: result((isIntersecting ? e_is_intersecting : 0) | (isOriginInside ? e_origin_inside : 0))
+		line_aabb_intersection_result(bool isIntersecting)
+			: result(isIntersecting ? e_is_intersecting : 0)
 		{}
 
 		bool is_intersecting() const { return (result & e_is_intersecting) != 0; }
@@ -64,7 +64,7 @@ namespace geometrix {
 		auto d = line_access::get_parallel_vector(l);
 
 		using point_t = typename std::decay<decltype(p)>::type;
-		using vector_t = typename std::decay<decltype(v)>::type;
+		using vector_t = typename std::decay<decltype(d)>::type;
 
 #if BOOST_VERSION >= 105700
 		auto tmin = std::numeric_limits<Scalar>::lowest(); // set to -FLT_MAX to get first hit on lineb
@@ -95,6 +95,8 @@ namespace geometrix {
 				if (tmin > tmax)
 					return false;
 			}
+			else if (get<0>(p) < get<0>(a.get_lower_bound()) || get<0>(p) > get<0>(a.get_upper_bound()))
+				return false; // Line is parallel to slab and not within it.
 		}
 
 		texit = tmax;
@@ -121,6 +123,8 @@ namespace geometrix {
 
 				texit = (std::min)(t2, texit);
 			}
+			else if (get<1>(p) < get<1>(a.get_lower_bound()) || get<1>(p) > get<1>(a.get_upper_bound()))
+				return false; // Line is parallel to slab and not within it.
 		}
 
 		// line intersects all 2 slabs. Return point (q) and intersection t value (tmin) 
-- 
2.43.0


From 8fcac988b41140f56d5ad914d911945d03677eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 46/73] fix: sphere_polyline_intersect names a dependent type

---
 .../algorithm/intersection/sphere_polyline_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
index fd5a134..b465321 100644
--- a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
@@ -26,7 +26,7 @@ inline bool sphere_polyline_intersect( const Sphere& s, const Polyline& pline, V
     BOOST_CONCEPT_ASSERT((PointSequenceConcept<Polyline>));
     BOOST_CONCEPT_ASSERT((NumberComparisonPolicyConcept<NumberComparisonPolicy>));
     using access = point_sequence_traits<Polyline>;
-    using length_t = arithmetic_type_of<typename access::point_type>::type;
+    using length_t = typename arithmetic_type_of<typename access::point_type>::type;
     using dimensionless_t = decltype(std::declval<length_t>() / std::declval<length_t>());
     using point_type = point<length_t, 2>;
 
-- 
2.43.0


From 698ff6a5638e773f699a25e60262db34f379ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 47/73] fix: a segment without length gives the point where it
 meets a sphere

---
 geometrix/algorithm/intersection/segment_sphere_intersection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..08ba8db 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -94,6 +94,7 @@ namespace geometrix {
         if (cmp.equals(length, 0))
         {
             t = 0;
+            assign(q, sa);
             return cmp.less_than_or_equal(c, 0);
         }
 
-- 
2.43.0


From 96093563743e2cd004d9b17398674d5fc3e20afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 48/73] fix: rays and segments which touch a sphere meet it at
 a number

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp    | 2 +-
 .../algorithm/intersection/segment_sphere_intersection.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..8a3951c 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -39,7 +39,7 @@ namespace geometrix {
 
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
 		using std::sqrt;
-		t = -b - sqrt(discr);
+		t = discr > 0 ? -b - sqrt(discr) : -b;
 
 		// If t is negative, ray started inside sphere so clamp t to zero 
 		if (cmp.less_than(t, 0))
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 08ba8db..da8d2f8 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -113,7 +113,7 @@ namespace geometrix {
 
         // segment now found to intersect sphere, compute smallest t value of intersection 
         using std::sqrt;
-        t = -b - sqrt(discr);
+        t = discr > 0 ? -b - sqrt(discr) : -b;
         if (cmp.greater_than(t, length))
             return false;
 
-- 
2.43.0


From 654d9a40735441947d9a8e2fe6247d9425f6bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 49/73] fix: touching circles and spheres meet at a number

---
 geometrix/algorithm/intersection/circle_circle_intersection.hpp | 2 +-
 geometrix/algorithm/intersection/sphere_sphere_intersection.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..460b513 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h = r1 > a*a ? sqrt(r1 - a*a) : 0 * a;
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..0ca9b28 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h = r1 > a*a ? sqrt(r1 - a*a) : 0 * a;
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From 311a3cd1b20cbd49be50fa9fc1acfd88f6f9725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 50/73] fix: a segment which starts inside a capsule meets it
 there

---
 .../intersection/segment_capsule_intersection.hpp        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..1a7e9dc 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/algebra/algebra.hpp>
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/sphere.hpp>
+#include <geometrix/algorithm/distance/point_segment_distance.hpp>
 #include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
 
 namespace geometrix {
@@ -37,6 +38,14 @@ namespace geometrix {
 		using std::sqrt;
 		using std::abs;
 
+		// Test if segment starts inside the capsule
+		if (cmp.less_than_or_equal(point_segment_distance_sqrd(sa, p, q), r * r))
+		{
+			t = 0;
+			assign(xPoint, sa);
+			return true;
+		}
+
 		// Test if segment fully outside either endcap of capsule 
 		if (md < 0 && md + nd < 0)
 			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
-- 
2.43.0


From fbd79f3b6fec431bc4d4c4f6f1398ab40d810069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 51/73] fix: a capsule whose ends coincide is a circle

---
 .../algorithm/intersection/segment_capsule_intersection.hpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 1a7e9dc..48deebe 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -46,6 +46,10 @@ namespace geometrix {
 			return true;
 		}
 
+		// A capsule whose ends coincide is a circle
+		if (cmp.equals(dd, 0))
+			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp);
+
 		// Test if segment fully outside either endcap of capsule 
 		if (md < 0 && md + nd < 0)
 			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
-- 
2.43.0


From 1620022bc78c519d3172876f8e4ab7f98b86e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 52/73] fix: a segment parallel to a capsule meets it

---
 .../algorithm/intersection/segment_capsule_intersection.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 48deebe..4bd48cf 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -60,7 +60,7 @@ namespace geometrix {
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
@@ -70,12 +70,12 @@ namespace geometrix {
 			if (md < 0)
 			{
 				//t = -mn / nn;// Intersect segment against 'p' endcap 
-				segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
+				return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
 			}
 			else if (md > dd)
 			{
 				//t = (nd - mn) / nn;// Intersect segment against 'q' endcap 
-				segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp);
+				return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp);
 			}
 			else
 			{
-- 
2.43.0


From a605f6568849e4f68143d47ecc5a4cc56965b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 53/73] fix: convex_polygons_intersection works for both
 orientations

---
 .../separating_axis_convex_polygons.hpp         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..9b7a8ab 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -21,25 +21,26 @@ namespace geometrix {
 		using access2 = point_sequence_traits<Polygon2>;
 		using point_type = typename access1::point_type;
         using length_t = typename arithmetic_type_of<point_type>::type;
+		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
 		using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
-			std::size_t min = get_extreme_index(p2, -d, cmp);
-			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			area_t min1, max1, min2, max2;
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than(max1, min2) || cmp.less_than(max2, min1))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
-			std::size_t min = get_extreme_index(p1, -d, cmp);
-			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			area_t min1, max1, min2, max2;
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.less_than(max1, min2) || cmp.less_than(max2, min1))
 				return false;
 		}
 
-- 
2.43.0


From 4e5e8ed48ea915eb84bab11d13c18ef9395fe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 54/73] fix: bounding_box_intersection names the arithmetic
 type that exists

---
 geometrix/algorithm/bounding_box_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bounding_box_intersection.hpp b/geometrix/algorithm/bounding_box_intersection.hpp
index 486326b..4b9d62b 100644
--- a/geometrix/algorithm/bounding_box_intersection.hpp
+++ b/geometrix/algorithm/bounding_box_intersection.hpp
@@ -22,7 +22,7 @@ namespace geometrix {
     template <typename NumberComparisonPolicy, typename Point>
     inline bool bounding_box_intersection( const Point& p1, const Point& p2, const Point& p3, const Point& p4, const NumberComparisonPolicy& compare ) 
     {
-        typedef typename geometric_traits<Point>::coordinate_type coordinate_type;
+        typedef typename geometric_traits<Point>::arithmetic_type coordinate_type;
         BOOST_CONCEPT_ASSERT((Point2DConcept<Point>));
 
         coordinate_type xmax1, xmax2, ymax1, ymax2, xmin1, xmin2, ymin1, ymin2;
-- 
2.43.0


From a669baf60405afea96c6acef6a52870d61321d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 55/73] fix: is_segment_in_range_2d no longer counts a segment
 between the backward extensions of the two directions

---
 geometrix/algorithm/is_segment_in_range.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..a4cfab4 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -72,14 +72,6 @@ namespace geometrix {
 */
 
 		direct_comparison_policy directCmp;
-		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
-		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
-		
-		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
-		
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
 	}
-- 
2.43.0


From 5f3e4eb3b8b3771ad483e82a091f98fe2aa0af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 56/73] fix: a point level with two equal points was taken to
 lie between them

---
 geometrix/utility/utilities.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 7cfa733..3879827 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -199,6 +199,10 @@ namespace geometrix {
         }
         else
         {
+            //! When A equals B any point is collinear to them.
+            if( !compare.equals( get<0>( A ), get<0>( C ) ) )
+                return false;
+
             if( includeBounds )
             {
                 return ((compare.less_than_or_equal( get<1>( A ), get<1>( C ) ) && compare.less_than_or_equal( get<1>( C ), get<1>( B ) )) ||
-- 
2.43.0


From fd3c39ddaf902f54dae4d0f6dae751fb190064e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 57/73] fix: overlapping segments that share an end were
 reported as meeting at an endpoint

---
 geometrix/algorithm/orientation.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/geometrix/algorithm/orientation.hpp b/geometrix/algorithm/orientation.hpp
index 9f640a6..88d1fe1 100644
--- a/geometrix/algorithm/orientation.hpp
+++ b/geometrix/algorithm/orientation.hpp
@@ -77,25 +77,11 @@ namespace geometrix {
             bool p3isBetweenp1p2 = is_between( p1, p2, p3, false, cmp );
             bool p4isBetweenp1p2 = is_between( p1, p2, p4, false, cmp );
 
-            if ( p3isBetweenp1p2 && p4isBetweenp1p2 )
-                return e_overlapping;
-
             bool p1isBetweenp3p4 = is_between( p3, p4, p1, false, cmp );
             bool p2isBetweenp3p4 = is_between( p3, p4, p2, false, cmp );
 
-            if ( p1isBetweenp3p4 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p3isBetweenp1p2 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p3isBetweenp1p2 && p1isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p4isBetweenp1p2 && p2isBetweenp3p4 )
-                return e_overlapping;
-
-            if( p4isBetweenp1p2 && p1isBetweenp3p4 )
+            bool isCollinear = p1OrientationLine34 == oriented_collinear && p2OrientationLine34 == oriented_collinear;
+            if ( isCollinear && (p3isBetweenp1p2 || p4isBetweenp1p2 || p1isBetweenp3p4 || p2isBetweenp3p4) )
                 return e_overlapping;
 
             bool originEqualsp3 = numeric_sequence_equals( p1, p3, cmp );
-- 
2.43.0


From 73414d6d4e437354827b4ae6cae0dd7fe0c8f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 58/73] fix: segments in space meeting at an end of the first
 were reported as crossing

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 74d36b4..cdeec5e 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !cmp.greater_than( t, zero ) || !cmp.less_than( t, one ) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 116e96e28842a023ec85b9bf163710d1dff2094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 59/73] fix: parallel segments in space were compared exactly,
 not under the comparison policy

---
 .../intersection/segment_segment_intersection.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index cdeec5e..16cf76e 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -271,18 +271,18 @@ namespace geometrix {
                 dimensionless_t s1 = s0 + b / vLengthSqr ;
                 auto st = boost::minmax( s0, s1 ) ;
 
-                if( one < boost::get<0>(st) || zero > boost::get<1>(st) )
+                if( cmp.less_than( one, boost::get<0>(st) ) || cmp.greater_than( zero, boost::get<1>(st) ) )
                     return e_non_crossing;
-                else if( 1. > boost::get<0>(st) )
+                else if( cmp.greater_than( one, boost::get<0>(st) ) )
                 {
-                    if( 0. < boost::get<1>(st) )
+                    if( cmp.less_than( zero, boost::get<1>(st) ) )
                     {
-                        if( 0. < boost::get<0>(st) )
+                        if( cmp.less_than( zero, boost::get<0>(st) ) )
                             iPoint[0] <<= p1 + boost::get<0>(st) * v1;
                         else
                             iPoint[0] = construct<XPoint>(p1);
 
-                        if( 1. > boost::get<1>(st) )
+                        if( cmp.greater_than( one, boost::get<1>(st) ) )
                             iPoint[1] <<= p1 + boost::get<1>(st) * v1; 
                         else
                             iPoint[1] <<= p1 + v1; 
-- 
2.43.0


From 6cfeff1d555c75d3251b93f66cbe7c9cb1ffd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 60/73] fix: points past the start of a polyline were judged by
 the wedge at its second vertex

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From 2c73019ebd0f9e1556d4d781dd665a2d6e2d4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 61/73] fix: polyline_offset pushed an unset point at straight
 joints

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..101fbef 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -326,8 +326,10 @@ namespace geometrix {
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
 					point_type xPoint;
-					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
-					result.push_back(xPoint);
+					if (line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp) == e_crossing)
+						result.push_back(xPoint);
+					else
+						result.push_back(pOffsetB);
 
 					A = C;
 					B = D;
-- 
2.43.0


From 65ddccc8e680ed437df7ac00fb7d27077c51bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 62/73] fix: fixed_point arithmetic and comparison between
 numbers of different run-time scales

---
 geometrix/numeric/fixed_point.hpp | 50 +++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 4f4a7fe..1ed4a77 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -103,6 +103,38 @@ namespace geometrix {
             return scale_policy();
         }
 
+        //! The unscaled value of a number of this type in the scale of this number.
+        BOOST_CONSTEXPR format_type to_this_scale( const fixed_point<traits_type>& v, boost::true_type ) const
+        {
+            return v.m_value;
+        }
+
+        //! Numbers scaled at run time may differ in their scale.
+        BOOST_CONSTEXPR format_type to_this_scale( const fixed_point<traits_type>& v, boost::false_type ) const
+        {
+            return this->m_scale == v.m_scale ? v.m_value : convert_to_format( v, boost::false_type() );
+        }
+
+        BOOST_CONSTEXPR format_type to_this_scale( const fixed_point<traits_type>& v ) const
+        {
+            return to_this_scale( v, boost::integral_constant<bool, geometrix::is_static<scale_policy>::value>() );
+        }
+
+        BOOST_CONSTEXPR bool has_scale_of( const fixed_point<traits_type>&, boost::true_type ) const
+        {
+            return true;
+        }
+
+        BOOST_CONSTEXPR bool has_scale_of( const fixed_point<traits_type>& v, boost::false_type ) const
+        {
+            return this->m_scale == v.m_scale;
+        }
+
+        BOOST_CONSTEXPR bool has_scale_of( const fixed_point<traits_type>& v ) const
+        {
+            return has_scale_of( v, boost::integral_constant<bool, geometrix::is_static<scale_policy>::value>() );
+        }
+
         struct from_format_tag{};
 
         BOOST_CONSTEXPR fixed_point(from_format_tag, const format_type& v, const scale_policy& p = scale_policy() )
@@ -163,7 +195,7 @@ namespace geometrix {
 
         BOOST_CONSTEXPR bool operator < ( const fixed_point<traits_type>& rhs ) const
         {
-            return m_value < rhs.m_value;
+            return has_scale_of( rhs ) ? m_value < rhs.m_value : convert_to<long double>() < rhs.template convert_to<long double>();
         }
 
         template <typename T>
@@ -180,7 +212,7 @@ namespace geometrix {
 
         BOOST_CONSTEXPR bool operator ==( const fixed_point<traits_type>& rhs ) const
         {
-            return m_value == rhs.m_value;
+            return has_scale_of( rhs ) ? m_value == rhs.m_value : convert_to<long double>() == rhs.template convert_to<long double>();
         }
 
         template <typename T>
@@ -210,7 +242,7 @@ namespace geometrix {
 
         fixed_point<traits_type>& operator +=( const fixed_point<traits_type>& v )
         {
-            m_value += v.m_value;
+            m_value += to_this_scale( v );
             return *this;
         }
 
@@ -223,7 +255,7 @@ namespace geometrix {
 
         fixed_point<traits_type>& operator -=( const fixed_point<traits_type>& v )
         {
-            m_value -= v.m_value;
+            m_value -= to_this_scale( v );
             return *this;
         }
 
@@ -236,7 +268,7 @@ namespace geometrix {
 
         fixed_point<traits_type>& operator *= ( const fixed_point<traits_type>& factor )
         {
-            m_value = scale_policy::template scale_down< format_type >( geometrix::widen_cast(m_value) * factor.m_value );
+            m_value = factor.scale_policy::template scale_down< format_type >( geometrix::widen_cast(m_value) * factor.m_value );
             return *this;
         }
 
@@ -248,7 +280,7 @@ namespace geometrix {
 
         fixed_point<traits_type>& operator /= (const fixed_point<traits_type>& divisor)
         {
-            auto num = scale_policy::template scale_up< typename geometrix::widen<format_type>::type >( m_value );
+            auto num = divisor.scale_policy::template scale_up< typename geometrix::widen<format_type>::type >( m_value );
             auto den = geometrix::widen_cast( divisor.m_value );
             m_value = boost::numeric_cast<format_type>(num / den);
             return *this;
@@ -338,7 +370,7 @@ namespace geometrix {
 
         friend fixed_point fmod(const fixed_point& numer, const fixed_point& denom)
         {
-            return fixed_point{from_format_tag(), numer.m_value % denom.m_value, numer};
+            return fixed_point{from_format_tag(), numer.m_value % numer.to_this_scale( denom ), numer};
         }
 
         friend fixed_point copysign(const fixed_point& v, const fixed_point& u)
@@ -401,7 +433,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator -(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) -= rhs;
+        return fixed_point<Traits>(lhs, rhs) -= rhs;
     }
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(fixed_point<Traits> lhs, const U& rhs)
@@ -412,7 +444,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) /= rhs;
+        return fixed_point<Traits>(lhs, rhs) /= rhs;
     }
 
     template<typename Traits>
-- 
2.43.0


From b9fc1fe19f171cc76b77a8e253d0562c7c67042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 63/73] fix: bisect of vectors of unequal length and of nearly
 antiparallel ones

---
 geometrix/arithmetic/vector/bisect.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..b854887 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -31,22 +31,22 @@ namespace geometrix {
     template <typename Vector1, typename Vector2>
     inline typename result_of::bisect<Vector1, Vector2>::type bisect(const Vector1& lo, const Vector2& hi)
     {
-        using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
 		auto nlo = normalize(lo);
 		auto nhi = normalize(hi);
 		auto dp = dot_product(nlo, nhi);
-		if (dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
+		if (dp > constants::zero<decltype(dp)>())
 		{
-			auto one_half = constants::one_half<dimensionless_t>();
 			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
-			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+			if (orientation == oriented_collinear || dp >= constants::one<decltype(dp)>())
+				return -nhi;
+			if (orientation != oriented_right)
+				return normalize(nlo + nhi);
+			return normalize(-nlo - nhi);
 		}
-		else if (dp == constants::negative_one<decltype(dp)>())
-			return right_normal(nhi);
 
-		return -hi;
+		//! The difference leads the bisect by a quarter turn, also when the sum vanishes.
+		typename result_of::bisect<Vector1, Vector2>::type diff = nhi - nlo;
+		return normalize(right_normal(diff));
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -55,13 +55,13 @@ namespace geometrix {
     inline typename result_of::bisect<Vector1, Vector2>::type bisect_not_antiparallel(const Vector1& lo, const Vector2& hi)
     {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
-        using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
-        auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(nlo + nhi);
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(-nlo - nhi);
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From e3342aaeb670c82096fe8bd7f0bdc5efe2c9670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 64/73] fix: operands of matrix * scalar were accessed in the
 wrong order

---
 geometrix/algebra/functions/multiplication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algebra/functions/multiplication.hpp b/geometrix/algebra/functions/multiplication.hpp
index 6844684..816c698 100644
--- a/geometrix/algebra/functions/multiplication.hpp
+++ b/geometrix/algebra/functions/multiplication.hpp
@@ -193,7 +193,7 @@ namespace geometrix {
 
             result_type operator()(tag_t, const Left& l, const Right& r ) const
             {
-                return do_multiplies(get<Row, Column>( r ), get( l ));
+                return do_multiplies(get<Row, Column>( l ), get( r ));
             }
         };
     };
-- 
2.43.0


From 0bb293824385a2bd7d4a8b8b8ab3bf810a810941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 65/73] fix: circles and spheres with dimensioned coordinates
 can be intersected again

---
 geometrix/algorithm/intersection/circle_circle_intersection.hpp | 2 +-
 geometrix/algorithm/intersection/sphere_sphere_intersection.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 460b513..08da383 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = r1 > a*a ? sqrt(r1 - a*a) : 0 * a;
+        auto h = sqrt(r1 > a*a ? r1 - a*a : r1 - r1);
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 0ca9b28..22e9fcd 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,7 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = r1 > a*a ? sqrt(r1 - a*a) : 0 * a;
+        auto h = sqrt(r1 > a*a ? r1 - a*a : r1 - r1);
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From 7dd7820c8dcd823ac08f1d1b698b4c85b255c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 66/73] fix: integers were compared by truncated fractions
 under a fraction tolerance

---
 geometrix/utility/floating_point_comparison.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/floating_point_comparison.hpp b/geometrix/utility/floating_point_comparison.hpp
index a32546b..78d2e9e 100644
--- a/geometrix/utility/floating_point_comparison.hpp
+++ b/geometrix/utility/floating_point_comparison.hpp
@@ -15,6 +15,7 @@
 #include <boost/units/unit.hpp>
 #include <geometrix/numeric/numeric_traits.hpp>
 #include <geometrix/numeric/constants.hpp>
+#include <type_traits>
 
 namespace geometrix {
     
@@ -93,9 +94,9 @@ public:
     template <typename NumericType1, typename NumericType2>
     bool operator()( const NumericType1& lhs, const NumericType2& rhs ) const
     {
-        BOOST_AUTO( diff, absolute_value( lhs - rhs ) );
-        BOOST_AUTO( d1, safe_division( diff, absolute_value( rhs ) ) );
-        BOOST_AUTO( d2, safe_division( diff, absolute_value( lhs ) ) );
+        BOOST_AUTO( diff, as_dividend( absolute_value( lhs - rhs ) ) );
+        BOOST_AUTO( d1, safe_division( diff, as_dividend( absolute_value( rhs ) ) ) );
+        BOOST_AUTO( d2, safe_division( diff, as_dividend( absolute_value( lhs ) ) ) );
 
         return m_fpcType ? (d1 <= m_fractionTolerance && d2 <= m_fractionTolerance) 
                          : (d1 <= m_fractionTolerance || d2 <= m_fractionTolerance);
@@ -103,6 +104,13 @@ public:
 
 private:
 
+    //! The quotient of integers is taken as a fraction, not truncated.
+    template <typename NumericType>
+    static typename std::conditional<std::is_integral<NumericType>::value, double, NumericType>::type as_dividend( const NumericType& v )
+    {
+        return v;
+    }
+
     ToleranceType  m_fractionTolerance;
     bool           m_fpcType;
 };
-- 
2.43.0


From 8a2e28e73b397828e90db6ed7802ad5583abd91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:46 +0000
Subject: [PATCH 67/73] fix: setting a coordinate adapted by member functions
 did not compile

---
 geometrix/tensor/fusion_vector_access_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/tensor/fusion_vector_access_policy.hpp b/geometrix/tensor/fusion_vector_access_policy.hpp
index 977057e..a726347 100644
--- a/geometrix/tensor/fusion_vector_access_policy.hpp
+++ b/geometrix/tensor/fusion_vector_access_policy.hpp
@@ -69,7 +69,7 @@ struct fusion_vector_member_function_access_policy
     {
         typedef typename remove_const_ref<T>::type tensor_type;
         BOOST_CONCEPT_ASSERT((DimensionContainsIndexConcept<boost::fusion::result_of::size<tensor_type>,Index>));
-        boost::fusion::at_c<Index>( collection ) = v;
+        boost::fusion::at_c<Index>( collection ).set( v );
     }
 };
 
-- 
2.43.0


From ffb62fcfcc51e2acf77d07b1d09ef8caaea24075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 68/73] fix: the orientation-guided traversal skipped a cell
 after clipping just below a grid line

---
 .../algorithm/orientation_grid_traversal.hpp    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index fb65cd4..ab7c202 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -17,6 +17,7 @@
 #include <geometrix/algorithm/grid_traits.hpp>
 #include <geometrix/primitive/point.hpp>
 
+#include <cmath>
 #include <cstdint>
 
 namespace geometrix
@@ -58,10 +59,18 @@ namespace geometrix
             return;
         }
 
-        BOOST_AUTO(x1, grid.get_scaled_grid_coordinate_x(sx));
-        BOOST_AUTO(y1, grid.get_scaled_grid_coordinate_y(sy));
-        BOOST_AUTO(x2, grid.get_scaled_grid_coordinate_x(tx));
-        BOOST_AUTO(y2, grid.get_scaled_grid_coordinate_y(ty));
+        //! A (clipped) end may miss the grid line it lies on by a rounding error, which unit steps from it would turn into a whole cell.
+        auto snap = [&cmp](const coordinate_type& c) -> coordinate_type
+        {
+            using std::floor;
+            coordinate_type line = floor(c + 0.5);
+            return cmp.equals(c, line) ? line : c;
+        };
+
+        coordinate_type x1 = snap(grid.get_scaled_grid_coordinate_x(sx));
+        coordinate_type y1 = snap(grid.get_scaled_grid_coordinate_y(sy));
+        coordinate_type x2 = snap(grid.get_scaled_grid_coordinate_x(tx));
+        coordinate_type y2 = snap(grid.get_scaled_grid_coordinate_y(ty));
 
         int signDeltaY = cmp.greater_than_or_equal(y2, y1) ? 1 : -1;
         
-- 
2.43.0


From 6b7b202e38d43aae56e6811bc3caf90a329c4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 69/73] fix: the closing edge of a polygon, given as a
 sub-range, was infinitely far from everything

---
 geometrix/algorithm/distance/polygon_polygon_distance.hpp     | 4 ++--
 .../algorithm/distance/segment_polygon_closest_point.hpp      | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index e28a6f8..d84a2cf 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -47,7 +47,7 @@ namespace geometrix {
         std::size_t i0 = std::get<0>(subRange), i1 = std::get<1>(subRange);
         GEOMETRIX_ASSERT(i0 < i1 || i0 == access::size(poly)-1);//! this doesn't support wrapping around except for the segment just before 0.
         auto distance = std::numeric_limits<dist_type>::infinity();
-        for (std::size_t i = i0, j = i0 + 1; j <= i1; i = j++)
+        for (std::size_t i = i0, n = i0 < i1 ? i1 - i0 : 1, j = (i0 + 1) % access::size(poly); n > 0; i = j++, --n)
             distance = (std::min)(distance, segment_segment_distance_sqrd(p1, p2, access::get_point(poly, i), access::get_point(poly, j), cmp));
 
         return distance;
@@ -79,7 +79,7 @@ namespace geometrix {
 		area_t minDist2 = constants::infinity<area_t>();
         std::size_t i0 = std::get<0>(subRange1), i1 = std::get<1>(subRange1);
         GEOMETRIX_ASSERT(i0 < i1 || i0 == access1::size(p1)-1);//! this doesn't support wrapping around except for the segment just before 0.
-        for (std::size_t i = i0, j = i0 + 1; j <= i1; i = j++)
+        for (std::size_t i = i0, n = i0 < i1 ? i1 - i0 : 1, j = (i0 + 1) % access1::size(p1); n > 0; i = j++, --n)
 			minDist2 = (std::min)(minDist2, segment_subpolygon_distance_sqrd(access1::get_point(p1, i), access1::get_point(p1, j), subRange2, p2, cmp));
 
 		return minDist2;
diff --git a/geometrix/algorithm/distance/segment_polygon_closest_point.hpp b/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
index eedc136..453667a 100644
--- a/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/segment_polygon_closest_point.hpp
@@ -62,11 +62,10 @@ namespace geometrix {
         using access = point_sequence_traits<Polygon>;
 		using dist_type = typename result_of::segment_polygon_closest_point<Point>::type;
         auto size = access::size(poly);
-        ignore_unused_warning_of(size);
         std::size_t i0 = std::get<0>(subRange), i1 = std::get<1>(subRange);
         GEOMETRIX_ASSERT(i0 < i1 || i0 == size-1);//! this doesn't support wrapping around except for the segment just before 0.
         auto distance = std::numeric_limits<dist_type>::infinity();
-        for (std::size_t i = i0, j = i0 + 1; j <= i1; i = j++)
+        for (std::size_t i = i0, n = i0 < i1 ? i1 - i0 : 1, j = (i0 + 1) % size; n > 0; i = j++, --n)
         {
             auto sl = Dimensionless{};
             auto tl = Dimensionless{};
-- 
2.43.0


From cc8392cb60f760b801b1ff39a763dafd18d301b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:21 +0000
Subject: [PATCH 70/73] fix: choosing a random element of a container did not
 compile

---
 geometrix/utility/random_generator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index ebc9505..148b4b9 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -10,6 +10,8 @@
 #define GEOMETRIX_RANDOM_GENERATOR_HPP
 
 #include <boost/random.hpp>
+#include <boost/range.hpp>
+#include <type_traits>
 
 namespace geometrix {
     template <typename RandomNumberGenerator>
@@ -92,7 +94,7 @@ namespace geometrix {
     };
     
     template <typename Range, typename RNG>
-    inline typename boost::range_iterator<Range>::type random_element(const Range& r, const random_index_generator<RNG>& rng)
+    inline typename boost::range_iterator<typename std::remove_reference<Range>::type>::type random_element(Range&& r, const random_index_generator<RNG>& rng)
     {
         auto it = boost::begin(r);
         std::advance(it, rng());
-- 
2.43.0


From 3b8e64df568078b08fcc407a2ed8becfc472e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 71/73] fix: scale a plain number up in a type that holds the
 result

A plain number was scaled up in its own type, so that constructing from,
adding or comparing a char, a short or a large int threw although the
fixed-point format holds the value, and a float was rounded twice.
---
 geometrix/numeric/fixed_point.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 1ed4a77..4370731 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -56,18 +56,22 @@ namespace geometrix {
 
         friend class std::numeric_limits< fixed_point< traits_type > >;
 
+        //! The type to scale a value up in: the scaled value need not fit in the type of the value.
+        template <typename T>
+        using scaling_type = typename geometrix::widen<typename geometrix::widen<typename std::decay<T>::type>::type>::type;
+
         //! Run time.
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::false_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<scaling_type<T>>( static_cast<scaling_type<T>>( value ) ) ) );
         }
 
         //! Compile time.
         template <typename T, typename std::enable_if<std::is_arithmetic<typename std::decay<T>::type>::value, int>::type = 0>
         BOOST_CONSTEXPR format_type convert_to_format(T value, boost::true_type) const
         {
-            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<T>( value ) ) );
+            return boost::numeric_cast<format_type>( rounding_policy::round( scale_policy::template scale_up<scaling_type<T>>( static_cast<scaling_type<T>>( value ) ) ) );
         }
 
         //! Conversion from another fixed_point type with possibly different traits.
-- 
2.43.0


From 2427d31a43fa70bd3000f0c8101d4088ef0a2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:28 +0000
Subject: [PATCH 72/73] fix: an empty node BSP tree takes its splitting line
 from the first insertion

A tree made by the default constructor had no splitting segment, so that
every edge inserted was taken for coincident: points were located wrongly
and the painter's traversal kept the order of insertion.
---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 1002352..83f921e 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -265,9 +265,16 @@ namespace geometrix {
         template <typename Range, typename PartitionSelector, typename NumberComparisonPolicy>
         void insert( const Range& range, const PartitionSelector& selector, const NumberComparisonPolicy& compare )
         {
-            std::vector< Segment > posList, negList;
-
             typename boost::range_iterator< const Range >::type first( boost::begin( range ) ), last( boost::end( range ) );
+
+            //! An empty tree takes its splitting line from the first edges inserted.
+            if( first != last && is_leaf() && m_coincidentEdges.empty() )
+            {
+                m_splittingSegment = selector( range );
+                m_cuttingPlane = make_line( m_splittingSegment );
+            }
+
+            std::vector< Segment > posList, negList;
             while( first != last )
             {
                 using point_t = typename geometric_traits<Segment>::point_type;
-- 
2.43.0


From b00c08e86aad63a7db6aef05706c87c394551e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:26 +0000
Subject: [PATCH 73/73] fix: a k-d tree of no points finds nothing instead of
 crashing

---
 geometrix/algorithm/kd_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 93d181e..8997de2 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -129,6 +129,9 @@ namespace geometrix {
         void build( const PointSequence& pSequence, const NumberComparisonPolicy& compare, const PartitionStrategy& partitionStrategy )
         {
             std::size_t pSize = point_sequence_traits< PointSequence >::size( pSequence );
+            if( pSize == 0 )
+                return;//! No search finds anything.
+
             if( pSize == 1 )
             {
                 m_pLeaf.reset( new sequence_type( point_sequence_traits< PointSequence >::get_point( pSequence, 0 ) ) );
-- 
2.43.0

