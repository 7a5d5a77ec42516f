// Queries asked of the plain and of the dimensioned kernel.
Q_(point_point_distance, put(o, point_point_distance(p[0], p[1]), point_point_distance_sqrd(p[0], p[1]));)
Q_(point_segment_distance, put(o, point_segment_distance(p[0], s2), point_segment_distance_sqrd(p[0], p[2], p[3]));)
Q_(segment_segment_distance, put(o, segment_segment_distance(s1, s2, cmp), segment_segment_distance_sqrd(p[0], p[1], p[2], p[3], cmp));)
Q_(segment_segment_closest_point, put(o, segment_segment_closest_point(p[0], p[1], p[2], p[3], s, t, c1, c2, cmp)); put(o, s, t, c1, c2);)
Q_(point_segment_closest_point, put(o, point_segment_closest_point(p[0], s2)); put(o, point_segment_closest_point_and_param(p[0], p[2], p[3], t), t);)
Q_(point_polygon_closest_point, G g{p[0], p[1], p[2], p[3]}; put(o, point_polygon_closest_point(p[4], g)); put(o, point_polygon_distance(p[4], g), point_polygon_distance_sqrd(p[4], g));)
Q_(point_polyline_closest_point, Y g{p[0], p[1], p[2], p[3]}; put(o, point_polyline_closest_point(p[4], g)); put(o, point_polyline_distance(p[4], g), point_polyline_distance_sqrd(p[4], g));)
Q_(segment_segment_intersection, P x[2] = {p[0], p[0]}; int n = segment_segment_intersection(p[0], p[1], p[2], p[3], x, cmp); put(o, n); if(n) put(o, x[0]); if(n == e_overlapping) put(o, x[1]);)
Q_(point_aabb_distance, B b(lo, hi); put(o, point_aabb_distance(p[2], b), point_aabb_distance_sqrd(p[2], b)); put(o, point_aabb_closest_point(p[2], b));)
Q_(aabb_aabb_distance, B b(lo, hi), b2(lo2, hi2); put(o, aabb_aabb_distance(b, b2), aabb_aabb_distance_sqrd(b, b2)); put(o, aabb_aabb_intersection(b, b2, cmp));)
Q_(point_obb_distance, O b(p[0], d[0], d[1], r, r); put(o, point_obb_distance(p[2], b), point_obb_distance_sqrd(p[2], b)); put(o, point_obb_closest_point(p[2], b));)
Q_(segment_obb_distance, O b(p[0], d[0], d[1], r, r); put(o, segment_obb_distance(s2, b, cmp), segment_obb_distance_sqrd(s2, b, cmp));)
Q_(ray_aabb_intersection, B b(lo, hi); P x = p[0]; L l = r; put(o, (bool)ray_aabb_intersection(p[2], d[0], b, l, x, cmp)); put(o, l, x);)
Q_(ray_aabb_intersection_, B b(lo, hi); P x = p[0], y = p[1]; L l = r, m = r; put(o, (bool)ray_aabb_intersection(p[2], d[0], b, l, x, m, y, cmp)); put(o, l, x, m, y);)
Q_(ray_segment_intersection, put(o, ray_segment_intersection(p[2], d[0], p[0], p[1], cmp));)
Q_(line_line_intersect, P x = p[0]; put(o, line_line_intersect(p[0], p[1], p[2], p[3], x, s, t, cmp)); put(o, x, s, t);)
Q_(line_line_intersect_, P x = p[0]; put(o, line_line_intersect(p[0], p[1], p[2], p[3], x, cmp), line_segment_intersect(p[0], p[1], p[2], p[3], x, cmp)); put(o, x);)
Q_(angle_from_a_to_b, put(o, angle_from_a_to_b(v[0], v[1]));)
Q_(is_vector_between, put(o, is_vector_between(v[0], v[1], v[2], true, cmp), is_vector_between(v[0], v[1], v[2], false, cmp));)
Q_(dot_product, put(o, dot_product(v[0], v[1]), exterior_product_area(v[0], v[1]), magnitude(v[0]), magnitude_sqrd(v[0]));)
Q_(normalize, D n = normalize(v[0]); put(o, n);)
Q_(segment_mid_point, P a = segment_mid_point(p[0], p[1]), b = segment_mid_point(s1); put(o, a, b);)
Q_(affine, P a = p[0] + v[0]; V b = p[0] - p[1]; V c = v[0] * 2. - v[1]; put(o, a, b, c);)
Q_(motion, P a = p[0] + h * w[0]; Vel b = v[0] / h; put(o, a, b);)
Q_(along, P a = p[0] + r * d[0]; put(o, a);)
Q_(scalar_projection, L a = scalar_projection(v[0], d[1]); put(o, a);)
Q_(vector_projection, V a = vector_projection(v[0], v[1]); put(o, a);)
Q_(normals, V a = left_normal(v[0]), b = right_normal(v[0]), c = perp(v[0]); put(o, a, b, c);)
Q_(bisect, D a = bisect(v[0], v[1]); put(o, a);)
Q_(bisect_unit, D a = bisect(d[0], d[1]); put(o, a);)
Q_(lerp, D a = lerp(d[0], d[1], .25); put(o, a);)
Q_(get_orientation, put(o, get_orientation(p[0], p[1], p[2], cmp), get_orientation(v[0], v[1], cmp));)
Q_(oriented_intersection, put(o, oriented_intersection(p[0], p[1], p[2], p[3], cmp), is_between(p[0], p[1], p[2], true, cmp), is_collinear(p[0], p[1], p[2], cmp));)
T_(get_area, G g{p[0], p[1], p[2], p[3]}; put(o, get_area(g), get_signed_area(g), polygon_length(g)); put(o, get_centroid(g));)
Q_(polyline_length, Y g{p[0], p[1], p[2], p[3]}; put(o, polyline_length(g)); put(o, polyline_mid_point(g));)
T_(point_in_polygon, G g{p[0], p[1], p[2], p[3]}; put(o, point_in_polygon(p[4], g), point_polygon_containment_or_on_border(p[4], g, cmp));)
T_(point_in_convex_polygon, G g{p[0], p[1], p[2]}; put(o, point_in_convex_polygon(p[4], g, cmp));)
T_(point_in_triangle, put(o, point_in_triangle(p[4], p[0], p[1], p[2], cmp));)
Q_(segment_polygon_distance, G g{p[0], p[1], p[2], p[3]}; put(o, segment_polygon_distance(s2, g, cmp), segment_polygon_distance_sqrd(p[2], p[3], g, cmp));)
Q_(segment_polyline_distance, Y g{p[0], p[1], p[2], p[3]}; put(o, segment_polyline_distance(s2, g, cmp), segment_polyline_distance_sqrd(p[2], p[3], g, cmp));)
T_(polygon_polygon_distance, G g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, polygon_polygon_distance(g, g2, cmp), polygon_polygon_distance_sqrd(g, g2, cmp));)
Q_(polyline_polyline_distance, Y g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, polyline_polyline_distance(g, g2, cmp), polyline_polyline_distance_sqrd(g, g2, cmp));)
T_(polygon_polygon_closest_point, G g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, polygon_polygon_closest_point(g, g2, i, k, s, t, c1, c2, cmp)); put(o, s, t, c1, c2);)
T_(polyline_polyline_closest_point, Y g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, polyline_polyline_closest_point(g, g2, i, k, s, t, c1, c2, cmp)); put(o, s, t, c1, c2);)
Q_(segment_polygon_closest_point, G g{p[0], p[1], p[2]}; put(o, segment_polygon_closest_point(s2, g, i, s, t, c1, c2, cmp)); put(o, s, t, c1, c2);)
Q_(segment_polyline_closest_point, Y g{p[0], p[1], p[2]}; put(o, segment_polyline_closest_point(s2, g, i, s, t, c1, c2, cmp)); put(o, s, t, c1, c2);)
Q_(signed_point_line_distance, Ln n(s1); put(o, signed_point_line_distance(p[2], n), point_line_distance(p[2], n));)
Q_(segment_sphere_intersection, C c(p[0], r); N u[2] = {}; P x[2] = {p[0], p[0]}; put(o, segment_sphere_intersection(p[2], p[3], c, u, x, cmp)); put(o, u[0], x[0]);)
Q_(sphere_aabb_intersection, B b(lo, hi); C c(p[2], r); P x = p[0]; put(o, sphere_aabb_intersection(c, b), sphere_aabb_intersection(c, b, x)); put(o, x);)
Q_(sphere_obb_intersection, O b(p[0], d[0], d[1], r, r); C c(p[2], r); put(o, sphere_obb_intersection(c, b));)
Q_(sphere_sphere_intersection, C c(p[0], r), c3(p[2], r); auto z = sphere_sphere_intersection(c, c3, cmp); put(o, z.State); if(z.IntersectionPoint0) put(o, *z.IntersectionPoint0); if(z.IntersectionPoint1) put(o, *z.IntersectionPoint1);)
Q_(circle_circle_intersection, C c(p[0], r), c3(p[2], r); auto z = circle_circle_intersection(c, c3, cmp); put(o, z.State); if(z.IntersectionPoint0) put(o, *z.IntersectionPoint0); if(z.IntersectionPoint1) put(o, *z.IntersectionPoint1);)
Q_(obb_obb_intersection, O b(p[0], d[0], d[1], r, r), b2(p[1], d[0], d[1], r, r); put(o, obb_obb_intersection(b, b2, cmp));)
Q_(moving_obb_obb_intersection, O b(p[0], d[0], d[1], r, r), b2(p[1], d[0], d[1], r, r); T u = h, u2 = h; put(o, moving_obb_obb_intersection(b, w[0], b2, w[1], h, u, u2)); put(o, u, u2);)
Q_(moving_sphere_sphere_intersection, C c(p[0], r), c3(p[2], r); T u = h; P x = p[0]; put(o, (bool)moving_sphere_sphere_intersection(c, c3, w[0], w[1], u, x, cmp)); put(o, u, x);)
Q_(moving_sphere_segment_intersection, C c(p[0], r); T u = h; P x = p[0]; put(o, (bool)moving_sphere_segment_intersection(c, w[0], s2, u, x, cmp)); put(o, u, x);)
Q_(moving_sphere_aabb_intersection, C c(p[0], r); B b(lo2, hi2); T u = h; P x = p[0]; put(o, (bool)moving_sphere_aabb_intersection(c, w[0], b, u, x, cmp)); put(o, u, x);)
Q_(moving_sphere_obb_intersection, C c(p[0], r); O b(p[0], d[0], d[1], r, r); T u = h; P x = p[0]; put(o, (bool)moving_sphere_obb_intersection(c, w[0], b, u, x, cmp)); put(o, u, x);)
Q_(moving_sphere_plane_intersection, C c(p[0], r); Ln n(s2); T u = h; P x = p[0]; put(o, (bool)moving_sphere_plane_intersection(c, w[0], n, u, x, cmp)); put(o, u, x);)
Q_(segment_aabb_intersection, B b(lo2, hi2); put(o, segment_aabb_intersection(p[0], p[1], b));)
T_(polygon_aabb_intersection, G g{p[0], p[1], p[2]}; B b(lo2, hi2); put(o, polygon_aabb_intersection(g, b));)
Q_(polyline_aabb_intersection, Y g{p[0], p[1], p[2]}; B b(lo2, hi2); put(o, polyline_aabb_intersection(g, b));)
Q_(segment_plane_intersection, Ln n(s1); P x = p[0]; N u{}; put(o, segment_plane_intersection(p[2], p[3], n, u, x)); put(o, u, x);)
Q_(bounding_box_intersection, put(o, bounding_box_intersection(p[0], p[1], p[2], p[3], cmp));)
T_(convex_polygons_intersection, G g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, convex_polygons_intersection(g, g2, cmp));)
T_(polyline_signed_curvature_at_index, Y g{p[0], p[1], p[2]}; put(o, polyline_signed_curvature_at_index(g, 1));)
T_(polyline_total_curvature, Y g{p[0], p[1], p[2]}; put(o, polyline_total_curvature(g), polyline_total_absolute_curvature(g));)
T_(polyline_offset, Y g{p[0], p[1], p[2]}; auto z = polyline_offset(g, oriented_left, r, cmp); for(auto& a : z) put(o, a);)
T_(point_polyline_orientation, Y g{p[0], p[1], p[2]}; put(o, point_polyline_orientation(p[4], g, cmp));)
Q_(split_segment, auto z = split_segment(s1, r); for(auto& a : z) put(o, a.get_start());)
Q_(is_segment_in_range_2d, put(o, is_segment_in_range_2d(s1, v[0], v[1], p[4]));)
Q_(is_segment_in_range_2d_, P x[2] = {p[0], p[0]}; put(o, is_segment_in_range_2d(s1, v[0], v[1], p[4], x, cmp));)
Q_(make_rotation_matrix, auto m = make_rotation_matrix(d[0], d[1]); P a = rotate_point(p[0], m, p[1]); put(o, a);)
Q_(grid_traits, grid_traits<L> z(lo[0] - r, lo[0] + 40. * r, lo[1] - r, lo[1] + 40. * r, r); put(o, z.get_x_index(p[1][0]), z.get_width(), z.get_height()); put(o, z.get_cell_centroid(1, 2));)
Q_(fast_voxel_grid_traversal, grid_traits<L> z(lo[0] - r, lo[0] + 40. * r, lo[1] - r, lo[1] + 40. * r, r); auto f = [&](std::size_t a, std::size_t b) { put(o, a, b); }; fast_voxel_grid_traversal(z, s1, f, cmp);)
Q_(get_lower_bound, G g{p[0], p[1], p[2], p[3]}; B b = make_aabb<P>(g); put(o, b.get_lower_bound(), b.get_upper_bound());)
Q_(polyline_polyline_intersect, Y g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; polyline_polyline_intersect(g, g2, [&](intersection_type a, std::size_t i0, std::size_t i1, std::size_t j0, std::size_t j1, const P& x, const P& y) { put(o, a, (double)i0, (double)j0); return false; }, cmp);)
T_(segment_polygon_border_intersect, G g{p[0], p[1], p[2]}; segment_polygon_border_intersect(p[3], p[4], g, [&](intersection_type a, std::size_t i0, std::size_t i1, const P& x, const P& y) { put(o, a, (double)i0, x); return false; }, cmp);)
T_(segment_polygon_intersection, G g{p[0], p[1], p[2]}; segment_polygon_intersection(s2, g, [&](const S& a) { put(o, a.get_start()); }, cmp);)
T_(polygon_polygon_containment, G g{p[0], p[1], p[2]}, g2{p[3], p[4], p[5]}; put(o, polygon_polygon_containment(g, g2, cmp));)
T_(is_polygon_simple, G g{p[0], p[1], p[2], p[3]}; put(o, is_polygon_simple(g, cmp));)
