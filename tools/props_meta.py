# Metadata of the properties; gen.py turns it into properties.jsonl, props.json and MANIFEST.json.
A = 'geometrix/algorithm/'; D = A + 'distance/'; I = A + 'intersection/'
NOTE = ("Exhaustive over all real inputs within the stated bounds of every harness (evidence lists bounds and whether each harness was exhausted); "
        "real-mode harnesses decide exact real arithmetic and leave rounding outside; trusts clang's IR, the pass and runtime in engine/, Z3; a reported violation has been reproduced on the native g++ build.")
NOTES = ("run.py <ID> compiles the harness files of a property against /repo's headers (symbolic build with engine/sxpass.cpp, native build for replay), explores them with Z3 deciding every branch and assertion, "
         "validates witness paths on the native build, writes evidence/<ID>.json. Known genuine defects: KNOWN_FINDINGS.jsonl.")
def P(id, title, statement, quant, why, files, mech, harness, quick_s=75, note='', **kw):
    d = dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, harness=harness, quick_s=quick_s, note=(note + ' ' if note else '') + NOTE); d.update(kw); return d
SEEDS = {}  # planted bugs that are not simply caught
PROPS = [
P('G06', 'Point distances are minima and closest points attain them',
  'The distance from a point to a segment, line, axis-aligned or oriented box, polyline or polygon equals the minimum of the Euclidean distance to the points of that shape (the outline, for a polygon), squared and plain forms agree, and signed line distance is positive exactly on the left. Every closest-point query returns a point of the shape at exactly that distance.',
  'all points against all segments, lines and boxes in 2 and 3 dimensions; polylines and polygons of 2 to 6 vertices', 'The tests check a few literal coordinates; the minimum is over a continuum of points for every input.',
  [D + 'point_%s_distance.hpp' % x for x in ('point', 'segment', 'line', 'aabb', 'obb', 'polyline', 'polygon')] + [D + 'point_%s_closest_point.hpp' % x for x in ('segment', 'polyline', 'polygon')],
  [('clamped projection onto the segment', D + 'point_segment_distance.hpp'), ('per-axis excess over the box', D + 'point_aabb_distance.hpp'), ('minimum over the edges', D + 'point_polygon_distance.hpp')], ['point_distance.cpp']),
P('G07', 'Segment-segment closest points are globally optimal',
  'For any two planar segments, including point-like and parallel ones, the closest-point query returns parameters in [0,1], the points at those parameters, and their squared distance, and no pair of points of the two segments is nearer. The plain and squared distance entry points agree with it, and swapping the segments does not change the distance.',
  'all pairs of planar segments (first one placed on an axis, at one of several oblique positions, or parallel to the second; arbitrary pairs in the thorough tier)', 'Tests sample a handful of pairs; optimality is over all pairs of points of all pairs of segments and the clamping cases are easy to miss.',
  [D + 'segment_segment_closest_point.hpp', D + 'segment_segment_distance.hpp'], [('clamped two-parameter minimisation', D + 'segment_segment_closest_point.hpp')], ['segment_distance.cpp'], 60),
P('G08', 'Distances between chains and boxes equal the minimum over all edge pairs',
  'The distance between a segment, polyline, polygon outline or box outline and another such shape is the minimum over all pairs of their edges (the closing edge of a polygon included), whichever search strategy the size of the shapes selects. The closest-pair queries return the indices, parameters and points of a pair that attains it, and the distance of two axis-aligned boxes is that of their gaps.',
  'chains of 3 to 12 vertices at every horizontal offset and several vertical ones, segments ending anywhere on several lines, all pairs of planar boxes', 'The pruned search is only entered from six vertices on and its answer depends on the relative position of the chains, of which tests take a few.',
  [D + x for x in ('segment_polyline_distance.hpp', 'segment_polygon_distance.hpp', 'polyline_polyline_distance.hpp', 'polygon_polygon_distance.hpp', 'segment_polyline_closest_point.hpp', 'segment_polygon_closest_point.hpp', 'polyline_polyline_closest_point.hpp', 'polygon_polygon_closest_point.hpp', 'segment_obb_distance.hpp', 'aabb_aabb_distance.hpp')],
  [('branch and bound over index ranges with box distances', D + 'polyline_polyline_distance.hpp'), ('closing edges', D + 'polygon_polygon_distance.hpp')], ['poly_distance.cpp'], 90),
P('G09', 'Line, segment and ray intersections report exactly the shared points',
  'Two lines, segments, a line and a segment, or a ray and a segment or line are reported as meeting exactly when they share a point, and the reported kind tells a proper crossing, contact at an end and collinear overlap apart. Reported points and parameters lie on both figures (the nearest point along a ray), an overlap is reported with its whole extent, and overloads that only differ in what they return agree.',
  'all pairs of lines, segments, rays and hyperplanes in the plane (one of them placed on an axis or on fixed oblique positions where stated), coplanar and skew segments in space; ends within a policy tolerance of the other figure', 'Classification changes at degenerate positions (parallel, touching, collinear) that tests sample a few of; the statement is over all positions.',
  [A + 'line_intersection.hpp', A + 'orientation.hpp', A + 'split_segment.hpp', A + 'segment_mid_point.hpp', I + 'segment_segment_intersection.hpp', I + 'ray_segment_intersection.hpp', I + 'ray_line_intersection.hpp', I + 'segment_plane_intersection.hpp'],
  [('two parameters from determinants', I + 'segment_segment_intersection.hpp'), ('collinear case by betweenness', I + 'segment_segment_intersection.hpp'), ('parallel ray branch', I + 'ray_segment_intersection.hpp')], ['linear_intersection.cpp'], 60),
P('G10', 'Lines, rays and segments hit boxes, circles, capsules and triangles correctly',
  'A segment, ray or line is reported as hitting an axis-aligned box, circle, capsule or triangle exactly when it contains a point of that closed figure. A reported parameter is the first contact along the direction of travel, the reported point is the point at that parameter and lies on the figure, and the predicate and the reporting overloads agree.',
  'all circles, boxes and capsules met by segments and rays of every slope (placements and directions per harness), tangents within a policy tolerance', 'Slab and quadratic tests have degenerate branches (parallel to a side, starting inside, tangent) that depend on exact positions.',
  [I + x for x in ('segment_aabb_intersection.hpp', 'ray_aabb_intersection.hpp', 'ray_sphere_intersection.hpp', 'segment_sphere_intersection.hpp', 'segment_capsule_intersection.hpp', 'segment_triangle_intersection.hpp', 'sphere_polyline_intersection.hpp')],
  [('slab clipping', I + 'ray_aabb_intersection.hpp'), ('quadratic in the parameter', I + 'ray_sphere_intersection.hpp'), ('end caps', I + 'segment_capsule_intersection.hpp')], ['ray_box_sphere.cpp'], 100),
P('G11', 'Moving circles, boxes and convex polygons report their first time of contact',
  'For a circle, oriented box or convex polygon moving with constant velocity the collision queries report a contact exactly when the figures meet at some time of the queried interval, the reported time is the first at which they touch (zero when they overlap at the start), the figures do touch at that time and are apart before, and the reported contact point lies on both. The result also says rightly whether the circle touched or overlapped the line at the start, whether it moves away from it and whether an end point is what it meets.',
  'all start positions, radii, and velocities (directions per harness) against circles, lines, segments, boxes and polygons', 'The first contact depends on which feature (side, corner, cap) is hit first; tests take a few straight approaches.',
  [I + x for x in ('moving_sphere_sphere_intersection.hpp', 'moving_sphere_plane_intersection.hpp', 'moving_sphere_segment_intersection.hpp', 'moving_sphere_aabb_intersection.hpp', 'moving_sphere_obb_intersection.hpp', 'moving_obb_obb_intersection.hpp', 'moving_separating_axis_convex_polygons.hpp')],
  [('ray against the expanded box, then corner capsules', I + 'moving_sphere_aabb_intersection.hpp'), ('relative velocity', I + 'moving_sphere_sphere_intersection.hpp')], ['moving_sphere.cpp'], 100),
P('G12', 'Overlap tests between boxes, circles and convex shapes match their point sets',
  'Two boxes (axis-aligned or oriented), convex polygons, circles, a polygon or polyline and a box, or a triangle and a box are reported as overlapping exactly when they share a point, whichever operand comes first. Circle pairs are classified (apart, tangent, crossing, nested, same) by their distance and radii with crossing points on both circles. Convex intersection visits points of both polygons only, including every vertex of one inside the other, and containment queries hold exactly when every point is contained.',
  'all pairs of planar boxes and circles (tangent ones within a policy tolerance), oriented boxes of any angle, polygons of 3 to 13 vertices at every horizontal offset', 'Overlap changes at touching positions and depends on every edge; tests hold a few placements.',
  [I + x for x in ('aabb_aabb_intersection.hpp', 'obb_obb_intersection.hpp', 'separating_axis_convex_polygons.hpp', 'convex_polygon_polygon_intersection.hpp', 'polygon_aabb_intersection.hpp', 'polyline_aabb_intersection.hpp', 'sphere_aabb_intersection.hpp', 'sphere_obb_intersection.hpp', 'circle_circle_intersection.hpp', 'sphere_sphere_intersection.hpp')] + [A + 'eberly_triangle_aabb_intersection.hpp', 'geometrix/primitive/oriented_bounding_box.hpp', 'geometrix/primitive/axis_aligned_bounding_box.hpp'],
  [('separating axes', I + 'separating_axis_convex_polygons.hpp'), ('advance along both boundaries', I + 'convex_polygon_polygon_intersection.hpp'), ('clamped centre', I + 'sphere_aabb_intersection.hpp')], ['overlap.cpp'], 90),
P('G13', 'Point-in-polygon and containment answers match the enclosed region',
  'A point strictly inside a simple polygon (either orientation, convex or not) is reported inside and one strictly outside is not; pieces that tile a region claim every point exactly as often as the region does. The classifying query tells interior, exterior, border and vertex apart exactly; triangle, convex polygon and convex quadrilateral tests accept exactly the closed region of a counterclockwise figure. A polygon or polyline is reported as contained exactly when none of its points is outside.',
  'all points against simple polygons of 3 to 8 vertices and points of eight lines against ones of up to 13 (both orientations, several first vertices), all triangles, chains at every offset', 'Crossing counts change at vertices, horizontal edges and the border; tests sample a few points.',
  [A + 'point_in_polygon.hpp', A + 'point_sequence/polygon_polygon_containment.hpp', A + 'point_sequence/polygon_polyline_containment.hpp', I + 'segment_projects_outside_polygon.hpp'],
  [('half-open crossing parity', A + 'point_in_polygon.hpp'), ('left and right crossing parities', A + 'point_in_polygon.hpp'), ('midpoints between contacts', I + 'segment_projects_outside_polygon.hpp')], ['point_in.cpp'], 90),
P('G14', 'Intersections of chains visit exactly the pairs of edges that meet',
  'Intersecting a segment or polyline with a polyline or polygon outline calls the visitor once for every pair of edges that share a point, in order, with their indices, the kind of contact and points on both edges, and stops only when the visitor asks to. A polygon is simple exactly when no two edges meet other than neighbours at their common vertex (outlines of holes included); self-intersection reports exactly the offending pairs; the pieces of a segment inside a polygon cover exactly the points of it that lie inside, and a segment meeting the outline is said to project outside exactly when one of its points is outside.',
  'segments from fixed starts to any end, chains of up to thirteen points at every horizontal offset, chains with one vertex anywhere', 'Which edges touch changes at vertices and collinear stretches; tests count hits on a couple of layouts.',
  [I + x for x in ('segment_polyline_intersection.hpp', 'segment_polygon_intersection.hpp', 'polyline_polyline_intersection.hpp', 'segment_segment_intersection.hpp', 'segment_projects_outside_polygon.hpp')] + [A + 'point_sequence/self_intersection.hpp', A + 'point_sequence/is_polygon_simple.hpp'],
  [('edge loop with early stop', I + 'polyline_polyline_intersection.hpp'), ('adjacent edges', A + 'point_sequence/is_polygon_simple.hpp'), ('midpoints between contacts', I + 'segment_polygon_intersection.hpp')], ['chain_intersection.cpp'], 75),
P('G15', 'Measuring, cutting and clipping a polyline agree with arc length',
  'The length of a polyline or polygon is the sum of its edge lengths (closing edge included for polygons); the point at an arc position, the two parts of a split, the parts left by clipping the front, back or both ends, the middle point and the lengths before and after a point on the chain all describe the same place: parts join to the whole without losing or repeating vertices and have the lengths asked for.',
  'axis-parallel chains with any leg lengths and fixed chains of 1 to 4 pieces; any position from the start to beyond the end', 'A position may fall on a vertex, on an end or inside any piece; tests cut in the middle of one chain.',
  [A + 'point_sequence/' + x for x in ('length.hpp', 'polyline_split.hpp', 'clip_polyline_ends.hpp', 'polyline_mid_point.hpp')],
  [('running length against the position', A + 'point_sequence/polyline_split.hpp'), ('cumulative lengths and lower_bound', A + 'point_sequence/clip_polyline_ends.hpp')], ['chain_cut.cpp'], 60),
P('G16', 'Simplifying, cleaning, offsetting and orienting chains keep their promises',
  'Ramer-Douglas-Peucker keeps both ends and the order, and drops only points within the tolerance of the line that replaces them. Removing collinear points leaves exactly the corners whatever the first vertex, coalescing leaves no two neighbours within the tolerance and drops only such points, and the reported indices agree. Every vertex of an offset polyline lies at the offset, on the side asked for, from both edges it joins. A point is on the side of a polyline from which it reaches its nearest place. Signed curvature has the sign of the turn, and pieces cut at inflections join to the input.',
  'chains of 3 to 6 vertices with one or two free, and of up to a dozen with one slid; any tolerance, offset and position', 'Which vertex is kept depends on all the others, and straight joints or the first vertex are special places tests do not visit.',
  [A + 'point_sequence/' + x for x in ('ramer_douglas_peucker_algorithm.hpp', 'remove_collinear_points.hpp', 'point_polyline_orientation.hpp', 'polyline_offset.hpp', 'curvature.hpp')],
  [('recursive halves share the split vertex', A + 'point_sequence/ramer_douglas_peucker_algorithm.hpp'), ('crossing of neighbouring offset lines', A + 'point_sequence/polyline_offset.hpp'), ('wedge at the nearest vertex', A + 'point_sequence/point_polyline_orientation.hpp')], ['chain_shape.cpp'], 60),
P('G17', 'Measures and comparisons of vertex sequences: bounds, area, congruence',
  'The bounds of a sequence or of part of it contain every point and are touched on each side. The signed area of a polygon is additive over a cut along a diagonal, changes sign on reversal and is independent of the first vertex; the centroid weighs the parts by area. Segment ranges list every edge once, closing and hole edges included. Sequences are equal exactly when every point agrees within the policy; chains are congruent exactly when a rotation and translation maps one onto the other. The border edge found for a point holds it or is the nearest, and the stretch of outline around it has the requested extent both ways.',
  'any points for sequences of 2 to 5 vertices; rectangles of any size for border stretches; any rotation and translation', 'Wrap-around, the choice of first vertex and sub-ranges are where these differ; tests measure a couple of fixed polygons.',
  ['geometrix/primitive/point_sequence_utilities.hpp', A + 'polygon_with_holes_as_segment_range.hpp', A + 'point_sequence/find_subsequence.hpp', A + 'point_sequence/is_congruent.hpp'],
  [('running minimum and maximum', 'geometrix/primitive/point_sequence_utilities.hpp'), ('arc length both ways', A + 'point_sequence/find_subsequence.hpp'), ('lengths and turns', A + 'point_sequence/is_congruent.hpp')], ['sequences.cpp'], 60),
P('G05', 'Planar predicates agree with the exact signs they stand for',
  'Orientation of three points (and of two vectors) is left, right or straight exactly as the determinant says, also within a tolerance; a point is between two others, a vector within a sweep, a segment vertical or horizontal exactly when coordinates say so. Slope, ordinate and abscissa lie on the line through two points. A point or segment is in front of, behind, on or across a line by its side; a point is in a circumcircle exactly when nearer the centre than the corners; two segments are classified as crossing left-to-right or right-to-left, overlapping or sharing an end; a segment meets a cone exactly when they share a point.',
  'all points, vectors, lines, counterclockwise triangles and pairs of segments (crossing side: neither end of the first inside the second); cones up to half a turn', 'A predicate is a sign of a polynomial in all coordinates and decides branches everywhere; tests evaluate it at a few integers.',
  ['geometrix/utility/utilities.hpp', A + 'orientation.hpp', A + 'classify_simplex_to_plane.hpp', A + 'is_segment_in_range.hpp', A + 'point_in_circumcircle.hpp', 'geometrix/algebra/exterior_product.hpp'],
  [('orientation', A + 'orientation.hpp'), ('is_between, is_vector_between', 'geometrix/utility/utilities.hpp'), ('cone against segment', A + 'is_segment_in_range.hpp')], ['predicates.cpp'], 60),
P('G24', 'Orders on points, segments and directions are strict weak orders',
  'Every comparison object used to sort or key containers (lexicographic and reverse order of points, by one dimension, segments by lower then upper end, segments as intervals, pairs, vectors and points by angle, the pseudo angle) is irreflexive, transitive and has transitive ties, and orders by exactly what its name says whichever way a segment is drawn. Adding or removing a segment of a line to or from a set of separate ones yields separate, non-empty pieces covering exactly the union or difference. Angles are normalised by whole turns into their range; min, max, clamp, sign and absolute value are what they say.',
  'all points, segments, vectors; two separate intervals and a third anywhere on an axis or slanted line; angles up to fifty turns', 'A violated order corrupts containers only for particular triples and ties that tests do not build.',
  ['geometrix/utility/utilities.hpp', 'geometrix/utility/vector_angle_compare.hpp', 'geometrix/utility/point_angle_compare.hpp', 'geometrix/tensor/numeric_sequence_compare.hpp', 'geometrix/tensor/is_null.hpp'],
  [('comparers', 'geometrix/utility/utilities.hpp'), ('half turn first, then cross product', 'geometrix/utility/vector_angle_compare.hpp'), ('cases of interval overlap', 'geometrix/utility/utilities.hpp')], ['orders.cpp'], 90),
P('G04', 'Comparison policies are consistent: exactly one of less, equal, greater',
  'For every comparison policy (direct, absolute, relative, fraction and per-type mapped) and every pair of numbers exactly one of less, equal and greater holds, less-or-equal and greater-or-equal are the matching unions, swapping operands mirrors the answer, less never contradicts the true order, equal numbers are equal, and the functors and free functions agree with the policy. Equality means a difference within the tolerance as documented: absolute, relative to one plus the sizes, or a fraction of both (either, when weak) with the absolute factor next to zero.',
  'all pairs of finite doubles bit-precisely (direct, absolute), all reals and tolerances up to one half otherwise', 'Every algorithm branches on these; tests compare two values at one tolerance.',
  ['geometrix/numeric/number_comparison_policy.hpp', 'geometrix/utility/floating_point_comparison.hpp'],
  [('policies', 'geometrix/numeric/number_comparison_policy.hpp'), ('safe division', 'geometrix/utility/floating_point_comparison.hpp')], ['policies.cpp'], 60),
P('G01', 'Vector and point expressions compute the algebra of their coordinates',
  'Sums, differences, negation, scaling, division, reciprocal, dot and cross product, areas, volumes and magnitudes of vectors and points in two and three dimensions, however they are nested and even when the target is an operand, equal the coordinate formulas. Helpers keep their promise: normalising keeps direction and gives length one, normals turn the right way, projections leave an orthogonal rest, bisectors are unit vectors at equal angles in the counterclockwise sweep, and the between-directions test is exact.',
  'all real vectors, points and scalars for every operation listed, in the plane and in space', 'Every other algorithm is written in these expressions; tests evaluate them on one or two literal operands each.',
  ['geometrix/algebra/functions/%s.hpp' % x for x in ('addition', 'subtraction', 'negate', 'multiplication', 'division', 'reciprocal', 'dot_product', 'cross_product', 'magnitude', 'normalize')] + ['geometrix/algebra/%s.hpp' % x for x in ('expression_generator', 'dot_product', 'exterior_product', 'vector_projection')] + ['geometrix/arithmetic/vector/%s.hpp' % x for x in ('bisect', 'perp', 'normalize', 'magnitude', 'lerp', 'is_antiparallel')] + ['geometrix/utility/utilities.hpp'],
  [('element-wise evaluation of the expression tree', 'geometrix/algebra/expression_generator.hpp'), ('angle bisector', 'geometrix/arithmetic/vector/bisect.hpp'), ('sweep test by determinants', 'geometrix/utility/utilities.hpp')], ['algebra.cpp'], 60),
P('G02', 'Matrix expressions, determinants, inverses, LUP and rotations are exact',
  'Sum, difference, scaling, product, transpose and image of a vector, nested or assigned to an operand, equal their textbook elements; determinants up to four by four equal the cofactor expansion; an inverse is two-sided and is refused exactly for a zero determinant; traces, rows, columns, minors and composed blocks pick the right elements; LUP gives a permutation and factors whose product is the permuted matrix and solves every right side. A rotation built from two unit vectors takes the first to the second, keeps lengths and orientation and turns points about the given origin.',
  'all real matrices up to 3x3 (determinant and minors 4x4, products 2x3 by 3x4), LUP for all 2x2, 3x3 with two free columns, 4x4 with two free elements, 5x5 and 6x6 with one; element placement, sums and scaling for all sizes to 7x7 and a dozen to 16x16, dot products to 10 coordinates; all unit vectors and points', 'Tests multiply and invert one literal matrix; pivoting order and element placement depend on the values.',
  ['geometrix/arithmetic/matrix_arithmetic.hpp', 'geometrix/arithmetic/detail/determinant.hpp', 'geometrix/arithmetic/matrix/trace.hpp', 'geometrix/algebra/lup_decomposition.hpp', 'geometrix/algebra/detail/preprocessed/lup_decomposition.hpp', 'geometrix/tensor/detail/preprocessed/matrix.hpp', 'geometrix/tensor/detail/preprocessed/as_matrix.hpp', 'geometrix/algebra/detail/preprocessed/dot_product.hpp', 'geometrix/algebra/functions/multiplication.hpp', 'geometrix/tensor/matrix.hpp', 'geometrix/tensor/matrix_minor_adaptor.hpp', 'geometrix/tensor/composite_matrix.hpp', 'geometrix/tensor/identity_matrix.hpp', A + 'rotation.hpp'] + ['geometrix/algebra/functions/%s.hpp' % x for x in ('matrix_product', 'transpose', 'inverse', 'determinant')],
  [('adjugate over determinant', 'geometrix/arithmetic/matrix_arithmetic.hpp'), ('partial pivoting', 'geometrix/algebra/detail/lup_decomposition.hpp'), ('rotation from dot and area', A + 'rotation.hpp')], ['matrix.cpp', 'matrix_sizes.cpp', 'lup_runtime.cpp'], 90),
P('G23', 'Changing the reference frame names the same point',
  'Converting between cartesian and polar frames in two and three dimensions gives a non-negative radius equal to the distance from the origin and angles whose cosine and sine recover the coordinates, so there and back is the identity, and a frame keeps its own coordinates. In homogeneous coordinates an affine matrix moves points by its linear part and translation, vectors by the linear part only, and two maps compose.',
  'all points off the origin (plane) or off the axis (space) up to 1000 in each coordinate, all radii, angles to one turn either way, all affine matrices', 'Tests convert one point on an axis; every quadrant and sign combination matters.',
  ['geometrix/space/%s.hpp' % x for x in ('cartesian_polar_transformation', 'polar_cartesian_transformation', 'reference_frame_adaptor', 'reference_frame_transformation', 'cartesian_access_traits', 'polar_access_traits')] + ['geometrix/tensor/homogeneous_adaptor.hpp'],
  [('angle terms', 'geometrix/space/cartesian_polar_transformation.hpp'), ('product of sines', 'geometrix/space/polar_cartesian_transformation.hpp'), ('implied last coordinate', 'geometrix/tensor/homogeneous_adaptor.hpp')], ['frames.cpp'], 60, 'Sine, cosine and arc tangent are modelled by their defining relations.'),
P('G19', 'Grids locate points, keep cell data apart and visit the cells crossed',
  'A point of a grid lies in the cell its indices name and is contained exactly within the bounds; cell centres, corners and boxes agree with the indices; data stored at a point is read at another exactly when they share a cell, in dense and hashed grids. Clipping to a box accepts exactly the segments meeting it and keeps exactly the common part. Walking a segment visits each cell it crosses, no cell it does not meet, none twice, from the cell of its start to the cell of its end, in adjacent steps. Filling a convex polygon with convex holes visits exactly the cells it meets outside the holes.',
  'grids up to 7x11 cells (any origin and cell size for location), segments with one end free over the grid or beyond it, triangles with one free corner, polygons with holes under a free move of one cell', 'Tests walk a few literal segments; ties at corners, directions and clipped ends decide which cells are skipped.',
  [A + '%s.hpp' % x for x in ('grid_traits', 'grid_2d', 'hash_grid_2d', 'cohen_sutherland_line_clipping', 'fast_voxel_grid_traversal', 'orientation_grid_traversal', 'floodfill_grid_traversal')],
  [('index by division and truncation', A + 'grid_traits.hpp'), ('step towards the nearer border', A + 'fast_voxel_grid_traversal.hpp'), ('column bounds', A + 'floodfill_grid_traversal.hpp'), ('outcodes', A + 'cohen_sutherland_line_clipping.hpp')], ['grids.cpp'], 90, 'bresenham_grid_traversal does not compile and is not covered.'),
P('G20', 'A kd-tree finds exactly the points in a box; boxes bound exactly their points',
  'Searching a kd-tree with a box visits every stored point in the box, duplicates included, and no point outside it, for any order and any ties of the points. A box contains a point, another box or meets another box exactly when the coordinates say so, borders included; boxes of segments and point ranges are the least ones, expanding gives the least common box, and corners and tuples name the same box.',
  'one to three free points, up to seven given ones with one free, any box or one of three, in the plane; 4 to 33 given ones with boxes slid along an axis; six points in space and 23 with slid boxes; all boxes, segments and triples of points', 'Ties on a median and boxes touching a node decide which subtree is taken whole; tests search one random set.',
  [A + 'kd_tree.hpp', A + 'median_partitioning_strategy.hpp', 'geometrix/primitive/axis_aligned_bounding_box.hpp', 'geometrix/primitive/point_sequence_utilities.hpp'],
  [('descent and containment of subtree boxes', A + 'kd_tree.hpp'), ('median split', A + 'median_partitioning_strategy.hpp'), ('box relations', 'geometrix/primitive/axis_aligned_bounding_box.hpp')], ['kd.cpp'], 90),
P('G21', 'Partition trees classify points, find distances and trace rays exactly',
  'For any point, both kinds of partition tree built from the edges of a polygon, whatever the first edge or selection policy and also when edges are inserted later, answer solid or empty, inside or outside, or boundary exactly as the polygon does. The solid-leaf tree reports the least distance to an edge and an edge at it; a ray from empty space hits the first solid at the distance and edge reported or misses all. Painting visits every edge not seen edge-on in whole, back to front. A simplex is classified and split by a line into its parts on either side.',
  'nine solid and six node shapes in up to nine edge orders, a room of 21 edges and a crown of 15 (points on eight lines), any point; triangles and quadrilaterals with a free vertex; rays in six directions from any point within 100; all segments against six lines', 'Points, rays and vertices on splitting lines are the cases tests do not build.',
  [A + '%s.hpp' % x for x in ('solid_leaf_bsp_tree', 'node_bsp_tree_2d', 'classify_simplex_to_plane', 'hyperplane_partition_policies', 'line_intersection')] + ['geometrix/primitive/hyperplane_traits.hpp', 'geometrix/primitive/line.hpp'],
  [('ray and point descent', A + 'solid_leaf_bsp_tree.hpp'), ('location, insertion, painting', A + 'node_bsp_tree_2d.hpp'), ('split', A + 'hyperplane_partition_policies.hpp')], ['bsp.cpp'], 120, 'negation and get_partition of node_bsp_tree_2d do not compile and are not covered.'),
P('G22', 'Meshes connect, locate and sample triangles and find the vertices in sight',
  'A mesh keeps every triangle with its corners in counterclockwise order and names, for each side, exactly the triangle sharing it. Location returns a triangle containing the point exactly when one does. Random positions fall in the triangle whose share of the area was drawn, for every number from zero to one. From any point of the mesh the search for visible vertices ends, reports no vertex hidden by the border and every vertex in plain sight. The helpers are exact: segment against cone with the part inside, triangle against box, circumcircle side, middle and even splitting of segments.',
  'six meshes of two to six triangles with up to two inner vertices and one of 24 (queries and origins on lines), any query point within 20, any origin strictly inside, on an edge, within 1e-9 of one or at a corner; one fan with a free inner vertex; all segments and origins against twelve cones under a half turn; three triangles in both orientations against any box; splits into up to eight', 'Which cells, triangles and sight lines meet depends on exact alignments that tests do not try.',
  [A + '%s.hpp' % x for x in ('mesh_2d', 'visible_vertices_mesh_search', 'is_segment_in_range', 'eberly_triangle_aabb_intersection', 'point_in_circumcircle', 'split_segment', 'segment_mid_point')],
  [('grid cache, adjacency, weights', A + 'mesh_2d.hpp'), ('cone narrowing', A + 'visible_vertices_mesh_search.hpp'), ('five separating axes', A + 'eberly_triangle_aabb_intersection.hpp')], ['mesh.cpp'], 120, 'Visibility is checked where no other vertex lies on the sight line. triangle_complex and the mesh factory need libraries that are not installed.'),
P('G25', 'The plane sweep reports every intersection of segments, once, in order',
  'Sweeping a set of segments calls the visitor in strictly increasing lexicographic order of points, each time with two or more segments which all contain the point. Two segments with one common point, crossing or touching at ends, are reported together at it and nowhere else; overlapping ones are reported together at two points or more; segments apart never are. This holds for vertical, collinear and concurrent segments, in any order and direction.',
  'one of four segments and any other; two with a third of one free end or a third freely moved; a square or a star of three or four with one free end; three collinear ones with two free ends; webs of eleven segments with one slid or turned; a vertex where up to eleven end, begin or pass', 'The order of the sweep line changes at each event; ties, verticals and concurrency are history-dependent.',
  [A + '%s.hpp' % x for x in ('bentley_ottmann_segment_intersection', 'bentley_ottmann_sweep', 'intersection/segment_segment_intersection')],
  [('event handling and order of the sweep line', A + 'bentley_ottmann_segment_intersection.hpp'), ('queue', A + 'bentley_ottmann_sweep.hpp')], ['sweep.cpp'], 90, 'Proper segments only; exact arithmetic.'),
P("G26","Chained edges give back the polygons and polylines they came from",
"A doubly connected edge list fed the edges of closed rings and open chains, in any order and in one go or step by step, yields exactly those rings as polygons (up to the starting corner) and exactly those chains as polylines, corners closer than the tolerance being one; a copy, a moved or an assigned list behaves as the original.",
"Components with out-degree at most one; the edges of a triangle, a quadrilateral, a pentagon and two polylines placed at any position with |coordinate| <= 64, in every order (720 sampled by a stride of 83: 60 orders of three components together); up to twelve edges in one ring and five components in ten or twelve orders; ends moved by up to 0.0004 under a tolerance of 0.001; real arithmetic.",
"The existing test chains one fixed list of segments; order, translation, merging of nearly equal ends and copies of the list are not exercised.",
["geometrix/algorithm/doubly_connected_edge_list.hpp"],
[("doubly_connected_edge_list::add_edge, calculate_point_sequences","geometrix/algorithm/doubly_connected_edge_list.hpp"),("copy and move construction and assignment","geometrix/algorithm/doubly_connected_edge_list.hpp")],
["dcel.cpp"],300,"Components that branch (a ring with a tail) are outside the list's contract of one outgoing edge per vertex."),
P('G27', 'Numeric wrappers, units, cached calls and colours keep the values inside',
  'A tagged quantity computes, compares, assigns and swaps exactly as the number inside, whichever side is tagged, for every double including infinities and not-a-numbers. Geometry over dimensioned numbers gives exactly the numbers of the same geometry without dimensions. A memoized function returns what the function returns and calls it once for each distinct key. A colour follows its hue, saturation and value within one step of each channel; index sequences count from zero.',
  'all pairs of doubles (bit-precise) for arithmetic, comparison and the rounding functions; all reals for sine, cosine, root, arc sine, arc cosine and atan2; three calls with any keys and recursion up to eight; units over vectors, orientation, segment intersection, closest points, location and measures of small shapes; every hue at four saturations and values, every saturation or value at twelve hues', 'Tests compute single values; operands on either side, special numbers and equal keys are not tried.',
  ['geometrix/utility/%s.hpp' % x for x in ('tagged_quantity', 'memoize', 'golden_ratio_color_generator', 'integer_sequence')] + ['geometrix/numeric/boost_units_quantity.hpp', 'geometrix/arithmetic/boost_units_arithmetic.hpp'],
  [('operators by macro', 'geometrix/utility/tagged_quantity.hpp'), ('cache lookup', 'geometrix/utility/memoize.hpp'), ('sectors of the hue', 'geometrix/utility/golden_ratio_color_generator.hpp')], ['wrap.cpp', 'units.cpp'], 90, 'Exponentials and logarithms are not modelled.'),
P('G28', 'Shapes and tensors keep their coordinates; assignment evaluates first',
  'Every way of building, copying, moving, assigning and reading points, vectors, matrices, segments, round and cornered shapes, vertex sequences and polygons with holes gives back the coordinates put in, changes nothing else and leaves arguments that were not moved as they were. Rows, columns and vectors seen as matrices name the same elements. Assigning an expression to a vector or point, also by compound assignment, evaluates it as a whole first, so operands may include the target.',
  'all coordinates; two and three dimensions; 2x2, 3x3 and 2x3 matrices; sequences of two to four points in five kinds of container', 'Overload choice between variables, constants and temporaries and targets that are operands are not sampled by tests.',
  ['geometrix/primitive/%s.hpp' % x for x in ('point', 'segment', 'polygon', 'polyline', 'polygon_with_holes', 'sphere', 'capsule', 'rectangle', 'triangle', 'array_point_sequence', 'deque_point_sequence', 'vector_point_sequence')] + ['geometrix/tensor/detail/numeric_sequence_n.hpp', 'geometrix/tensor/detail/vector_n.hpp', 'geometrix/tensor/detail/point_n.hpp', 'geometrix/tensor/matrix_row.hpp', 'geometrix/tensor/matrix_column.hpp', 'geometrix/tensor/vector_matrix_adaptors.hpp', 'geometrix/tensor/numeric_sequence.hpp'],
  [('assignment of expressions', 'geometrix/tensor/detail/numeric_sequence_n.hpp'), ('outline and holes', 'geometrix/primitive/polygon_with_holes.hpp'), ('copies and moves', 'geometrix/primitive/polygon.hpp')], ['access.cpp'], 60, 'geometrix::assign copies coordinate by coordinate and is not promised to evaluate first.'),
P('G29', 'Fixed-point numbers compute exactly or to the last place, or refuse',
  'A fixed-point number built from a whole number, a floating-point number, another scale or a raw count has the value it was built from, rounded as its policy says when the scale is too coarse; reading it back as a whole number truncates and as floating point gives the count over the scale. Sums, differences, steps, negation and comparisons, also with plain numbers on either side, are exact; products, quotients and remainders are within one last place; scales chosen at run time behave like those chosen at compile time. A result or input that does not fit is refused by an exception rather than wrapped, and no operation within its range runs into undefined integer behaviour. Quantities with units hold to the same arithmetic; promoting integers for division loses nothing.',
  'all raw values of 16 and 32 bits, decimal scales of 0 to 4 places and binary ones of 0 to 8, both compile-time and run-time', 'Tests try a dozen literals; overflow, the sign of halves and rare carries sit at single values among 2^64 pairs.',
  ['geometrix/numeric/fixed_point.hpp', 'geometrix/numeric/fixed_point_traits.hpp', 'geometrix/numeric/detail/fixed_point.hpp', 'geometrix/numeric/boost_units_quantity_fixed_point.hpp', 'geometrix/arithmetic/arithmetic_promotion_policy.hpp'],
  [('arithmetic on scaled counts', 'geometrix/numeric/fixed_point.hpp'), ('scaling up and down, rounding', 'geometrix/numeric/fixed_point_traits.hpp')], ['fixed.cpp'], 60, 'Doubles are exact reals; sums of raw counts that overflow the format are outside the claim (the library adds them unchecked), as is x / x.min().', engine='ix', design='Decided by ix.py over Z3 integers (see above).'),
P('G30', 'Foreign types behave as the points, vectors and matrices they are declared to be',
  'A type of the user or of another library (a tuple, a class with member functions by name, a class with a subscript, a structure adapted as a sequence) declared to be a point, vector or matrix is read, written, constructed, copied and assigned component by component in its declared order, rows and columns in theirs, and takes part in arithmetic, distances, orientation, point-in-polygon and segment intersection tests with the same results as the library\'s own types, also when mixed with them.',
  'every value of the coordinates; two and three dimensions, matrices of 2x2 and 3x3', 'Tests read back a literal from each adapter; the algorithms over adapted types are sampled nowhere.',
  ['geometrix/tensor/tuple_vector_access_policy.hpp', 'geometrix/tensor/fusion_vector_access_policy.hpp', 'geometrix/tensor/fusion_matrix_access_policy.hpp', 'geometrix/tensor/index_operator_vector_access_policy.hpp', 'geometrix/tensor/index_operator_matrix_access_policy.hpp', 'geometrix/tensor/fusion_vector.hpp', 'geometrix/tensor/fusion_matrix.hpp', 'geometrix/tensor/numeric_sequence.hpp', 'geometrix/utility/member_function_fusion_adaptor/adapt_member_function.hpp'],
  [('element access by index', 'geometrix/tensor/index_operator_vector_access_policy.hpp'), ('element access in tuples', 'geometrix/tensor/tuple_vector_access_policy.hpp'), ('accessors by name', 'geometrix/utility/member_function_fusion_adaptor/adapt_member_function.hpp')], ['foreign.cpp'], 60, 'Assignment through member functions and proxies is outside: those adapters are read-only through the library.'),
]
