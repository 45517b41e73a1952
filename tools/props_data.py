T = "runtime monitoring: exact-arithmetic oracle over generated executions of the real code, with overflow/assertion sanitizers"
EX = "Exploration: held on every execution generated this run; says nothing about inputs never generated. Trusts the harness's own big-integer arithmetic."

prop("C01", "Orientation of three points is the exact sign",
     "For any three finite points the reported orientation (left, right or collinear) is the sign of the exact signed area of the triangle they form, as long as the points lie on a common lattice of at most 50 bits or that area is above double-double resolution (2^-95 of its terms) without overflow or underflow. It therefore keeps its value when the points are rotated cyclically and is negated when two are swapped, and the fast filter in front of it never answers with a wrong sign. The sign of a 2x2 determinant of doubles is likewise exact.",
     ["inputs"], "all triples of finite 2D points, including coincident, exactly collinear and one-ulp-off-collinear ones",
     "The tests evaluate a handful of triples; robustness failures sit in the near-degenerate triples that random or hand-picked inputs miss.",
     [A + "orientation.rs", A + "cg_algorithms_dd.rs", M + "dd.rs"],
     [("orientation index", A + "orientation.rs index"), ("fast filter and its error bound", A + "cg_algorithms_dd.rs orientation_index_filter"), ("double-double determinant", A + "cg_algorithms_dd.rs orientation_index_xy, sign_of_det2x2*")],
     EX, T)

prop("C02", "Segment intersection is exact in kind and faithful in position",
     "For any two line segments with non-zero length the robust intersector reports no intersection, a single point, or a collinear overlap exactly as the two point sets intersect, whatever the order of the arguments and whatever it computed before; zero-length segments are reported as intersecting exactly when they do. An intersection at input endpoints is returned bit for bit; a proper crossing is returned inside the envelopes of both segments within rounding of the exact point (an input endpoint may stand in only when extended precision is exhausted), snapped to the precision model if one is set. The returned Z is that of an input endpoint at the location, otherwise interpolated along the segment(s), averaged over both for a proper crossing.",
     ["inputs", "histories"], "all pairs of finite segments on lattices up to 50 bits and doubles whose orientations are decidable in extended precision, all argument orders, any previous use of the intersector, any fixed precision model, Z present or missing at any end",
     "No test touches the robust intersector; its guarantees fail only on touching, collinear and almost parallel configurations.",
     [A + "robust_line_intersector.rs", A + "intersection.rs", A + "orientation.rs", G + "envelope.rs", G + "precision_model.rs"],
     [("case analysis on four orientations", A + "robust_line_intersector.rs compute_intersect"), ("collinear overlap", A + "robust_line_intersector.rs compute_collinear_intersection"), ("safe intersection and nearest endpoint", A + "robust_line_intersector.rs intersection, nearest_endpoint"), ("Z rules", A + "robust_line_intersector.rs get_z_or_interpolate, z_interpolate_5")],
     EX, T)

prop("C03", "Crossing points of two lines, and of a line with a segment",
     "For any two lines through distinct points the computed crossing point lies within rounding of the exact one, whatever the order of the arguments, and lines that are parallel on exactly representable lattices give no result; the plain floating-point and homogeneous-coordinate variants agree within their conditioning. A line meets a segment exactly when the segment's ends are not strictly on the same side: an end on the line is returned bit for bit, a crossing within rounding of the exact point, and a segment strictly on one side gives none.",
     ["inputs"], "all pairs of lines and line/segment pairs on lattices up to 50 bits and well-scaled doubles, including almost parallel ones and ones far from the origin",
     "The tests check fixed pairs of lines; cancellation and conditioning errors show on near-parallel lines far from the origin.",
     [A + "intersection.rs", A + "cg_algorithms_dd.rs", A + "hcoordinate.rs", G + "line_segment.rs"],
     [("extended-precision intersection", A + "cg_algorithms_dd.rs intersection"), ("conditioned floating-point intersection", A + "intersection.rs intersection_fp"), ("line against segment", A + "intersection.rs line_segment"), ("homogeneous intersection", A + "hcoordinate.rs intersection, new_with_coordinates_4, new_with_hcoordinates")],
     EX, T)

prop("C04", "Points are located exactly in rings and on lines",
     "For any point and any closed ring, including self-crossing, repeated-point and collapsed rings, the location is boundary exactly when the point lies on an edge, otherwise interior exactly when a ray from it crosses the ring an odd number of times, otherwise exterior. All variants agree (vector, coordinate sequence and packed sequence of any dimension, in-ring test, segment-by-segment counter in which rings are fed in any order and direction). A point is on a line or segment exactly when it lies on one of the closed segments.",
     ["inputs", "histories"], "all points and closed rings or lines whose orientations are decidable in extended precision, any order and direction of feeding segments to the counter",
     "Ray crossing goes wrong only when the point is level with vertices or horizontal edges, or a hair off an edge; the tests place points comfortably.",
     [A + "point_location.rs", A + "ray_crossing_counter.rs", A + "orientation.rs", G + "location.rs", G + "envelope.rs"],
     [("ray crossing rules", A + "ray_crossing_counter.rs count_segment"), ("ring location", A + "ray_crossing_counter.rs locate_point_in_ring_*; point_location.rs locate_in_ring, is_in_ring"), ("on line, on segment", A + "point_location.rs is_on_line*, is_on_segment")],
     EX, T)

prop("C05", "Ring direction is the sign of the enclosed area",
     "For any closed simple ring, whichever vertex it starts at and however many repeated points, collinear vertices or flat tops it has, it is reported counter-clockwise exactly when its signed area is positive, so reversing it negates the answer; vectors and coordinate sequences agree. Flat rings (empty, fewer than four points, one point repeated, points along one line) are not counter-clockwise and never make it fail. The area-based variant reports the sign of the area of any closed ring.",
     ["inputs"], "all closed simple rings and flat rings; all closed rings for the area-based variant",
     "Direction is decided around the topmost point; errors need flat tops, repeated points or an unlucky start vertex together.",
     [A + "orientation.rs", A + "area.rs"],
     [("highest point and flat tops", A + "orientation.rs is_ccw_vec, is_ccw_coordinate_array_sequence"), ("area variant", A + "orientation.rs is_ccw_area_vec")],
     EX, T)

prop("C06", "Area and length equal their exact values",
     "For any closed ring the signed area is the exact shoelace area, positive when clockwise, within the rounding of a sum taken about its first vertex (so it stays accurate far from the origin, and is exact for small integers), and the unsigned area is its magnitude; rings of fewer than three points have area zero. The length of a line is the sum of its segment lengths. A polygon's area is that of its shell less its holes whichever way they run, its perimeter the length of all its rings, and a multipolygon's area is the sum; vectors and sequences of any dimension agree.",
     ["inputs"], "all closed rings, lines, polygons with holes and multipolygons of finite coordinates",
     "Precision far from the origin, sign by direction, holes of either direction and degenerate rings combine beyond the few fixed shapes tested.",
     [A + "area.rs", A + "length.rs", G + "polygon.rs", G + "multi_polygon.rs", G + "line_string.rs"],
     [("shoelace about the first vertex", A + "area.rs of_ring_signed_*"), ("length", A + "length.rs of_line"), ("holes", G + "polygon.rs get_area, get_length; multi_polygon.rs get_area")],
     EX, T)

prop("C07", "The centroid is that of the highest-dimension part",
     "For any polygon with simple rings the centroid is that of its area less its holes, whichever way each ring runs; for several polygons the area-weighted one; where nothing has area, the length-weighted mean of segment midpoints (polygon rings included); where nothing has length, the mean of the points; and there is none for empty input. It does not depend on the order in which parts are added and stays accurate far from the origin. A geometry's centroid is snapped to its precision model when that is fixed.",
     ["inputs", "histories"], "all polygons, multipolygons, lines, points and mixtures added in any order, with or without a precision model, where the exact area is distinguishable from zero in doubles",
     "The accumulators (area, holes, line fallback, point fallback) interact with direction and degeneracy; tests cover single simple shapes.",
     [A + "centroid.rs", G + "polygon.rs", G + "multi_polygon.rs", A + "orientation.rs"],
     [("accumulators", A + "centroid.rs add_shell, add_hole, add_triangle, add_line_segments, add_point"), ("choice by dimension", A + "centroid.rs get_centroid"), ("geometry entry points", G + "polygon.rs get_centroid; multi_polygon.rs get_centroid")],
     EX, T)

prop("C08", "Planar distances are the exact minimum",
     "For any point and segment, two segments, or point and line string the distance is the minimum Euclidean distance between the two closed point sets, within rounding of the inputs' extent, whatever the order and direction of the arguments: zero where they touch or cross, the nearest end where the foot falls outside, and correct for zero-length and parallel segments. The perpendicular distance of a point to the infinite line through two distinct points is exact within rounding, and its signed form is positive to the right of the directed line and negative to the left. The distance of two points is their Euclidean distance.",
     ["inputs"], "all points, segments (zero-length included) and line strings of well-scaled finite coordinates",
     "Case boundaries (foot at an end, collinear, zero-length, almost parallel) are unbounded in number; tests sample a few.",
     [A + "distance.rs", G + "line_segment.rs", G + "coordinate.rs"],
     [("point to segment", A + "distance.rs point_to_segment, point_to_segment_string"), ("segment to segment", A + "distance.rs segment_to_segment"), ("infinite line", A + "distance.rs point_to_line_perpendicular*")],
     EX, T)

prop("C09", "Distances in space are the exact minimum",
     "For any point and segment or two segments in space the 3D distance is the minimum Euclidean distance between the two closed sets, within rounding, whatever the order and direction of the arguments: skew, crossing, sharing an end, parallel, collinear and zero-length segments included, with the nearest points at any combination of ends and interiors. The distance of two points in space is Euclidean, and planar when either Z is missing.",
     ["inputs"], "all points and segments in space of well-scaled finite coordinates (two segments: exactly parallel on small integers, or at more than 0.01 radian)",
     "The minimum sits in one of nine regions of the parameter square; tests touch a few of them.",
     [A + "cg_algorithms_3d.rs", "src/core/math/vector_3d.rs", G + "coordinate.rs"],
     [("point to segment", A + "cg_algorithms_3d.rs distance_point_segment"), ("segment to segment", A + "cg_algorithms_3d.rs distance_segment_segment"), ("two points", A + "cg_algorithms_3d.rs distance; coordinate.rs distance_3d")],
     EX, T)

prop("C10", "Line segments obey planar geometry",
     "For any directed segment, projection, projection factor and fraction (0 at the start, 1 at the end), closest point (the end itself when the foot lies outside), reflection, point along it and offset to its left, midpoint, length, angle, projection of another segment (clipped, absent when wholly beyond an end) and perpendicular distance (signed positive on its left) equal their exact values within rounding. The side on which a point or a whole other segment lies is exact, two segments have an intersection exactly when they share a point, and their closest points are a pair, one on each, realising the distance. Ordering, equality with and without direction, extremes, horizontality, reversal, normalization and copies depend only on the two end points.",
     ["inputs"], "all segments (zero-length included where defined), points and other segments of well-scaled finite coordinates",
     "Results change at ends, for crossing, touching, parallel and zero-length segments; the tests check a few comfortable cases.",
     [G + "line_segment.rs", A + "distance.rs", A + "orientation.rs", A + "angle.rs"],
     [("projection family", G + "line_segment.rs projection_factor, segment_fraction, project*, closest_point, reflect"), ("side", G + "line_segment.rs orientation_index_*"), ("closest points, intersection", G + "line_segment.rs closest_points, intersection"), ("order and equality", G + "line_segment.rs compare_to, equals, equals_topo, normalize, reverse")],
     EX, T)

prop("C11", "Angles lie in their documented range and name the right direction",
     "For any finite points the angle of a direction lies in [-pi, pi], the angle between two directions in [0, pi] whatever their order, the oriented angle in (-pi, pi], the interior angle in [0, 2pi), and each equals the true angle within rounding, as do the bisector and the point projected at an angle and distance. A corner is acute, obtuse or neither by the exact sign of the dot product where that is distinguishable, and the turn from one angle to another is left, right or none by their difference. Normalizing adds whole turns only, leaves an angle already in range alone, and the snapped sine and cosine are exact zero below 5e-16 and otherwise the ordinary ones; degrees and radians convert both ways, and the constants are the doubles nearest a whole, a quarter and an eighth of a turn.",
     ["inputs"], "all finite points and angles of up to 40 turns",
     "Range limits, wrap-around and near-right corners are where angle code fails; the tests use multiples of 45 degrees.",
     [A + "angle.rs"],
     [("directions and differences", A + "angle.rs angle*, diff, get_turn"), ("ranges", A + "angle.rs normalize, normalize_positive"), ("snapping and projection", A + "angle.rs sin_snap, cos_snap, project"), ("acute, obtuse, bisector", A + "angle.rs is_acute, is_obtuse, bisector, interior_angle")],
     EX, T)

prop("C12", "An envelope is a possibly empty rectangle",
     "After any history of building, including, expanding by distances, translating and nulling, an envelope equals the smallest axis-parallel rectangle the history describes, or is null (a negative expansion that inverts it makes it null), and its bounds, sizes, centre, area and copies are those of that rectangle. For any two envelopes intersects, disjoint, contains, covers, intersection, union and distance are those of the two closed rectangles, null meeting and containing nothing; the same holds for points and for the rectangles of point pairs and segments. Equality is of bounds, and the order (null first, then minimum x, minimum y, maximum x, maximum y) is total and consistent with it.",
     ["inputs", "histories"], "all histories of operations on envelopes, and all pairs of envelopes, points and segments, null and degenerate ones included",
     "The null state and touching or degenerate rectangles combine with operation history; tests check single operations.",
     [G + "envelope.rs"],
     [("building and expanding", G + "envelope.rs init*, expand_*, translate, set_to_null"), ("predicates", G + "envelope.rs intersects*, contains*, covers*, disjoint"), ("intersection, distance, order", G + "envelope.rs intersection, distance, compare_to, equals")],
     EX, T)

prop("C13", "An octagonal envelope is the tightest octagon",
     "After any history of including points, envelopes and other octagonal envelopes, an octagonal envelope has as its eight bounds (x, y, x+y and x-y, least and greatest) exactly those of everything included, null inputs adding nothing, and contains every point included. Expanding by a distance moves the straight bounds by it and the diagonal ones by its square-root-of-two multiple, a collapsed result being null. Intersecting and containing compare the bounds, a null one intersecting and containing nothing.",
     ["inputs", "histories"], "all histories of finite points, envelopes and octagonal envelopes, null ones included",
     "Eight bounds evolve over a history of inclusions, and the null state hides in each; there are hardly any tests.",
     [G + "octagonal_envelope.rs", G + "envelope.rs"],
     [("including", G + "octagonal_envelope.rs expand_to_include*"), ("expanding", G + "octagonal_envelope.rs expand_by"), ("predicates", G + "octagonal_envelope.rs intersects*, contains")],
     EX, T)

prop("C14", "Coordinates and lists have consistent orders and equalities",
     "Coordinates are ordered by x then y, totally and consistently with their 2D equality; equality within a tolerance compares each ordinate, 3D equality also Z with two missing ones equal, and dimension, measures and validity follow the ordinates present. Coordinate lists compare lexicographically with a prefix first; equality, equality to a list of the same length reversed, and the increasing direction (opposite for a list and its reverse, 1 for a palindrome) agree with that order. Sequences are ordered lexicographically by ordinate, missing values lowest and lower dimension first unless the comparison is limited to a dimension, antisymmetrically and transitively.",
     ["inputs"], "all coordinates of every layout, lists and sequences, missing ordinates included",
     "Order laws quantify over pairs and triples, and break on missing ordinates, prefixes and signed zero, which no test combines.",
     [G + "coordinate.rs", G + "coordinate_arrays.rs", G + "coordinate_sequence_comparator.rs"],
     [("coordinate order and equality", G + "coordinate.rs compare_to, equals*"), ("list order", G + "coordinate_arrays.rs compare, equals, is_equal_reversed, increasing_direction"), ("sequence order", G + "coordinate_sequence_comparator.rs compare")],
     EX, T)

prop("C15", "Coordinate sequences hold a table of ordinates and lose none",
     "After any history of setting, swapping, reversing, scrolling, copying ranges, extending and closing, an array or packed sequence of any layout (XY, XYZ, XYM, XYZM) reads back, by ordinate and by coordinate, exactly the values of a plain table treated the same way, measures included. Size, dimension, measures, closedness, equality, least coordinate, position of a coordinate and envelope are those of that table. Factories infer or clip the layout, and a copy equals its original and is independent of it.",
     ["inputs", "histories"], "all histories of operations on array and packed sequences of the four layouts, empty ones included where defined",
     "A table held in two representations and four layouts under many operations; the tests use XY and XYZ and a few operations.",
     [G + "implementation/coordinate_array_sequence.rs", G + "implementation/packed_coordinate_sequence_double.rs", G + "implementation/", G + "coordinate_array_sequences.rs", G + "packed_coordinate_sequences.rs", G + "coordinates.rs"],
     [("array sequences", G + "implementation/coordinate_array_sequence.rs"), ("packed sequences", G + "implementation/packed_coordinate_sequence_double.rs and factories"), ("operations on sequences", G + "coordinate_array_sequences.rs, packed_coordinate_sequences.rs")],
     EX, T)

prop("C16", "Coordinate lists and arrays behave as plain lists",
     "After any history of adding, inserting, adding backwards, by range or all at once, and closing, with repeats allowed or suppressed, a coordinate list holds exactly what a plain list treated the same way holds: suppression only drops a coordinate equal in 2D to its would-be neighbour. Finding, removing or reporting repeated or invalid coordinates, extracting (ends included, clamped), copying ranges, ring test, least coordinate, position, first point not in another list, scrolling, envelope and intersection with an envelope do the same, in order. Dimension and measures are the greatest present, and enforcing consistency gives all coordinates the same layout without losing their ordinates.",
     ["inputs", "histories"], "all histories of list operations and all arrays of coordinates, empty, single and mixed-layout ones included",
     "Neighbour rules at both ends of the list combine with history and direction; tests add a few coordinates forwards.",
     [G + "coordinate_list.rs", G + "coordinate_arrays.rs"],
     [("building with repeat suppression", G + "coordinate_list.rs add_*, close_ring"), ("array operations", G + "coordinate_arrays.rs")],
     EX, T)

prop("C17", "Extended-precision numbers compute to a hundred bits",
     "Sum, difference, product, quotient, square, square root, reciprocal, integer power and 2x2 determinant of extended-precision numbers, with another such number or a double, in place or not, are within about 2^-100 of the exact result and normalized, over any history of in-place operations, operands staying unchanged. Floor, ceiling, truncation, nearest integer (ties up), absolute value and negation are exact; sign, order, minimum, maximum and conversion to double or integer are those of the exact value, and the decimal magnitude is the exponent of the greatest power of ten not above it. Not-a-number propagates, and the root of a negative number is not a number. The constants pi, two pi, half pi and e are as accurate.",
     ["inputs", "histories"], "all normalized extended-precision numbers with exponents within +-200, and histories of operations on one",
     "Lost low parts and wrong carries show only in digits 17 to 32 or next to integers and ties; the tests compare a few values loosely.",
     [M + "dd.rs"],
     [("arithmetic", M + "dd.rs add*, subtract*, multiply*, divide*, sqr, sqrt*, pow, reciprocal, determinant*"), ("rounding to integers", M + "dd.rs floor, ceil, trunc, rint"), ("order", M + "dd.rs compare_to, signum, min, max, equals"), ("magnitude", M + "dd.rs magnitude")],
     EX, T)

prop("C18", "Intersection matrices implement the OGC relations",
     "For every intersection matrix and every pair of dimensions, disjoint, intersects, touches, crosses, within, contains, covers, covered-by, equals and overlaps hold exactly when the matrix matches the pattern strings of the OGC definition for those dimensions. A matrix matches a nine-symbol pattern exactly when each cell does, and never one of another length. After any history of setting, raising to at least, adding, filling, transposing and copying, a matrix holds what a plain table treated the same way holds, equality and text being those of its cells; dimension and location symbols convert both ways.",
     ["inputs", "histories"], "all 3x3 matrices over F, 0, 1, 2 (and T, *), all pairs of dimensions, all patterns, and histories of updates",
     "There are 4^9 matrices and 16 dimension pairs per relation; the tests sample a few dozen.",
     [G + "intersection_matrix.rs", G + "dimension.rs", G + "location.rs"],
     [("relations", G + "intersection_matrix.rs is_*"), ("patterns", G + "intersection_matrix.rs matches*"), ("updates", G + "intersection_matrix.rs set*, add, transpose"), ("symbols", G + "dimension.rs, location.rs")],
     EX, T)

prop("C19", "A precision model rounds every number to its grid",
     "A fixed precision model, given by scale or by grid size, turns every number into the nearest grid point, half-way cases towards positive infinity; rounding is monotone and rounding again changes nothing. A floating model changes nothing and a single-precision one gives the nearest single-precision number; not-a-number stays so, and of a coordinate only x and y are rounded. Significant digits, scale, grid size, equality and order of models follow their kind and scale.",
     ["inputs"], "all numbers below 2^50 grid steps and all scales between 1e-9 and 1e9",
     "Ties, negative ties and numbers one unit off them are where rounding goes wrong; the tests round a few numbers.",
     [G + "precision_model.rs"],
     [("rounding", G + "precision_model.rs make_precise, make_precise_coordinate"), ("kinds and comparison", G + "precision_model.rs is_floating, get_maximum_significant_digits, compare_to, equals")],
     EX, T)

prop("C20", "Triangles have the areas and centres of plane geometry",
     "For any triangle the area (signed, clockwise positive), perimeter, longest side, centroid, incentre, circumcentre (in plain and in extended precision), circumradius (infinite when collapsed), perpendicular bisector and foot of an angle bisector equal the exact ones within rounding. Its direction, and whether a point lies in it or on its border, are exact, and it is acute by the sign of its corners' dot products. Area in space and the elevation of its plane above a point equal the exact ones within rounding.",
     ["inputs"], "all triangles of either direction on grids, lattices and well-scaled doubles, collapsed ones where defined, and all points",
     "Direction, collapse, border points and distance from the origin interact; the tests use a few right and equilateral triangles.",
     [G + "triangle.rs", A + "angle.rs", A + "hcoordinate.rs"],
     [("areas and direction", G + "triangle.rs area*, signed_area*, is_ccw*"), ("centres", G + "triangle.rs circumcentre*, in_centre*, centroid*, angle_bisector*"), ("containment", G + "triangle.rs intersects*"), ("elevation", G + "triangle.rs interpolate_z*")],
     EX, T)

prop("C21", "Geometries are values: copy, reverse, normalize and compare",
     "Points, lines, rings, polygons and their collections report the contents they were built from: type, dimensions, emptiness, closedness, number of points, every ordinate of every coordinate, points by index (none out of range) and their exact envelope, null when empty. Copies and reversals keep contents and precision model and leave the original alone; reversing turns round each line and ring (and the order of a multi-line's parts), and the normal form of a line or polygon is the same however it is presented: rings from their least point, shells clockwise, holes counter-clockwise and sorted. A polygon is a rectangle exactly when its area equals that of its envelope; equality within a tolerance is pointwise, and order is lexicographic and total, in the plane or in all ordinates.",
     ["inputs", "histories"], "all points, lines, rings, polygons with holes and collections of them, empty ones included, in every presentation",
     "Presentation, emptiness, holes and further ordinates multiply; the tests look at single simple shapes, mostly not at all.",
     [G + "point.rs", G + "line_string.rs", G + "linear_ring.rs", G + "polygon.rs", G + "multi_point.rs", G + "multi_line_string.rs", G + "multi_polygon.rs", G + "geometry_factory.rs", G + "geometry.rs"],
     [("contents and envelope", G + "point.rs, line_string.rs, polygon.rs, multi_point.rs"), ("copy and reverse", G + "polygon.rs copy, reverse; multi_*.rs"), ("normal form", G + "line_string.rs normalize; polygon.rs self_normalize"), ("equality and order", G + "*.rs equals_exact, compare_to"), ("factory", G + "geometry_factory.rs")],
     EX, T)

prop("C22", "Vectors in the plane and in space obey vector algebra",
     "Sum, difference, multiple, quotient, negation, average, weighted sum, translation, length, distance, dot product and unit vector (zero for the zero vector) of vectors built from numbers or points equal the exact ones within rounding, in the plane and in space. Parallelism is exact; the angle between two vectors lies in [0, pi] and the angle from one to another in (-pi, pi]. Rotation turns counter-clockwise by its angle, quarter turns are exact for any number of either sign, and equality is of components.",
     ["inputs"], "all vectors of well-scaled components, zero, parallel, opposite and perpendicular ones included",
     "Nearly parallel, opposite and zero vectors and negative turns are special; the tests check a few pairs.",
     [M + "vector_2d.rs", M + "vector_3d.rs"],
     [("plane", M + "vector_2d.rs"), ("space", M + "vector_3d.rs")],
     EX, T)

prop("C23", "Linear systems are solved, or reported unsolvable",
     "For any well-conditioned square system a solution is returned that satisfies it within rounding, whatever row exchanges that takes. A system with a zero row or column or with proportional rows, or whose sizes do not fit, has none. Swapping rows swaps exactly those rows.",
     ["inputs"], "all square systems of one to seven unknowns",
     "Row exchanges and singularity appear in particular patterns of zeros; the tests solve a few fixed systems.",
     [M + "matrix.rs"],
     [("elimination", M + "matrix.rs solve"), ("row exchange", M + "matrix.rs swap_rows*")],
     EX, T)

prop("C24", "Numeric utilities, quadrants and positions keep their definitions",
     "Clamping, minimum, maximum, average and equality within a tolerance, the ceiling of an integer quotient of any signs, wrapping an index, quasi-random numbers (in [0,1)) and shuffles (permutations, every one of them possible) give what their definitions say. The quadrant of a direction, axes included, is the one documented for its signs. Opposite quadrants, the common half-plane, membership of a half-plane, the northern half and the opposite position follow for all pairs.",
     ["inputs"], "all finite numbers, integers, permutations of up to 40 items, directions, quadrants and positions",
     "Negative divisors, axes and wrap-around are edges that few tests touch.",
     [U + "math_util.rs", G + "quadrant.rs", G + "position.rs", "src/core/util/"],
     [("numbers", "src/core/util/math_util.rs, src/core/math"), ("quadrants", G + "quadrant.rs"), ("positions", G + "position.rs")],
     EX, T)

prop("C25", "Coordinates keep their ordinates, measure distance, and print faithfully",
     "After any history of building, setting by name or ordinate index, copying and setting from another, a coordinate of any layout holds what a plain record of X, Y, Z and M treated the same way holds; creation by dimension and measures gives the matching layout, and validity is of X and Y. Plane distance is symmetric and correct within rounding at every magnitude, and so is distance in space. The text of coordinates, sequences, envelopes, vectors and precision models shows numbers that read back the same, and the kind of model.",
     ["inputs", "histories"], "all coordinates of the four layouts, finite numbers of every magnitude, and histories of operations",
     "Layouts and histories multiply, distance fails only at extreme magnitudes, and text only for numbers with many digits.",
     [G + "coordinate.rs", G + "coordinates.rs", G + "implementation/coordinate_array_sequence.rs", G + "envelope.rs"],
     [("ordinates", G + "coordinate.rs get_*, set_*, new_*; coordinates.rs create*"), ("distance", G + "coordinate.rs distance, distance_3d"), ("text", "to_string of the types named")],
     EX, T)

prop("C26", "Every operation returns, and leaves its inputs alone",
     "Every public operation, given finite numbers of any magnitude, not-a-number or infinities, and points, lists and rings that are empty, single, repeated, collapsed or unclosed, returns in bounded time and memory. It does not abort, overflow an integer, read out of range or fail an assertion. It leaves the values it was given unchanged.",
     ["inputs"], "all inputs with indices in range, well-formed matrices, non-zero integer divisors and angles below 1000 radians",
     "Aborts hide in empty, degenerate and extreme inputs; the tests use ordinary ones.",
     ["src/core/algorithm/", "src/core/geom/", "src/core/math/", "src/core/util/"],
     [("special cases", "the empty, degenerate and not-a-number branches of every module")],
     EX, "runtime monitoring: overflow, bounds and assertion sanitizers, panic capture and CPU-time and memory watchdogs over generated hostile executions of every operation, part of them under AddressSanitizer and Miri")

prop("C27", "Results depend on nothing but the inputs",
     "The same operation on the same inputs gives the same result, bit for bit, whatever was computed before it, in whatever order, and by whichever thread, also while other threads compute. An object asked a question answers as a fresh one does, whatever it was asked before; only the sign of a zero bound of a ring's extent may depend on where the ring starts.",
     ["inputs", "histories", "schedules"], "all inputs, all orders of operations on the same and other inputs, and all thread schedules",
     "Caches and reused objects go wrong in particular sequences of calls; tests call each operation once on a fresh object.",
     ["src/core/algorithm/", "src/core/geom/", "src/core/math/", "src/core/util/"],
     [("absence of hidden state", "all modules"), ("reused line intersectors", A + "robust_line_intersector.rs"), ("cached extents", G + "polygon.rs, " + G + "geometry.rs")],
     EX, "runtime monitoring: bit-exact record comparison across repetition, reordering, interleaving and concurrent threads, part of it under ThreadSanitizer and Miri")
