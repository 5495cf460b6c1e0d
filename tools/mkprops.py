#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, state=(), observe=(), over=("inputs",)):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Orientation predicates are exact for every scalar type",
 "For every supported coordinate type (i8, i16, i32, i64, isize, f32, f64, OrderedFloat, NotNan, BigInt, BigRational, rug::Integer), the orientation of three points, of a point relative to a point plus direction vector, and of a point relative to the perpendicular of a direction vector equals the sign of the mathematically exact determinant. The fixed-width integer versions return this answer for every bit pattern, including the extremes of the type, without overflowing or panicking. A list of points is reported as all colinear exactly when some line contains every point of it.",
 "every scalar type, every triple of points / point+vector+point, up to the extremes of the type; floats finite with exponents where the products neither overflow nor underflow",
 "The unit tests check five fixed values and sample random i8/i64 triples (rarely colinear, rarely at both extremes) and never the float/rug versions against an exact result.",
 ["src/orientation.rs", "src/lib.rs"],
 [("cmp_slope / cmp_vector_slope / cmp_perp_vector_slope", "src/lib.rs fixed_precision!, arbitrary_precision!, floating_precision!, wrapped_floating_precision!, rug impl"), ("Orientation::new, along_vector, along_perp_vector", "src/orientation.rs")],
 observe=["Orientation::new", "Orientation::along_vector", "Orientation::along_perp_vector", "Point::orient", "Point::orient_along_vector"])

prop("C02", "Distance and projection comparisons are exact",
 "Comparing two points by distance to a third point gives the ordering of the exact squared Euclidean distances, and comparing two points along a direction vector gives the ordering of their exact scalar projections, for every supported coordinate type. The fixed-width integer versions give this answer for every bit pattern, including the extremes, without overflowing or panicking.",
 "every scalar type and every triple of points / vector and pair of points, including ties and the extremes of the type",
 "Existing tests call cmp_dist only to see that it does not panic on a few i8 values; ties, mixed overflow and float rounding need exhaustive or directed inputs.",
 ["src/lib.rs", "src/data/point.rs", "src/data/vector.rs"],
 [("PolygonScalar::cmp_dist", "src/lib.rs"), ("Point::cmp_distance_to", "src/data/point.rs"), ("Vector::cmp_along", "src/data/vector.rs")],
 observe=["Point::cmp_distance_to", "Vector::cmp_along"])

prop("C03", "Angular order around a point is the true counter-clockwise order",
 "Ordering points counter-clockwise around an origin, starting either from the positive x-axis or from any given non-zero direction, is the order of their exact polar angles measured from that direction in [0, 360) degrees, with points at equal angle comparing equal. It is therefore a total preorder, and sorting vectors by angle returns a permutation of the input in non-decreasing angle.",
 "every scalar type, every origin, reference direction and pair of points distinct from the origin; every list of vectors",
 "Tests fix a handful of vectors around axis directions; the case analysis has nine branches times the behind/in-front split, each reachable only with exactly colinear inputs.",
 ["src/orientation.rs", "src/data/point.rs", "src/data/vector.rs"],
 [("Orientation::ccw_cmp_around_with", "src/orientation.rs"), ("Point::ccw_cmp_around(_with)", "src/data/point.rs"), ("Vector::sort_around, ccw_cmp_around(_with)", "src/data/vector.rs")],
 observe=["Point::ccw_cmp_around", "Point::ccw_cmp_around_with", "Vector::ccw_cmp_around_with", "Vector::sort_around"])

prop("C04", "Simulation-of-simplicity tie breaking is a consistent orientation",
 "Breaking ties among three distinct indices a, b, c gives the orientation of the points (a, 2^a), (b, 2^b), (c, 2^c): it is unchanged by rotating the arguments, negated by swapping two of them, and jointly realisable by one configuration of points for any set of indices. Breaking ties changes only colinear orientations, and reversal and chaining of orientations are exact inverses / first-non-colinear selection.",
 "every triple of distinct u32 indices and every orientation value; every 4- and 5-tuple for consistency",
 "Tests cover u8 indices against the definition and pairwise laws on u32; consistency of whole index sets and the boundary values of u32 are not reached.",
 ["src/orientation.rs"],
 [("SoS::new, break_ties, sos, then, reverse", "src/orientation.rs")],
 observe=["SoS::new", "Orientation::break_ties", "Orientation::sos", "Orientation::then"])

prop("C05", "Segment containment and intersection are exact set operations",
 "A segment (with any mix of inclusive and exclusive end points) or polygon edge contains exactly the points of the mathematical point set it denotes. Intersecting two segments reports nothing exactly when the two sets are disjoint; when they share a point it reports an overlap if both lie on one line, the reported overlap being exactly the shared set including the openness of its ends, and a crossing otherwise. The answer does not depend on the order of the arguments or the direction of the segments.",
 "every pair of (possibly degenerate) segments with inclusive/exclusive ends, every point, every scalar type up to its extremes",
 "Tests compare a few dozen hand-written segments; the colinear/touching/degenerate combinations with four endpoint kinds have thousands of distinct cases.",
 ["src/data/line_segment.rs", "src/data/directed_edge.rs", "src/intersection.rs"],
 [("LineSegmentView::intersect", "src/data/line_segment.rs"), ("inner_between, leftmost/rightmost", "src/data/line_segment.rs"), ("DirectedEdge::contains", "src/data/directed_edge.rs")],
 observe=["Intersects::intersect on LineSegmentView, &LineSegment, &Range, &RangeInclusive, &DirectedEdge_, DirectedEdge", "LineSegment::contains", "LineSegmentView::contains", "DirectedEdge::contains"])

prop("C06", "Line and ray crossings of a segment are exact and consistently perturbed",
 "A line given by an origin and a direction vector or a second point crosses a segment exactly when the segment's end points are on opposite sides of it, where an end point on the line counts as left of it. A ray (without its origin) crosses a segment that does not lie along its line exactly when the closed segment meets the ray; the crossing carries no lean when the end points are strictly on opposite sides, and otherwise the side of the end point that is off the line. For a closed polygon and an origin off its boundary, the number of ray crossings on either fixed lean side has the parity of containment.",
 "every origin, direction or through-point, segment with inclusive/exclusive ends, scalar type; every closed polygon for the parity law",
 "Only a few concrete line/segment pairs are tested; the lean rules only matter on exact colinearities.",
 ["src/data/line.rs"],
 [("LineSoS::intersect, HalfLineSoS::intersect", "src/data/line.rs")],
 observe=["Intersects for &LineSoS, &HalfLineSoS over LineSegmentView and DirectedEdge"])

prop("C07", "Line intersection point is exact",
 "The intersection point of two lines each given by two distinct points is a point lying on both lines whenever the lines are not parallel, and is absent exactly when they are parallel or coincide.",
 "every pair of non-degenerate lines over an exact scalar type (BigRational), and over the integer and floating types for coordinates with which the arithmetic neither overflows nor rounds before the division",
 "One concrete pair of lines is tested.",
 ["src/data/line.rs"],
 [("Line::intersection_point", "src/data/line.rs")],
 observe=["Line::intersection_point"])

prop("C08", "Edge-set intersection enumeration is complete, sound and duplicate-free",
 "Enumerating the intersections of a list of edges yields every unordered pair of edges that intersect exactly once, and yields no pair that does not intersect.",
 "every list of edges (arbitrary multisets of segments and polygon boundaries)",
 "It is only exercised indirectly through polygon validation on a few dozen polygons.",
 ["src/algorithms/intersection/naive.rs", "src/utils.rs"],
 [("segment_intersections", "src/algorithms/intersection/naive.rs"), ("pairs", "src/utils.rs")],
 observe=["algorithms::segment_intersections"])

prop("C09", "Polygon construction accepts exactly the simple polygons",
 "Building a polygon from a vertex list succeeds exactly when the closed chain is a simple polygon (at least three vertices, no repeated vertex, non-adjacent edges disjoint, adjacent edges sharing only their common vertex), and the result then has exactly the given vertices in the same cyclic order, oriented counter-clockwise; otherwise it fails with an error naming a defect the input really has. Validation of an already-built polygon agrees with this and additionally rejects clockwise order, the weak validation agrees with it on lists without repeated vertices, and convex validation accepts exactly the strictly convex simple counter-clockwise polygons.",
 "every list of points (simple, self-touching, self-crossing, degenerate, clockwise, with duplicates) of every scalar type",
 "Tests feed a few invalid inputs and random valid polygons; almost-simple inputs (one touching vertex, one spike, one duplicate) are not sampled.",
 ["src/data/polygon.rs", "src/data/polygon/convex.rs"],
 [("Polygon::new, validate, validate_weakly, ensure_ccw, orientation", "src/data/polygon.rs"), ("PolygonConvex::validate", "src/data/polygon/convex.rs")],
 state=[("rings / position_index", "boundary order of the vertices", "src/data/polygon.rs")],
 observe=["Polygon::new", "Polygon::validate", "Polygon::validate_weakly", "Polygon::orientation", "PolygonConvex::validate"])

prop("C10", "Point location in simple polygons is exact",
 "Locating a point in a simple polygon returns inside, on-boundary or outside exactly according to the mathematical polygon, for every scalar type, regardless of where the boundary starts, of the internal storage order of the vertices, or of vertices and edges aligned with the query point.",
 "every simple polygon (including permuted storage from the polygonization algorithms) and every query point, in particular vertices, edge points and points level with vertices",
 "A handful of polygons and points is tested; alignment with vertices makes ray casting go wrong only on exact degeneracies.",
 ["src/data/polygon.rs", "src/data/line.rs", "src/data/directed_edge.rs"],
 [("Polygon::locate", "src/data/polygon.rs"), ("HalfLineSoS::intersect lean rule", "src/data/line.rs")],
 observe=["Polygon::locate"])

prop("C11", "Point location in convex polygons and triangles is exact",
 "Locating a point in a strictly convex polygon, or in a counter-clockwise triangle, returns inside, on-boundary or outside exactly according to the mathematical shape, agrees with locating in the same shape as a general polygon, and does not depend on which vertex the boundary starts with.",
 "every strictly convex polygon with 3 to hundreds of vertices, every start vertex and every query point, including vertices, edge points, diagonals and extremes of the type",
 "Convex location has no test with interior points on the search diagonals; the binary search depends on the start vertex and vertex count.",
 ["src/data/polygon/convex.rs", "src/data/triangle.rs"],
 [("PolygonConvex::locate", "src/data/polygon/convex.rs"), ("TriangleView::locate, new_ccw, validate", "src/data/triangle.rs")],
 observe=["PolygonConvex::locate", "Triangle::locate", "TriangleView::locate", "Triangle::new", "Triangle::new_ccw"])

prop("C12", "Area, centroid, bounding box and sampling agree with the exact shape",
 "The signed (doubled) area of a polygon or triangle, the centroid of a polygon and the bounding boxes equal their exact mathematical values in an exact result type, whatever the vertex at which the boundary starts, and change as they must under reversal, translation and scaling. Points sampled from a triangle lie in the closed triangle.",
 "every simple polygon and triangle, result types wide enough to hold the value; every RNG stream for sampling",
 "Tests check a few concrete polygons and compare two formulas of the same implementation.",
 ["src/data/polygon.rs", "src/data/triangle.rs"],
 [("signed_area(_2x), centroid, bounding_box, normalize", "src/data/polygon.rs"), ("Triangle signed_area(_2x), bounding_box, rejection_sampling", "src/data/triangle.rs")],
 observe=["Polygon::signed_area", "Polygon::signed_area_2x", "Polygon::centroid", "Polygon::bounding_box", "Polygon::normalize", "Triangle::*"])

prop("C13", "Point-set convex hulls are exact and the algorithms agree",
 "For every list of points (duplicates, colinear runs and extreme coordinates included) Graham scan and gift wrapping terminate and return the strictly convex counter-clockwise polygon whose vertices are exactly the extreme points of the input; they fail, with an error naming a defect the input has, exactly when the input has no three non-colinear points. Both algorithms return the same polygon and the result does not depend on the input order.",
 "every finite point list over every scalar type, every permutation of it",
 "Random tests draw i8/BigInt points that are almost never duplicated or colinear along hull edges, and compare the two algorithms only on those.",
 ["src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/gift_wrapping.rs"],
 [("graham_scan::convex_hull", "src/algorithms/convex_hull/graham_scan.rs"), ("gift_wrapping::convex_hull", "src/algorithms/convex_hull/gift_wrapping.rs")],
 observe=["algorithms::convex_hull", "algorithms::convex_hull::gift_wrapping::convex_hull"])

prop("C14", "Convex hull of a simple polygon is exact",
 "The linear-time convex hull of a simple polygon is the strictly convex counter-clockwise polygon whose vertices are exactly the extreme vertices of that polygon, equal to the hull of its vertex set, whatever vertex the boundary starts with and whatever the internal storage order of the vertices.",
 "every simple polygon (pockets, spirals, colinear boundary runs, permuted storage), every rotation of its boundary",
 "Tests run on random 2-opt polygons but compare only against Graham scan on mostly general-position points.",
 ["src/algorithms/convex_hull/melkman.rs"],
 [("melkman::convex_hull", "src/algorithms/convex_hull/melkman.rs")],
 observe=["algorithms::convex_hull::melkman::convex_hull"])

prop("C15", "Triangulation partitions the polygon",
 "Triangulating a simple polygon, with or without z-order hashing, through the polygon or point-list interface, yields exactly n-2 non-overlapping triangles made of the polygon's own vertices, none of them clockwise, whose union is exactly the polygon. The hashed and unhashed versions agree when given the same random source.",
 "every simple polygon (colinear vertices, thin features, extremes, permuted storage) and every RNG stream",
 "Tests compare only the total area, on a few dozen random polygons, so a wrong triangle compensated elsewhere or a rarely-hit reflex filter would pass.",
 ["src/algorithms/triangulation/earclip.rs", "src/algorithms/zhash.rs"],
 [("earclip, earclip_hashed, triangulate_list(_hashed)", "src/algorithms/triangulation/earclip.rs"), ("Polygon::triangulate", "src/data/polygon.rs")],
 state=[("EarStore / List", "candidate ears and remaining ring", "src/algorithms/triangulation/earclip.rs")],
 observe=["triangulation::earclip::*", "Polygon::triangulate"])

prop("C16", "2-opt polygonization always yields a simple polygon on the same points",
 "Untangling a list of distinct points that are not all on one line terminates for every random source and yields a simple counter-clockwise polygon whose vertices are exactly the given points, each once; resolving the self-intersections of an existing closed chain does the same in place. Inputs with fewer than three points, repeated points, or all points on one line are reported as an error.",
 "every list of points and every RNG stream; including many colinear points and overlapping edges",
 "Random tests mostly give points in general position; overlapping colinear edges and parallel 2-opt moves only arise with dense grids.",
 ["src/algorithms/polygonization/two_opt.rs", "src/data/intersection_set.rs", "src/data/polygon.rs"],
 [("two_opt_moves, resolve_self_intersections, untangle, uncross, endpoint resolution", "src/algorithms/polygonization/two_opt.rs"), ("vertices_reverse, vertices_join", "src/data/polygon.rs")],
 observe=["polygonization::two_opt_moves", "polygonization::resolve_self_intersections"], over=("inputs", "histories"))

prop("C17", "Monotone polygonization and monotonicity test are exact",
 "The monotonicity test says yes exactly when every line perpendicular to the given direction meets the polygon in a connected set. Building a monotone polygon from points and a direction either fails with an error naming a defect the input really has or returns a simple counter-clockwise polygon, monotone in that direction, whose vertices are exactly the given points.",
 "every simple polygon and direction; every point list and direction, including ties along the direction",
 "Tests use random points and directions in which ties along the direction are rare.",
 ["src/algorithms/polygonization/monotone.rs", "src/data/vector.rs"],
 [("is_monotone, new_monotone_polygon", "src/algorithms/polygonization/monotone.rs"), ("Vector::cmp_along", "src/data/vector.rs")],
 observe=["Polygon::is_monotone", "polygonization::new_monotone_polygon"])

prop("C18", "Star polygonization is sound",
 "Building a star-shaped polygon from points and a centre either fails with an error naming a defect the input really has, or returns a simple counter-clockwise polygon whose vertices are exactly the given points in angular order around the centre. It succeeds whenever the points have pairwise distinct directions from the centre and the centre lies strictly inside their convex hull.",
 "every point list and every centre",
 "Only one random property with general-position points exists.",
 ["src/algorithms/polygonization/star.rs"],
 [("new_star_polygon", "src/algorithms/polygonization/star.rs")],
 observe=["polygonization::new_star_polygon"])

prop("C19", "Visibility polygons are exact",
 "From a viewpoint off the boundary of a simple polygon the visibility polygon exists exactly when no ray from the viewpoint escapes without meeting the polygon (so always from strictly inside, never from outside the convex hull). It is then a simple counter-clockwise polygon which contains, up to parts without area, exactly the points whose straight segment to the viewpoint does not cross the boundary.",
 "every simple polygon over an exact scalar type and every viewpoint, including viewpoints colinear with several vertices and edges",
 "Eight hand-written polygons are tested; degenerate alignments of the viewpoint with vertices and edges are what break the algorithm.",
 ["src/algorithms/visibility/naive.rs"],
 [("get_visibility_polygon, NearestIntersection", "src/algorithms/visibility/naive.rs")],
 observe=["visibility::naive::get_visibility_polygon"])

prop("C20", "Random convex polygons are valid and span the documented box",
 "Sampling a random convex polygon returns, for every requested size and random source, a valid strictly convex counter-clockwise polygon with at least three and at most the requested number of vertices (and, for 64-bit coordinates and a full-entropy source, exactly the requested number up to negligible chance), with the origin as a vertex, no vertex below it, and width and height equal to the maximum value of the coordinate type. Over many draws from a full-entropy source the polygons vary: sides of all four kinds of direction (up or down, left or right) occur, and they are not always divided between the directions in the same way.",
 "every requested vertex count (0 to thousands), every RNG seed, every bounded integer type",
 "Tests use sizes from one range and i8/i64 only.",
 ["src/data/polygon/convex.rs", "src/data/vector.rs"],
 [("PolygonConvex::random, random_vectors, random_between_zero", "src/data/polygon/convex.rs"), ("Vector::sort_around", "src/data/vector.rs")],
 observe=["PolygonConvex::random", "Standard distribution for PolygonConvex<isize>"])

prop("C21", "Polygon navigation, iteration and mapping preserve the boundary cycle",
 "Cursors, boundary and edge iterators (forwards, backwards, mixed and sub-ranges), point and cursor lookup by id, edge direction lookup, in-place and by-value point maps, casts, clones and boundary equality all agree with one model: the cyclic sequence of vertices with fixed ids. In particular every iterator yields each position once in order, reports its exact remaining length, and equality holds exactly when the cyclic vertex sequences coincide up to rotation.",
 "every polygon (including permuted storage), every cursor, every interleaving of front and back iteration steps",
 "Tests iterate forwards over whole polygons only; reverse and mixed iteration and permuted storage are not exercised.",
 ["src/data/polygon.rs", "src/data/polygon/iter.rs", "src/transformation.rs"],
 [("CursorIter, EdgeIter, Iter, IterMut", "src/data/polygon/iter.rs"), ("Cursor, cursor, equals, map, cast, direct", "src/data/polygon.rs")],
 observe=["Polygon::iter_boundary", "Polygon::iter_boundary_edges", "Cursor::to", "Polygon::equals", "Polygon::map", "Polygon::direct"], over=("inputs", "histories"))

prop("C22", "The intersection set behaves as a set of edge pairs over every history",
 "After any sequence of insertions, removals of all pairs involving an edge, and random draws, the intersection set contains exactly the pairs inserted and not yet removed: iteration yields each once, a random draw yields a contained pair whenever the set is non-empty and nothing when it is empty, and every contained pair can be drawn.",
 "every operation history over every number of vertices",
 "No existing test drives the structure through insert/remove histories; the index links break only after specific interleavings.",
 ["src/data/intersection_set.rs", "src/utils.rs"],
 [("IndexIntersectionSet push/remove/remove_all/random/iter", "src/data/intersection_set.rs"), ("SparseVec, DenseCollection", "src/utils.rs")],
 state=[("by_edge links", "per-edge doubly linked list of intersections", "src/data/intersection_set.rs"), ("free list", "reusable slots", "src/utils.rs")],
 observe=["IndexIntersectionSet::push", "remove_all", "random", "iter"], over=("histories",))

prop("C23", "Z-order hashing is an order-compatible bijection",
 "Interleaving two 32-bit keys and splitting them again are mutually inverse on all inputs, the interleaved key places bit i of the first coordinate and bit i of the second at adjacent positions in a fixed pattern, and hashing points of a box with their box key is monotone: coordinate-wise smaller points get keys no larger, so every point of a box hashes between the box's lowest and highest corner. Keys tell different coordinates apart for integer boxes narrower than 2^32, and for other boxes when the coordinates differ by more than 2^-30 of the extent.",
 "every pair of u32 keys; every box and point pair in it for each hashable type (i8, i64, u32, u64, f64)",
 "The round trip is sampled with random pairs; monotonicity, on which hashed ear clipping depends, is never tested.",
 ["src/algorithms/zhash.rs"],
 [("zhash_pair, zunhash_pair, ZHashable::zhash_fn", "src/algorithms/zhash.rs")],
 observe=["zhash::zhash_pair", "zhash::zunhash_pair", "zhash::ZHashable"])

prop("C24", "Vector and affine transform algebra is exact",
 "Point and vector arithmetic and translation, scaling and composition of transforms satisfy the exact affine laws: translation and scaling act coordinate-wise on points, transforming a vector acts as on the point with the same coordinates, applying a product of transforms equals applying them right to left, composition is associative, and transforming a polygon transforms every vertex and nothing else. Every by-value / by-reference variant of an operation gives the same result, and normalising a polygon centres it on the origin with unit extent.",
 "every point, vector, polygon and finite product of transforms over exact scalars, dimensions 1 to 4",
 "Few concrete transforms are tested.",
 ["src/transformation.rs", "src/matrix.rs", "src/data/point.rs", "src/data/point/add.rs", "src/data/point/sub.rs", "src/data/vector.rs", "src/data/vector/add.rs", "src/data/vector/sub.rs", "src/data/vector/mul.rs", "src/data/vector/div.rs"],
 [("Transform, Mul impls", "src/transformation.rs"), ("Matrix Mul", "src/matrix.rs"), ("operator impls", "src/data/point, src/data/vector")],
 observe=["Transform::*", "Point/Vector operators", "Polygon::normalize"])

prop("C25", "Results do not depend on the coordinate representation",
 "The same geometric input expressed in any two supported coordinate types that represent it exactly, or translated and uniformly scaled within them, gives the same combinatorial result (same accept/reject outcome, same vertex indices, same classification) from every algorithm that uses no randomness or is given the same random source.",
 "every pair of scalar types and every exactly representable translation and scaling, including ones that place the input at the extremes of the type",
 "Each test fixes one coordinate type; no test compares types.",
 ["src/lib.rs", "src/data/polygon.rs", "src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/gift_wrapping.rs", "src/algorithms/polygonization/two_opt.rs", "src/algorithms/triangulation/earclip.rs"],
 [("PolygonScalar impls", "src/lib.rs"), ("TotalOrd impls", "src/lib.rs")],
 observe=["Polygon::new", "Polygon::locate", "convex_hull", "two_opt_moves", "earclip", "new_monotone_polygon", "new_star_polygon"])

prop("C26", "Ear and vertex classification is exact",
 "A boundary vertex is classified as an ear exactly when it is strictly convex and the closed triangle with its two neighbours contains no other vertex of the polygon, its turn orientation is the exact turn of its two incident edges, and every simple polygon with no three colinear vertices has at least two ears (for a triangle, every vertex).",
 "every simple polygon with three or more vertices, every vertex",
 "No test checks ear classification against a reference.",
 ["src/data/polygon.rs", "src/data/triangle.rs"],
 [("Cursor::is_ear, Cursor::orientation, is_colinear", "src/data/polygon.rs")],
 observe=["Cursor::is_ear", "Cursor::orientation"])

prop("C27", "Coordinates, points, segment ends and cursors have one consistent total order",
 "For every supported coordinate type, the total order of coordinates is the numeric order (both zeros equal, infinities at the ends, any NaN somewhere in a total order), points are ordered by their coordinates from first to last in every dimension, pairs likewise, and every way of comparing (total_cmp, cmp, partial_cmp, operators, by reference, minimum and maximum) agrees with it; values that compare equal are equal and hash alike. Built on it, line segments order their two ends, report the leftmost and rightmost end with the right openness, keep their ends when made from ranges, edges or views, and cursors compare by their points.",
 "every list of points of dimension 0 to 4 over every scalar type, including both zeros, subnormals, infinities and NaN; every pair of segment ends",
 "Tests compare a few integer points; sorting, deduplication and hashing across the library silently rely on the order being total and consistent with equality.",
 ["src/lib.rs", "src/data/point.rs", "src/data/line_segment.rs", "src/data/polygon.rs"],
 [("TotalOrd impls", "src/lib.rs"), ("Ord, PartialEq, Hash of Point", "src/data/point.rs"), ("EndPoint, LineSegment::new", "src/data/line_segment.rs")],
 observe=["TotalOrd", "Point comparison and hashing", "EndPoint", "LineSegment::new"])

prop("C28", "Conversions between number types and representations keep every value",
 "Casting points, vectors and polygons to a wider coordinate type keeps every coordinate exactly and every predicate on them; doubles become fractions exactly and fractions that are doubles become those doubles again (others go to a neighbouring double); values that are not finite or are NaN are refused where the target cannot hold them; squared distances computed in a wider type are the exact ones; constants, unit vectors, coordinate accessors and the point/vector/pair/line/half-line conversions return exactly the values put in.",
 "every point, vector and polygon over every conversion the library offers, any double bit pattern",
 "Tests convert a few small integers.",
 ["src/data/point.rs", "src/data/vector.rs", "src/data/polygon.rs", "src/data/line.rs", "src/lib.rs"],
 [("cast, to_float, From/TryFrom impls", "src/data/point.rs, src/data/vector.rs"), ("Polygon::cast, float", "src/data/polygon.rs"), ("from_constant", "src/lib.rs")],
 observe=["Point::cast", "Point::to_float", "Point::squared_euclidean_distance", "Vector::try_from", "Polygon::cast", "Polygon::float"])

prop("C29", "Every result is a function of the arguments and of the random stream",
 "Calling any algorithm twice with equal arguments and equal random streams gives the same result down to ids, coordinates, order of reported items and number of random draws, whatever was called before and on whichever thread; algorithms that take no random source need none to be reproducible. Queries leave the polygon they are asked about as it was, also when an iterator is dropped half way, and taking an iterator's items in several goes gives the same items as taking them at once.",
 "every algorithm, every input, every random stream, every earlier call, any thread",
 "Tests run each call once; a dependence on hash seeds, addresses, globals or a hidden random source shows only when calls are repeated.",
 ["src/algorithms/triangulation/earclip.rs", "src/algorithms/polygonization/two_opt.rs", "src/data/intersection_set.rs", "src/data/polygon.rs", "src/data/polygon/convex.rs", "src/data/triangle.rs"],
 [("random draws", "src/algorithms/polygonization/two_opt.rs"), ("ear selection", "src/algorithms/triangulation/earclip.rs"), ("IndexIntersectionSet::random", "src/data/intersection_set.rs")],
 observe=["two_opt_moves", "earclip", "Polygon::triangulate", "PolygonConvex::random", "IndexIntersectionSet::random"], over=("inputs", "histories"))

prop("C30", "Operations cost no more than their growth class",
 "The number of coordinate operations stays within a constant times the stated growth for every input: constant for access by id and the turn of a vertex, logarithmic for locating a point in a convex polygon, linear for area, orientation, bounding box, point location, ear test, copying, ensuring counter-clockwise order, monotonicity test and Melkman's hull, n log n for Graham's scan, points times hull vertices for gift wrapping, quadratic for construction, validation, every ear-clipping triangulation, segment intersections, visibility and monotone and star polygons, and n^4 for two-opt moves; a random convex polygon draws a number of random values linear in its size.",
 "every input of every size, degenerate ones (colinear, repeated, convex position) included",
 "Tests use small inputs and do not measure cost; the benchmarks assert nothing.",
 ["src/data/polygon.rs", "src/data/polygon/convex.rs", "src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/gift_wrapping.rs", "src/algorithms/convex_hull/melkman.rs", "src/algorithms/triangulation/earclip.rs", "src/algorithms/intersection/naive.rs", "src/algorithms/polygonization/two_opt.rs"],
 [("PolygonConvex::locate (binary search)", "src/data/polygon/convex.rs"), ("convex_hull", "src/algorithms/convex_hull"), ("earclip", "src/algorithms/triangulation/earclip.rs")],
 observe=["PolygonConvex::locate", "convex_hull", "Polygon::new", "earclip", "two_opt_moves"])

prop("C31", "What one operation hands out, every other operation takes",
 "After any chain of operations that return or change polygons (copies, transforms, maps, mirroring followed by ensuring order, the three hulls, two-opt moves, resolving intersections, star and monotone polygons, visibility polygons, rebuilding from vertices, triangles of a triangulation), the polygon is a well-formed ring: every id occurs exactly once and the boundary slice, cursors, forward and backward iteration, lookups by id and edges agree; it has exactly the vertices the operation determines, stays simple and counter-clockwise, and every query (validation, orientation, area, bounding box, location, monotonicity, ears, crossings, hulls, triangulation, visibility, equality) answers on it as on a polygon freshly built from its vertex list.",
 "every chain of operations over every simple polygon, storage order and random stream; queries also over every vertex cycle that need not be simple",
 "Tests feed freshly built polygons to one operation at a time.",
 ["src/data/polygon.rs", "src/data/polygon/iter.rs", "src/data/polygon/convex.rs", "src/algorithms/polygonization", "src/algorithms/convex_hull", "src/transformation.rs"],
 [("rings, position_index, ring_index", "src/data/polygon.rs"), ("vertices_reverse, vertices_join, swap_positions, ensure_ccw", "src/data/polygon.rs")],
 observe=["Polygon", "two_opt_moves", "resolve_self_intersections", "convex_hull", "get_visibility_polygon", "Transform"], over=("inputs", "histories"))

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
