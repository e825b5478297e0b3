#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "src/algorithm/intersection/"
L = "src/algorithm/location/"
K = "src/kernel/"
D = "src/data_structure/"

prop("C01", "Sweep over straight segments reports exactly the meeting points",
 "For any collection of non-degenerate straight segments of moderate coordinates (magnitude up to about 10^4, distinct features, and distinct x coordinates, separated by far more than the 1e-10 tolerance, double precision), the sweep returns every point where two or more of the segments cross or touch, including both ends of every collinear overlap. It returns no point that lies on fewer than two of the segments and returns no point twice.",
 ["inputs"], "every finite multiset of straight segments, with any mix of crossings, touching, verticals, shared endpoints, duplicates and collinear overlaps",
 "The one sweep test runs a handful of fixed segment sets; the set of event orders, ties and status-structure shapes is combinatorial and every combination takes a different path through the event loop.",
 [I+"sweep_segment_2_intersection.rs", D+"avl_tree.rs", D+"priority_queue.rs", I+"segment_2_segment_2.rs"],
 [("event queue ordered by point order", I+"sweep_segment_2_intersection.rs: SweepSegment2Intersection::intersection"),
  ("status rebuilt and re-sorted at each event; neighbours tested for new events", I+"sweep_segment_2_intersection.rs: handle_event_point"),
  ("final filter against the original segments", I+"sweep_segment_2_intersection.rs: filter_intersection_points")],
 state=[("status_tree", "segments crossing the sweep line in vertical order", I+"sweep_segment_2_intersection.rs"),
        ("event_queue", "pending event points", I+"sweep_segment_2_intersection.rs")])

prop("C02", "Sweep over segments, circles and arcs reports exactly the meeting points",
 "For any collection of straight segments, circles and counter-clockwise arcs (arcs run from the start to the end angle, at most a full turn, in whatever turns the angles are given; moderate coordinates, double precision), the sweep returns every isolated point where two or more of the curves cross or touch, plus the arc end points lying on an overlapping arc of the same circle. It returns no point lying on fewer than two of the curves and returns no point twice.",
 ["inputs"], "every finite multiset of segments, circles and arcs in the domain, including tangencies, shared end points and arcs that pass through angle 0",
 "Three fixed curved scenes are tested; arcs inside one half-circle, arcs beyond a full turn, tangencies and nested circles never reach the sweep in the tests.",
 [I+"sweep_segment_2_intersection.rs", K+"arc_segment_2.rs", I+"segment_2_segment_2.rs", L+"point_2_arc_segment_2.rs"],
 [("curves split into x-monotone arcs before the sweep", I+"sweep_segment_2_intersection.rs: push_segment; "+K+"arc_segment_2.rs: monotone"),
  ("slope/curvature tie-break at an event", I+"sweep_segment_2_intersection.rs: compare_segments")])

prop("C03", "Sweep answers are independent of history and presentation",
 "At any moment the sweep's answer is determined by the set of curves pushed so far: asking again without pushing gives the same points, asking between pushes does not disturb later answers, and the order in which curves were pushed or the direction in which a straight segment was given does not change the set of points. The returned points come in one fixed lexicographic order (descending x, then descending y).",
 ["histories"], "every interleaving of push and query operations on one sweep object, every insertion order and orientation",
 "Tests build a fresh object and query it exactly once; re-entrancy of the retained queue, status, last-event and result structures is never exercised.",
 [I+"sweep_segment_2_intersection.rs", D+"avl_tree.rs"],
 [("per-query reset of queue, status and results", I+"sweep_segment_2_intersection.rs: intersection"),
  ("segment normalisation on push", I+"sweep_segment_2_intersection.rs: push_segment")],
 state=[("last_event_point", "previous event, survives between queries", I+"sweep_segment_2_intersection.rs")])

prop("C04", "Two straight segments: predicate and points are exact",
 "For any two straight segments (zero-length ones included) the intersected test is true exactly when the closed segments share a point. The returned points are the unique common point, or the two end points of the common part when they overlap along a line (one if that part is a single point), or nothing when disjoint; results are always finite and the same whichever segment is given first or reversed.",
 ["inputs"], "every pair of segments, including collinear, parallel, touching and zero-length ones, of moderate coordinates",
 "About ten hand-picked pairs are tested; collinear-disjoint, one-sided touching and degenerate pairs are not.",
 [I+"line_segment_2_line_segment_2.rs", I+"segment_2_segment_2.rs", L+"point_2_line_segment_2.rs"],
 [("straddle test by cross products", I+"line_segment_2_line_segment_2.rs: is_line_segment_2_line_segment_2_intersected"),
  ("end-point containment then parametric solution", I+"line_segment_2_line_segment_2.rs: line_segment_2_line_segment_2_intersection")])

prop("C05", "Straight segment against circle, circle against circle: exact points",
 "For any straight segment of positive length and any circle of positive radius, and for any two such circles, the returned points are exactly the finitely many common points (tangency gives one point), each once; two identical circles are reported as not intersecting. The intersected test is true exactly when at least one point is returned.",
 ["inputs"], "every segment/circle and circle/circle configuration of moderate size: secant, tangent, end point on, inside, outside, nested, externally or internally tangent, concentric",
 "A few fixed configurations are tested; segments with one end inside and the centre projecting outside the segment, and most tangent cases, are not.",
 [I+"line_segment_2_circle_segment_2.rs", I+"circle_segment_2_circle_segment_2.rs", "src/algorithm/projection/point_2_line_segment_2.rs", L+"point_2_circle_segment_2.rs"],
 [("classification of the end points then of the projected centre", I+"line_segment_2_circle_segment_2.rs"),
  ("centre distance against sum and difference of the radii", I+"circle_segment_2_circle_segment_2.rs")])

prop("C06", "Arcs against segments, circles and arcs: exact points",
 "For any arc (counter-clockwise from its start to its end angle, at most a full turn, in whatever turns the angles are given) and any segment of positive length, circle, or other arc, the returned points are exactly the common points, each once, when the supports differ. For two arcs of one circle they are the arc end points lying on the other arc; an arc and its own full circle give nothing. The intersected test is true exactly when at least one point is returned.",
 ["inputs"], "every arc paired with every other kind of curve, including arcs through angle 0, end points exactly on the other curve and tangencies",
 "Six fixed pairs are tested and arc/segment pairs have no test at all.",
 [I+"line_segment_2_arc_segment_2.rs", I+"circle_segment_2_arc_segment_2.rs", I+"arc_segment_2_arc_segment_2.rs", L+"point_2_arc_segment_2.rs"],
 [("intersect the supports, keep the points on the arcs", I+"arc_segment_2_arc_segment_2.rs and siblings")])

prop("C07", "Generic intersection: symmetric, total and self-consistent",
 "For every ordered pair of curve kinds (segment, circle, arc) the generic intersection and intersected operations return normally, give the same answer with the arguments swapped, and agree with each other: intersected exactly when some point is returned. Every returned point lies on both curves within tolerance.",
 ["inputs"], "all nine ordered pairs of curve kinds, all curve shapes",
 "The generic entry points have no test of their own; several of the nine dispatch arms are never executed by the suite.",
 [I+"segment_2_segment_2.rs"],
 [("dispatch on the pair of segment types", I+"segment_2_segment_2.rs")])

prop("C08", "Lines and rays: intersections are exact",
 "Two infinite lines meet in exactly their common point and are reported as not intersecting when parallel or equal. A line and a ray meet exactly where the line crosses the ray (never behind its origin; nothing when parallel). A segment and a ray give the single common point, or, when the segment lies along the ray's line, those segment end points that lie on the ray; the intersected tests agree with actual contact.",
 ["inputs"], "every pair of lines, line and ray, segment and ray (positive-length segments, non-zero directions, moderate coordinates, any orientation)",
 "Each has a few axis-aligned or diagonal samples; the tested segment/ray cases all hit the segment's midpoint.",
 [I+"line_2_line_2.rs", I+"line_2_ray_2.rs", I+"line_segment_2_ray_2.rs", K+"line_2.rs", K+"ray_2.rs"],
 [("Cramer's rule with a parallel test", I+"line_2_line_2.rs"), ("side-of-ray classification of the end points", I+"line_segment_2_ray_2.rs")])

prop("C09", "Point location against segments, rays and lines is exact",
 "A point is reported on a segment, ray or line exactly when it lies on it within tolerance; otherwise it is reported left, right or collinear according to the exact side of the directed segment or ray, and reversing a segment swaps left and right. A zero-length segment contains only its own point. Both floating types agree.",
 ["inputs"], "every point against every segment, ray and line",
 "Samples use one diagonal segment and one horizontal ray; line location has no test.",
 [L+"point_2_line_segment_2.rs", L+"point_2_ray_2.rs", L+"point_2_line_2.rs", K+"line_2.rs"],
 [("cross product sign with tolerance, then dot product range", L+"point_2_line_segment_2.rs"), ("implicit equation", L+"point_2_line_2.rs")])

prop("C10", "Point location against circles and arcs is exact",
 "A point is reported on, inside or outside a circle according to its distance from the centre. It is reported on an arc exactly when it is at the radius and its direction lies in the counter-clockwise range from the start to the end angle, ends included, whatever multiple of a turn the angles carry and also when the range passes through angle 0; coinciding ends mean the full circle.",
 ["inputs"], "every point against every circle and arc of moderate size",
 "Circle location is sampled with one circle; arc location has no test.",
 [L+"point_2_circle_segment_2.rs", L+"point_2_arc_segment_2.rs", K+"arc_segment_2.rs", K+"vector_2.rs"],
 [("distance against radius", L+"point_2_circle_segment_2.rs"), ("sum of partial turning angles", L+"point_2_arc_segment_2.rs")])

prop("C11", "Point location against triangles is exact",
 "For every non-degenerate triangle, clockwise or counter-clockwise, and every point, the point is reported on the boundary, inside or outside exactly as its position demands, independently of which vertex comes first and of whether the triangle's nominal orientation was reversed. Both floating types agree.",
 ["inputs"], "every triangle in either orientation and every point, including points on edge extensions",
 "Three points against one triangle are tested.",
 [L+"point_2_triangle_2.rs", K+"triangle_2.rs"],
 [("same side of all three edges", L+"point_2_triangle_2.rs")])

prop("C12", "Point location against simple polygons is exact",
 "For every simple polygon, convex or not, in either orientation and with collinear vertices allowed, and every point, the point is reported on the boundary, inside or outside exactly as its position demands; the on, inside and outside predicates agree with that report and exactly one of them holds.",
 ["inputs"], "every simple polygon and every point, including points level with vertices and on edge extensions",
 "Polygon location has no test.",
 [L+"point_2_polygon_2.rs", K+"polygon_2.rs"],
 [("classification against every edge", L+"point_2_polygon_2.rs")])

prop("C13", "Projection returns the foot of the perpendicular",
 "Projecting a point onto a line returns the unique point of the line closest to it. Projecting onto a segment of positive length returns the foot of the perpendicular when it falls within the closed segment and nothing otherwise.",
 ["inputs"], "every point against every line given by coefficients or by two points, and every positive-length segment",
 "Line projection is tested only on lines with equal or zero coefficients; segment projection on one diagonal.",
 ["src/algorithm/projection/point_2_line_2.rs", "src/algorithm/projection/point_2_line_segment_2.rs"],
 [("intersection with the perpendicular through the point", "src/algorithm/projection/point_2_line_2.rs"), ("dot-product parameter range test", "src/algorithm/projection/point_2_line_segment_2.rs")])

prop("C14", "Convex hull returns exactly the extreme points, counter-clockwise",
 "For every finite multiset of points the hull is the counter-clockwise cycle of exactly the extreme points, each once, starting from the lexicographically smallest: no interior, edge-interior or duplicate point. One distinct point gives that point, collinear points give the two ends, the empty set gives the empty hull; the answer does not depend on input order and is the same when asked again.",
 ["inputs", "histories"], "every finite multiset of exactly representable points in every order, both floating types",
 "Convex hull has no test.",
 ["src/algorithm/convex_hull/convex_hull_2.rs"],
 [("sort then monotone chain", "src/algorithm/convex_hull/convex_hull_2.rs")])

prop("C15", "Triangulation tiles every simple polygon",
 "For every simple polygon with n >= 3 vertices (convex or not, either orientation, collinear vertices allowed) ear clipping returns exactly n-2 index triples of distinct valid vertex indices whose triangles do not overlap, stay inside the polygon and together cover it (areas add up to the polygon's area). It never stops early or loops, and a polygon that is not simple is rejected by a panic.",
 ["inputs"], "every simple polygon and every non-simple one",
 "Triangulation has no test.",
 ["src/algorithm/triangulation/earcut_2.rs", D+"circular_doubly_linked_list.rs", L+"point_2_triangle_2.rs"],
 [("ear/reflex/convex classification updated after each cut", "src/algorithm/triangulation/earcut_2.rs"), ("circular list of remaining vertices", D+"circular_doubly_linked_list.rs")],
 state=[("ears, reflexes", "current ear tips and reflex vertices", "src/algorithm/triangulation/earcut_2.rs")])

prop("C16", "Polygon simplicity is decided exactly",
 "A closed polygon of at least three vertices is reported simple exactly when its edges have positive length, consecutive edges share only their common vertex and all other pairs of edges are disjoint. The verdict does not depend on the starting vertex or the direction of traversal.",
 ["inputs"], "every closed vertex sequence (moderate coordinates, double precision), including vertices touching edges or other vertices, spikes and repeated vertices",
 "One square and one bow-tie are tested.",
 [K+"polygon_2.rs", I+"sweep_segment_2_intersection.rs"],
 [("count of sweep intersection points against the vertex count", K+"polygon_2.rs: is_simple")])

prop("C17", "Polygon and triangle measures are exact",
 "The area of a polygon is the shoelace signed area (positive counter-clockwise, negated by reversal, unchanged by rotating the starting vertex, zero under three vertices), edges join consecutive vertices and close the cycle, and vertices come back in order. A triangle's orientation is counter-clockwise exactly when its vertices turn left, its area carries the sign of the orientation, and reversing the orientation flips both and is undone by a second reversal.",
 ["inputs", "histories"], "every vertex sequence (simple or not) and every triangle, both floating types",
 "Area is tested on one square and one bow-tie.",
 [K+"polygon_2.rs", K+"triangle_2.rs"],
 [("fan of signed triangles", K+"polygon_2.rs: area"), ("cross product sign", K+"triangle_2.rs: calculate_orientation")])

prop("C18", "Polygon convexity is decided exactly",
 "A simple polygon is reported convex exactly when no interior angle exceeds a straight angle, whatever its orientation or starting vertex. The turn of three points is left, right or collinear according to the sign of their orientation, cyclic shifts keep it and swaps reverse it.",
 ["inputs"], "every simple polygon in both orientations and from every starting vertex; every triple of points",
 "One square and one bow-tie are tested.",
 [K+"polygon_2.rs", K+"point_2.rs"],
 [("all turns in one direction", K+"polygon_2.rs: is_convex"), ("cross product", K+"point_2.rs: turn")])

prop("C19", "Splitting an arc or circle into monotone arcs loses and adds nothing",
 "Splitting a circle, or an arc (counter-clockwise from its start to its end angle, at most a full turn, in whatever turns the angles are given, so the end may be below the start), yields arcs of the same circle that follow one another end to start, begin and end where the original does, together cover exactly the original, and each stay within the upper or the lower half. An arc is called top exactly when it lies in the upper half; coinciding angles denote the full circle.",
 ["inputs"], "every arc in the domain, including arcs within one half-circle, across angle 0 and beyond one turn",
 "No test calls the split directly; only two arc shapes reach it through the sweep test.",
 [K+"arc_segment_2.rs", K+"circle_segment_2.rs"],
 [("cut at multiples of pi", K+"arc_segment_2.rs: monotone"), ("angle normalisation", K+"arc_segment_2.rs: new")])

prop("C20", "Points order and compare consistently; vector algebra is exact",
 "Points and graph vertices are equal exactly when closer than the tolerance, and their order is a strict total order consistent with equality: larger x first, then larger y (so the maximum is the lexicographically smallest point). Sum, difference, scaling, dot, cross, length, distance and the counter-clockwise turning angle in [0, 2 pi) of vectors satisfy their defining equations, and normalising a non-zero vector gives the unit vector of the same direction (the zero vector stays zero); two lines are equal exactly when they are the same set of points, two segments when their sources and targets agree, two arcs when circle and both end angles agree.",
 ["inputs"], "every triple of well-separated points and every pair of vectors, both floating types",
 "One test computes a few right angles; ordering has no test.",
 [K+"point_2.rs", K+"vector_2.rs", K+"vertex_2.rs", K+"number_type.rs", K+"line_2.rs"],
 [("tolerant lexicographic comparison", K+"point_2.rs: cmp"), ("atan2 difference", K+"vector_2.rs: radian_to")])

prop("C21", "Internal containers behave as their abstract types",
 "Under every sequence of operations the balanced tree lists its contents in sorted order as a set (or, in duplicate mode, a multiset), with deletion removing one equal element and nothing else, and every insertion or deletion makes only logarithmically many comparisons, meeting no more elements than the highest AVL tree of that size has levels. The circular list keeps a consistent ring whose forward and backward walks, ends and length match a reference ring, including emptying and refilling it, and the priority queue pops elements in descending order.",
 ["histories"], "every sequence of insert, delete, clear and query operations",
 "The containers have no tests; they are only touched indirectly by the sweep test.",
 [D+"avl_tree.rs", D+"circular_doubly_linked_list.rs", D+"priority_queue.rs"],
 [("rotations after insert and delete", D+"avl_tree.rs: rotate"), ("two-child deletion via successor", D+"avl_tree.rs: delete"), ("relinking on insert and delete", D+"circular_doubly_linked_list.rs")],
 state=[("root", "tree root with cached heights", D+"avl_tree.rs"), ("head, tail, length", "ring entry points", D+"circular_doubly_linked_list.rs")],
 hook="src/lib.rs: data_structure module made public under --cfg rcgal_verif")

prop("C22", "The JavaScript bindings give the native answers",
 "Every constructor, accessor and operation exposed to JavaScript returns what the native operation returns for the same arguments: same points in the same order, same enumeration values, same indices and numbers, with no argument swapped, dropped or altered, for every combination of curve kinds.",
 ["inputs", "histories"], "every exposed operation on every combination of argument kinds, and push/query histories of the exposed sweep",
 "The bindings are compiled but never executed by any test.",
 ["src/wasm/kernel", "src/wasm/algorithm"],
 [("thin wrappers over kernel values", "src/wasm/kernel/*.rs, src/wasm/algorithm/**/*.rs")])

prop("C23", "Operations are pure: repeatable, silent and leak-free",
 "Every public operation returns the same answer when repeated with the same arguments, whatever ran before it, leaves its borrowed arguments unchanged, writes nothing to standard output or error, and after its results and inputs are dropped retains no memory.",
 ["histories", "inputs"], "every public operation after every short history of other operations",
 "No test repeats a call, watches the process output, or measures retained memory.",
 ["src/algorithm/triangulation/earcut_2.rs", D+"circular_doubly_linked_list.rs", D+"avl_tree.rs", I+"sweep_segment_2_intersection.rs"],
 [("value types and per-call structures", "src/kernel, src/algorithm")])

prop("C24", "Half-edge records keep what they are told",
 "Under every sequence of operations on graph vertices and straight half-edges, each accessor returns the last value set (source, target, twin, next, previous, and kind), a vertex lists the edges added in order, removing an edge removes exactly the edges equal to it (same directed geometry), and an edge always yields the straight segment between its current end points.",
 ["histories"], "every sequence of add, remove and set operations on a small population of vertices and straight edges",
 "These records have no tests.",
 [K+"vertex_2.rs", K+"edge_2.rs", K+"face_2.rs"],
 [("shared handles with interior mutability", K+"edge_2.rs, "+K+"vertex_2.rs")])

prop("C25", "Work stays within a low-degree polynomial of the input size",
 "Every operation on finite values returns, near-coincident ones included: none runs for ever, and none panics except triangulation refusing a polygon that is not simple. Its arithmetic work (steps of the number type) is bounded by a low-degree polynomial: for n curves with k meeting points the sweep needs on the order of (n + k) n log n steps however many curves meet in a point or mutually cross. Deciding simplicity needs the same, triangulating n vertices at most order n cubed, a hull of n points order n log n, locating a point in a polygon, its area and its convexity order n, and intersecting two curves, or making and splitting an arc (finite angles of any magnitude), a constant amount.",
 ["inputs"], "every scene and polygon, of every size",
 "The tests use at most a handful of curves, where even exponential work goes unnoticed.",
 [I+"sweep_segment_2_intersection.rs", "src/algorithm/triangulation/earcut_2.rs", "src/algorithm/convex_hull/convex_hull_2.rs", D+"priority_queue.rs", D+"avl_tree.rs"],
 [("each event handled once", I+"sweep_segment_2_intersection.rs: intersection"), ("ear list maintained incrementally", "src/algorithm/triangulation/earcut_2.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
