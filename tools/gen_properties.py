#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements and anchors)."""
import json, os
A = "crates/mapping-algorithms/src/"
out = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                "anchors": {"files": [A + f for f in files],
                            "state": [{"name": n, "meaning": m, "where": A + w} for n, m, w in state],
                            "mechanism": [{"name": n, "where": A + w} for n, w in mech],
                            "observe_at": list(observe), "hook_needed": None}})

P("K01", "Tree nearest-neighbour queries return a truly nearest stored point",
  "After any history of bulk builds, insertions, clones and queries, a nearest-point query on the spatial tree returns a stored point whose Euclidean distance to the target is no larger than that of any other stored point. It returns nothing exactly when the tree is empty. This holds in any number of dimensions and for coordinates of any sign and scale.",
  ["histories", "inputs"], "every sequence of insert/build/clone/nearest operations, every point set and every target, in 1 to 5 dimensions, including equal coordinates, ties and degenerate (sorted) insertion orders",
  "Two unit tests query trees of 4 and 11 random 3-D points; whether pruning is safe depends on the insertion order, on ties and on which side of each split the target lies.",
  ["kd_tree/mod.rs", "utils/mod.rs"],
  [("branch choice and pruning on the axis distance", "kd_tree/mod.rs"), ("squared distance", "utils/mod.rs")],
  [("tree", "points split by one axis per level; less goes left, equal or greater right", "kd_tree/mod.rs")],
  ["KDTree::nearest", "KDTree::insert", "KDTree::from"])
P("K02", "The spatial tree stores exactly the set of distinct inserted points",
  "After any history of builds and insertions, the tree holds each distinct inserted point exactly once and nothing else: its reported size is the number of distinct points, it reports empty exactly when that is zero, and a traversal visits every stored point exactly once. Inserting a point that is already present, in whatever position it sits, changes nothing.",
  ["histories", "inputs"], "every insertion sequence, with repeats of any earlier point at any later moment",
  "The only duplicate test inserts the same point twice into a one-node tree; whether a repeat is recognised depends on the node's children at that moment.",
  ["kd_tree/mod.rs"], [("duplicate detection on the insertion path", "kd_tree/mod.rs"), ("element counting", "kd_tree/mod.rs")],
  [("element_count", "number of stored points", "kd_tree/mod.rs")], ["KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"])
P("K03", "Mutable traversal edits each stored point once; clones are independent",
  "A mutable traversal hands each stored point to the closure exactly once, stores exactly what the closure leaves there and does not change the size; if the edit keeps the order of the coordinates on every axis, later queries and insertions stay exact. A clone holds the same points, and no later operation on either copy is visible in the other.",
  ["histories", "inputs"], "every interleaving of insertions, clones, edits, queries and traversals over several trees",
  "One test overwrites all points of a four-point tree with a constant; no test clones a tree or uses it after an edit.",
  ["kd_tree/mod.rs"], [("recursive mutable traversal", "kd_tree/mod.rs"), ("derived clone of the node tree", "kd_tree/mod.rs")], (),
  ["KDTree::traverse_tree_mut", "KDTree::clone"])
P("N01", "Linear nearest-neighbour search returns the first nearest candidate",
  "Searching a list for the point nearest to a target returns an element of the list at minimal Euclidean distance, the earliest one when several are equally near, and nothing exactly when the list is empty.",
  ["inputs"], "every target and every list of any length and order, in any dimension, with ties and repeated points, as long as the squared distances are representable",
  "One test searches four points on a diagonal; ties, list positions and dimensions other than two are not sampled.",
  ["point_clouds/nearest_neighbour.rs", "utils/mod.rs"], [("running minimum over the list", "point_clouds/nearest_neighbour.rs")], (), ["find_nearest_neighbour_naive"])
P("L01", "Lexicographic sorting returns the same points in lexicographic order",
  "For every point list without NaN, the sorted list is a permutation of the input (every point as often as before, bit for bit) ordered by the first coordinate, then the second, and so on, including infinities and both zeros. The in-place, copying and by-reference variants agree; the copying ones leave the input untouched and the by-reference one refers to each original element exactly once.",
  ["inputs"], "every list of any length, dimension, element type and initial order",
  "The tests sort three-point lists and check the first element of one random cloud.",
  ["point_clouds/lex_sort.rs"], [("lexicographic comparison fold", "point_clouds/lex_sort.rs")], (), ["lex_sort", "lex_sort_in_place", "lex_sort_ref"])
P("L02", "NaN coordinates are detected and refused, leaving the input untouched",
  "A value counts as NaN exactly when it is a floating point NaN of either sign and any payload, never for an integer type. If any coordinate of any point is NaN, all lexicographic sorts and the sorting convex hull decline and the caller's data is left exactly as it was; otherwise they do not decline on that account.",
  ["inputs"], "every position of a NaN in a list of any length and dimension, every NaN bit pattern, every supported scalar type",
  "The tests put one NaN in the last coordinate of the last of three points and never look at the data afterwards; 128-bit integers are not covered.",
  ["types/is_nan.rs", "point_clouds/lex_sort.rs", "polygons/graham_scan.rs"], [("input validation", "point_clouds/lex_sort.rs"), ("per-type NaN test", "types/is_nan.rs")], (),
  ["IsNan::is_nan", "lex_sort", "lex_sort_in_place", "lex_sort_ref", "graham_scan"])
P("D01", "Voxel downsampling yields one centroid per occupied voxel",
  "Space is divided into half-open cubes [k*s, (k+1)*s) for every integer k, negative ones included; downsampling returns, for each cube holding at least one input point, exactly one point, the mean of the points in it, and nothing else. The set of results does not depend on the order of the input.",
  ["inputs"], "every cloud (empty and repeated points included), every positive voxel size, every dimension and every order of the points",
  "One test downsamples seven points and checks the count and one centroid; voxel borders, negative coordinates on a border and grouping across distant points are not sampled.",
  ["point_clouds/downsample.rs"], [("floor of coordinate over voxel size as grouping key", "point_clouds/downsample.rs"), ("mean per group", "point_clouds/downsample.rs")], (), ["downsample_point_cloud_voxel"])
P("M01", "The centroid of a cloud is the mean of its points",
  "The centre of a non-empty cloud is, on every axis, the sum of the coordinates divided by the number of points (to rounding), so it does not depend on the order and moves with the cloud; the centre of an empty cloud is the origin.",
  ["inputs"], "every cloud of any size, dimension and order", "Two tests compute the centre of one 3-point and one 6-point cloud.",
  ["point_clouds/mod.rs"], [("sum and division", "point_clouds/mod.rs")], (), ["calculate_point_cloud_center"])
P("M02", "Transforming a cloud applies one rigid motion to every point in order",
  "The transformed cloud has one point per input point, in the same order, each being the input point rotated and then translated by the given motion; the input is left unchanged and, up to rounding, distances between points and orientation are preserved.",
  ["inputs"], "every cloud of any size and every rotation and translation in two and three dimensions", "The function is used to set up other tests but nothing checks its result.",
  ["point_clouds/mod.rs"], [("per-point application of the motion", "point_clouds/mod.rs")], (), ["transform_point_cloud"])
P("M03", "Generated clouds have the requested size, stay in range and are repeatable",
  "Generating a cloud returns exactly the requested number of points, each coordinate within the inclusive range given for its own axis (degenerate ranges included), and the same request always gives the same cloud.",
  ["inputs", "configurations"], "every size and every list of ranges, with a different range for each axis", "The generator has no test of its own; other tests use equal ranges on all axes.",
  ["point_clouds/mod.rs"], [("seeded generator and per-axis range", "point_clouds/mod.rs")], (), ["generate_point_cloud"])
P("H01", "The Graham scan returns exactly the strict convex hull",
  "For any list of points the scan returns nothing exactly when there are fewer than three points or all of them lie on one line. Otherwise it returns exactly the corner points of the convex hull, each once and none lying on the segment between its neighbours, in clockwise order (up first, with y pointing up) starting from the leftmost and lowest one. The order and repetition of the input points do not matter.",
  ["inputs"], "every point list of any length and order, with repeated and collinear points, at any scale at which the determinants are exactly computable",
  "Eight tests use fixed clouds with one order each; degenerate combinations of repeats and collinear runs depend on the order of the input.",
  ["polygons/graham_scan.rs", "polygons/mod.rs", "point_clouds/lex_sort.rs"], [("monotone chain stack with non-strict turn pop", "polygons/graham_scan.rs"), ("determinant", "polygons/mod.rs")],
  [("accumulator", "stack of hull candidates", "polygons/graham_scan.rs")], ["graham_scan"])
P("H02", "The Jarvis march always terminates with the convex hull boundary",
  "The march returns for every input. It returns nothing exactly when there are fewer than three points or all of them lie on one line; otherwise it returns every corner point of the convex hull, and besides them only input points lying on its edges, each at most once, in clockwise order around the boundary starting from the leftmost and lowest point.",
  ["inputs"], "every point list of any length and order, with repeated and collinear points; termination also for arbitrary finite floating point coordinates",
  "The tests cover seven fixed clouds in one order each; whether the march loops depends on the order in which points of one edge are met.",
  ["polygons/jarvis_march.rs", "polygons/mod.rs"], [("endpoint selection scan", "polygons/jarvis_march.rs"), ("stop on a vertex already in the hull", "polygons/jarvis_march.rs")],
  [("hull", "vertices found so far", "polygons/jarvis_march.rs")], ["jarvis_march"])
P("H03", "Hull options: voxel size and presorted input never break the hull",
  "With a voxel size, both hull algorithms return the hull (as specified for them) of the cloud downsampled with that size, whatever the order of the input and whether or not it was declared sorted. Without a voxel size, declaring a lexicographically sorted input as sorted gives the same result as letting the algorithm sort it.",
  ["inputs", "configurations"], "every cloud, every positive voxel size and both values of the sorted flag", "No test passes a voxel size or the sorted flag to either hull algorithm.",
  ["polygons/graham_scan.rs", "polygons/jarvis_march.rs", "point_clouds/downsample.rs"], [("selection of the preprocessing", "polygons/graham_scan.rs")], (), ["graham_scan", "jarvis_march"])
P("H04", "Convex hulls are the same for every point type that can hold the points",
  "For every supported integer and floating point coordinate type, signed or unsigned, and for both calculation precisions, the same coordinates give the same hull as in any other type, as long as the coordinate differences and their products are exactly representable in the calculation precision. No overflow, wrap-around or abort occurs on the way. Both hull algorithms agree on the corner points.",
  ["inputs", "configurations"], "all twelve point types and both precisions, with coordinates up to the limits of the type", "All hull tests use single precision points with single precision calculations.",
  ["polygons/mod.rs", "polygons/graham_scan.rs", "polygons/jarvis_march.rs"], [("difference and determinant in the calculation precision", "polygons/mod.rs")], (), ["graham_scan", "jarvis_march"])
P("P01", "Point-in-polygon follows the even-odd rule off the boundary",
  "For every polygon given as a vertex list, convex, concave or self-intersecting, in either orientation, from any starting vertex and with repeated vertices, a point that is not on the boundary is reported inside exactly when a ray from it crosses the boundary an odd number of times. Degenerate lists (fewer than three vertices) contain no point.",
  ["inputs"], "every polygon and every point off its boundary, including points level with vertices and horizontal or vertical edges", "Two tests query one octagon with one inside and one outside point; points level with a vertex are not sampled.",
  ["polygons/point_in_polygon.rs"], [("half-open ray crossing test per edge", "polygons/point_in_polygon.rs"), ("parity of crossings", "polygons/point_in_polygon.rs")], (), ["is_single_point_in_polygon"])
P("P02", "Batch point-in-polygon equals the single query for every point",
  "The batch query declines exactly when the polygon has fewer than three vertices; otherwise it returns one answer per point, in order, each equal to what the single query says for that point alone, boundary points included. Other points in the batch have no influence.",
  ["inputs"], "every polygon, every batch of any size and order, points on the boundary and on the bounding box included", "Both tests use the same two points and polygon.",
  ["polygons/point_in_polygon.rs", "polygons/mod.rs"], [("bounding box prefilter", "polygons/point_in_polygon.rs")], (), ["are_multiple_points_in_polygon"])
P("P03", "Polygon extents are the tight bounding intervals of the vertices",
  "For at least three finite vertices in any number of dimensions, the extents on each axis run exactly from the smallest to the largest vertex coordinate on that axis, in whatever order the vertices come; for fewer vertices there are none.",
  ["inputs"], "every vertex list, dimension and order, coordinates of any sign and up to the limits of the type", "One test uses a positive rectangle.",
  ["polygons/mod.rs"], [("running minimum and maximum", "polygons/mod.rs")], (), ["calculate_polygon_extents"])
P("P04", "Cutting a polygon along a chord neither loses nor duplicates points",
  "If a polygon is cut in two along a segment joining two of its vertices, every point is in the whole exactly when it is in exactly one of the two pieces, also when it lies on the cut or on another edge or vertex. Consequently adjacent polygons never both claim, nor both disown, a point on their common border, and the answer does not depend on orientation or starting vertex.",
  ["inputs"], "every polygon, every chord and every point including all boundary points", "No test looks at boundary points or at more than one polygon.",
  ["polygons/point_in_polygon.rs"], [("half-open comparison on both axes", "polygons/point_in_polygon.rs")], (), ["is_single_point_in_polygon", "are_multiple_points_in_polygon"])
P("B01", "Rasterised lines are connected, complete and run from start to end",
  "For whole-number endpoints, as long as they and their differences are within the range where the type represents all integers, the line begins with the start cell, ends with the end cell, advances exactly one cell along the longest axis per step and never more than one cell, and never backwards, along any other. For all finite endpoints the number of cells is the whole part of the largest axis distance plus one, and the last is the end point.",
  ["inputs"], "every pair of endpoints in one to five dimensions, every direction, ties between axes, zero-length and fractional lines", "Five tests plot lines of length 10 in five directions and one sub-cell line.",
  ["lines/bresenham.rs"], [("step count and per-axis stepping", "lines/bresenham.rs")], [("current_point, errors", "cell and accumulated error per axis", "lines/bresenham.rs")], ["plot_bresenham_line"])
P("B02", "Rasterised lines stay within one cell of the ideal segment",
  "In N dimensions and for whole-number endpoints, every cell lies, on every axis, less than one cell from the ideal segment at the same position along the longest axis, however long the line: it trails the ideal by less than N/(N+1) of a cell and leads it by at most 1/(N+1).",
  ["inputs"], "every whole-number line in two to four dimensions, any length, slope and direction", "Exact cells are pinned for five short lines; the accumulated error of other slopes and longer lines is not.",
  ["lines/bresenham.rs"], [("error accumulation and threshold", "lines/bresenham.rs")], (), ["plot_bresenham_line"])
P("B03", "Line cells do not depend on output type, precision or position",
  "The same line plotted with any output type gives the same cells converted to that type (fraction dropped towards zero, values outside its range clamped to it); for whole-number endpoints that both represent, single and double precision agree; moving both whole-number endpoints by the same whole-number offset moves every cell by that offset.",
  ["inputs", "configurations"], "every line, every output type, both precisions and every offset that keeps the coordinates representable", "Tests use single precision and signed integers from the origin only.",
  ["lines/bresenham.rs"], [("conversion of each cell", "lines/bresenham.rs")], (), ["plot_bresenham_line"])
P("G01", "Haversine distance is the great-circle metric on the sphere",
  "For latitudes within 90 degrees either way and any longitudes, the distance is the radius times the central angle between the points to rounding: never NaN or negative, zero for the same position, the same in both directions, at most half the circumference (reached by antipodes), proportional to the radius, additive along a meridian and never more than a detour. Whole turns of longitude make no difference.",
  ["inputs"], "every pair and triple of positions, poles, antipodes, date line and coinciding points included, every radius, both precisions", "One test measures Berlin to Paris.",
  ["geo/haversine.rs"], [("haversine formula", "geo/haversine.rs")], (), ["calculate_haversine_distance"])
P("G02", "Bearings are normalised and point along the great circle",
  "For two positions that are neither equal nor antipodal and not at a pole, the bearing lies in the range from zero to below a full turn and is the clockwise angle from north at the first position to the great circle towards the second, to rounding; due north, east, south and west give 0, a quarter, a half and three quarters of a turn. Mirroring east and west mirrors the bearing, and whole turns of longitude make no difference.",
  ["inputs"], "every pair of positions in every quadrant, across the date line and equator, both precisions", "One test checks one eastward bearing, where no normalisation happens.",
  ["geo/haversine.rs"], [("atan2 and normalisation", "geo/haversine.rs")], (), ["calculate_sphere_bearing"])
P("I01", "Registration rejects unusable requests with the matching error",
  "Registration fails before any work with the error for the first that applies of: empty source, empty target, zero iteration budget, interval threshold that is NaN or not above the machine epsilon, absolute threshold given and NaN or not above the machine epsilon. A request with none of these flaws and finite points never ends in one of these errors.",
  ["inputs", "configurations"], "every combination of flaws, in both dimensions and precisions, thresholds at and next to the epsilon, negative, infinite and NaN ones", "The test accumulates one flaw at a time with thresholds of exactly zero.",
  ["point_clouds/icp/mod.rs", "point_clouds/icp/types.rs"], [("ordered validation", "point_clouds/icp/mod.rs")], (), ["icp"])
P("I02", "Registration is exactly its single iterations, stopped by the stated rule",
  "Registration ends at the first iteration whose error is below the absolute threshold (if given) or differs from the previous iteration's error by less than the interval threshold, which the first iteration never does for a threshold far below the largest number; it then reports that iteration's zero-based number, error and transform, exactly as obtained by running the single iterations by hand. If the budget runs out first it reports non-convergence, and it never needs more iterations than the budget.",
  ["inputs", "configurations", "histories"], "every pair of finite clouds and every usable configuration in both dimensions and precisions", "The tests check only that a final error is small; iteration numbers, stopping decisions and budgets at the boundary are not checked.",
  ["point_clouds/icp/mod.rs"], [("iteration loop", "point_clouds/icp/mod.rs"), ("convergence test", "point_clouds/icp/mod.rs")],
  [("current_mse, current_transform", "state carried between iterations", "point_clouds/icp/mod.rs")], ["icp", "icp_iteration"])
P("I03", "Each registration iteration makes the optimal proper rigid correction",
  "One iteration pairs every moved source point with a nearest target point and replaces the motion by a proper rigid one (no reflection or scaling), such that no other proper rigid motion of the source brings it closer to those same targets in the sum of squared distances. The moved points it leaves are the source under the new motion, their centroid is that of the matched targets, and when not finished it reports both centroids.",
  ["inputs", "histories"], "every pair of finite clouds and every starting motion in both dimensions and precisions, with or without the tree, degenerate clouds included", "Tests only observe whole runs from the identity on one random cloud.",
  ["point_clouds/icp/mod.rs", "point_clouds/icp/helpers.rs", "types/isometry.rs"], [("pairing", "point_clouds/icp/mod.rs"), ("cross covariance", "point_clouds/icp/helpers.rs"), ("SVD update", "types/isometry.rs")], (), ["icp_iteration"])
P("I04", "Registration error is the true residual and never increases",
  "The error an iteration reports is the sum of squared distances between the source under the motion just found and the targets they were matched with. From one iteration to the next it never increases, up to rounding, and it is never negative.",
  ["histories", "inputs"], "every run over finite clouds, every number of iterations", "Tests compare the final error with a bound on one cloud; no test looks at the sequence.",
  ["point_clouds/icp/mod.rs", "point_clouds/icp/helpers.rs"], [("error computation", "point_clouds/icp/helpers.rs")], (), ["icp_iteration", "icp"])
P("I05", "Registration recovers a small rigid displacement exactly",
  "If the target cloud is the source moved by a rigid motion so small that each source point is nearer to its own image than to any other target point, registration converges with an error near zero and its transform maps every source point onto its image, to rounding, whatever the order of the points.",
  ["inputs"], "every cloud and every motion satisfying the condition, in both dimensions and precisions, both search methods, any order of the target", "Tests use one motion on one generated cloud and check only the error.",
  ["point_clouds/icp/mod.rs", "types/isometry.rs"], [("whole registration pipeline", "point_clouds/icp/mod.rs")], (), ["icp"])
P("I06", "The tree option changes the speed of registration, not its result",
  "As long as no source point is equally near to two targets during the run, registration with the tree option on and off gives the same verdict, iteration number, error and transform. With the option off the target is not indexed at all, so target points that could not be indexed (NaN coordinates) do not make it abort.",
  ["inputs", "configurations"], "every tie-free pair of clouds and every configuration", "Each setting is tested separately on the same cloud, against the error only.",
  ["point_clouds/icp/mod.rs", "kd_tree/mod.rs"], [("choice of search", "point_clouds/icp/mod.rs")], (), ["icp", "icp_iteration"])
P("I07", "The alignment step always yields the best proper rotation",
  "Given two centroids and the cross-covariance of paired points, the alignment step composes onto the previous motion the rotation that aligns the pairs best together with the translation taking the first centroid to the second: exact for every rotation including half turns, and a proper rotation (never a reflection) for mirrored, planar, collinear or single-point data.",
  ["inputs"], "every covariance arising from paired points, every previous motion, in two and three dimensions", "A helper that flips one column is tested on one matrix; the step itself has no test.",
  ["types/isometry.rs", "utils/mod.rs", "point_clouds/icp/helpers.rs"], [("SVD and determinant correction", "utils/mod.rs"), ("composition", "types/isometry.rs")], (), ["IsometryAbstractor::update_transform"])
P("I08", "Configuration builders are persistent and last-write-wins per option",
  "Every setter returns a new builder that differs from the one it was called on only in that option; earlier builders and configurations already built never change, and building does not consume the builder. A configuration therefore behaves according to the last value set for each option along its own chain of calls, with defaults of at most 20 iterations, interval 0.01, no absolute threshold.",
  ["histories"], "every tree of setter and build calls branching from any earlier builder", "The error test chains single calls on one shared builder.",
  ["point_clouds/icp/types.rs"], [("functional record update", "point_clouds/icp/types.rs")], (), ["ICPConfigurationBuilder", "icp", "icp_iteration"])
P("I09", "Registration always reaches a verdict",
  "Registration returns, within its iteration budget and without aborting, for every pair of non-empty clouds and every usable configuration whatever their floating point coordinates (coincident, collinear, mirrored, huge, infinite or NaN); only target points that cannot be indexed may be refused, and only with the tree option on. For finite points and usable options the verdict is success or non-convergence, nothing else.",
  ["inputs"], "every pair of floating point clouds", "The tests use random well-spread clouds.",
  ["point_clouds/icp/mod.rs"], [("iteration", "point_clouds/icp/mod.rs"), ("alignment step", "types/isometry.rs")], (), ["icp"])

P("X01", "Pre-generated functions return what the generic ones return",
  "Every pre-generated single and double precision function (registration, hulls, point-in-polygon, lines, distance and bearing, for each dimension and point or output type offered) satisfies the same specification and returns the same result as the generic function it stands for.",
  ["configurations", "inputs"], "every pre-generated function and every input", "No test calls a pre-generated function.",
  ["point_clouds/icp/mod.rs", "polygons/graham_scan.rs", "polygons/jarvis_march.rs", "polygons/point_in_polygon.rs", "lines/bresenham.rs", "geo/haversine.rs"],
  [("generating macros", "polygons/graham_scan.rs"), ("generating macros", "lines/bresenham.rs"), ("generating macros", "point_clouds/icp/mod.rs")], (), ["single_precision::*", "double_precision::*"])
P("X02", "Results do not depend on the build configuration",
  "The library builds with every combination of its features for standard library, pre-generated functions and tracing. Built without the standard library, or with tracing enabled and listened to, every algorithm satisfies the same specification as in the default build and gives the same results there (without the standard library: up to the rounding of elementary functions, and up to the undetermined order of downsampled points).",
  ["configurations", "inputs"], "every feature set the project supports and every input", "The test suite runs in one feature set at a time; behaviour that depends on the replacement collections or on instrumentation is not compared.",
  ["lib.rs", "point_clouds/downsample.rs"], [("conditional imports", "lib.rs"), ("hash map or B-tree map for voxels", "point_clouds/downsample.rs")], (), ["whole public API"])

p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(p, "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out), "properties")
