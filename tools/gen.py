#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, G, I, M = "src/core/algorithm/", "src/core/geom/", "src/core/geom/implementation/", "src/core/math/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))

# --------------------------------------------------------------------------------------------- algorithms
prop("P01", "Orientation of three points is exact",
     "For any three finite points the orientation test reports counter-clockwise, clockwise or collinear exactly as the sign of the real-number determinant, however close to collinear the points are. The answer negates when two points are exchanged, is unchanged by cyclic rotation, and agrees between the plain, filtered and extended-precision forms and the signed determinant form.",
     ["inputs"], "all point triples whose coordinate differences are representable or whose determinant is above double-double resolution, magnitudes 2^-160..2^160",
     "unit tests pin a few fixed triples; the guarantee is about every near-degenerate triple, where plain double arithmetic gives the wrong sign",
     [A+"orientation.rs", A+"cg_algorithms_dd.rs", M+"dd.rs"],
     [("orientation index with error filter", A+"cg_algorithms_dd.rs"), ("double-double determinant", M+"dd.rs")],
     ["orientation code", "sign of the determinant"],
     "generated near-degenerate point triples against an exact big-rational determinant, plus metamorphic permutation relations",
     "Exploration: tens of millions of decisions are not exhaustive, but the generator aims at exact ties and at differences of the order of one ulp. The oracle is arbitrary-precision integer arithmetic.")
prop("P02", "Ring orientation agrees with the signed area",
     "For every simple closed ring the counter-clockwise test answers true exactly when the exact signed area is positive in the counter-clockwise sense, regardless of the starting vertex, repeated vertices, horizontal top edges or storage form. The area-based form agrees with it on rings where it is exact, and rings that are empty, too short or flat report not counter-clockwise without failing.",
     ["inputs"], "simple rings of up to dozens of vertices, every rotation and reversal, repeated points, flat and degenerate rings, at large offsets",
     "the tests check a handful of rings; the algorithm walks to the highest point with several special cases (flat top, repeated highest points, spikes) which are only reached by particular starting vertices",
     [A+"orientation.rs", A+"area.rs"],
     [("highest-point walk with flat-cap handling", A+"orientation.rs")], ["is counter-clockwise answer"],
     "generated simple rings of known orientation, rotation/reversal metamorphic relations, exact shoelace oracle",
     "Exploration over constructions whose orientation is known by construction and re-derived by an exact area sum.")
prop("P03", "Segment pairs are classified exactly",
     "For any two segments the intersector reports no intersection, a single point or a collinear overlap exactly as real-number geometry does, and for a point against a segment whether the point lies on it. The classification is the same for every order and direction of the arguments, and one intersector used for many queries always answers for the latest one exactly like a fresh one.",
     ["inputs"], "all segment pairs with representable coordinate differences, biased to touching, overlapping, nearly parallel and zero-length ones; all eight argument orders; reuse of one intersector",
     "tests only sample a few segment pairs; wrong branches are reached only by particular contact configurations and argument orders",
     [A+"robust_line_intersector.rs", A+"line_intersector.rs", A+"orientation.rs", G+"envelope.rs"],
     [("orientation-based classification", A+"robust_line_intersector.rs")],
     ["has-intersection answer", "intersection code"],
     "generated contact-biased segment pairs against an exact rational classification; eight-fold argument permutation",
     "Exploration with an exact oracle; no tolerance is involved.",
     state=[("last computed intersection", "one intersector is reused for many pairs; every query refers to the last pair", A+"robust_line_intersector.rs")])
prop("P04", "Computed intersection points are accurate and lie on both segments",
     "A computed intersection point equals an input endpoint bit for bit when the segments meet at that endpoint, is within one unit in the last place of the true crossing otherwise, lies inside both segments' envelopes (when the lines are so nearly parallel that extended precision loses the crossing, it is the end point nearest to the other segment instead) and carries z taken from a shared endpoint or interpolated along the segments. Overlaps report exactly their two end points, and with a precision model set a computed crossing is rounded to that model and nothing else changes.",
     ["inputs"], "crossing, touching, overlapping and nearly parallel segments, with and without z, with and without a precision model, all coordinate regimes",
     "accuracy to the last place and exact endpoint reuse are claims over all inputs; tests check a few crossings with loose tolerances",
     [A+"robust_line_intersector.rs", A+"line_intersector.rs", A+"intersection.rs", A+"cg_algorithms_dd.rs"],
     [("conditioned intersection computation", A+"intersection.rs"), ("z interpolation", A+"robust_line_intersector.rs")],
     ["intersection points", "intersection z"],
     "generated crossings against the exact rational crossing point with rigorous error bounds; metamorphic argument orders",
     "Exploration; exact where the result must be exact, otherwise within derived error bounds.")
prop("P05", "Line-line and line-segment intersections match exact geometry",
     "The intersection of two infinite lines is found exactly when they are not parallel and is the true crossing to within rounding; parallel, coincident and undefined lines give no intersection. The line-segment form finds a point exactly when the line meets the closed segment, returns the segment's own endpoint when it is on the line, and homogeneous coordinates and the extended-precision form give the same points.",
     ["inputs"], "pairs of lines and line/segment pairs on grids and real coordinates incl. parallel, identical, touching and degenerate ones",
     "tests sample under ten line pairs; conditioning and touch cases need systematic search",
     [A+"intersection.rs", A+"hcoordinate.rs", A+"cg_algorithms_dd.rs", A+"distance.rs"],
     [("midpoint conditioning", A+"intersection.rs"), ("homogeneous intersection", A+"hcoordinate.rs")],
     ["intersection point or none"],
     "generated line pairs against exact rational intersection with per-formula error bounds",
     "Exploration; existence is decided exactly, positions within derived bounds.")
prop("P06", "Point location in rings and on lines is exact",
     "For any closed ring and any point the location is interior, boundary or exterior exactly as the even-odd rule over the real plane says, including points on vertices, on edges and level with vertices, for every starting vertex and direction. On-segment and on-line tests are true exactly for points on the closed segments, and counting crossings segment by segment in any order gives the same location.",
     ["inputs"], "arbitrary closed rings (self-crossing ones included) and points biased to vertices, edges and vertex-aligned rays, both storage forms",
     "ray crossing is wrong only for particular alignments of point and vertices, which the tests sample a few times",
     [A+"point_location.rs", A+"ray_crossing_counter.rs", A+"orientation.rs"],
     [("ray crossing counter", A+"ray_crossing_counter.rs"), ("on-segment test", A+"point_location.rs")],
     ["location code", "on-line answers"],
     "generated rings and aligned query points against an exact even-odd oracle shooting a different ray",
     "Exploration with an exact oracle.")
prop("P07", "Planar distances are correct and vanish exactly on contact",
     "Distances from a point to a segment, to a polyline and to an infinite line, and between two segments, equal the true minimum distance to within rounding. They are zero exactly when the figures touch or cross, symmetric, and defined for zero-length segments.",
     ["inputs"], "points, segments and polylines biased to collinear, touching, parallel and zero-length configurations",
     "tests check about ten fixed distances; the case analysis (projection inside/outside, parallel, degenerate) needs all configurations",
     [A+"distance.rs", G+"envelope.rs"],
     [("projection parameter case analysis", A+"distance.rs")], ["distance values"],
     "generated configurations against exact rational squared distances",
     "Exploration; zero/non-zero decided exactly, values within 1e-13 of the extent.")
prop("P08", "Distances in space are true minimum distances",
     "Distances between points, from a point to a segment and between two segments in three dimensions equal the true minimum to within rounding, for crossing, skew, parallel, collinear and zero-length segments. They are symmetric and fall back to the planar distance when z is missing.",
     ["inputs"], "integer and quarter lattice configurations in space, biased to parallel, collinear, touching and degenerate pairs",
     "there is no test that searches the parameter clamping cases of two segments in space",
     [A+"cg_algorithms_3d.rs", M+"vector_3d.rs"],
     [("parameter clamping", A+"cg_algorithms_3d.rs")], ["distance values"],
     "generated lattice configurations against an exact rational minimisation over both parameters",
     "Exploration with an exact reference, absolute tolerance 1e-11 of the magnitude.")
prop("P09", "Ring area and line length are exact sums",
     "The signed ring area equals the exact shoelace sum with positive sign for clockwise rings, the unsigned one is its magnitude, and both are zero for rings with fewer than three points. They are independent of starting vertex and storage form and negate under reversal, and the length of a line is the sum of its segment lengths. A polygon has the area of its shell less that of every hole and the length of all its rings, a multi-polygon the area of its members together.",
     ["inputs"], "rings and polylines on integer grids and real coordinates, at large offsets, too short, repeated and self-crossing ones",
     "tests contain three rings; sign, offset cancellation and short inputs are quantified over all rings",
     [A+"area.rs", A+"length.rs"],
     [("offset shoelace", A+"area.rs"), ("segment length sum", A+"length.rs")], ["area", "length"],
     "generated rings against an exact shoelace sum; rotation and reversal relations",
     "Exploration; bit-exact on integer grids, within 1e-13 of the squared extent otherwise.")
prop("P10", "Centroid is the exact weighted mean of the highest dimension present",
     "The centroid of polygons and multi-polygons is the area-weighted mean of shells minus holes whatever the ring directions, order or starting vertices; without area it is the length-weighted mean of the lines and without length the mean of the points. Empty input gives no centroid, and the result is snapped to the geometry's precision model where the geometry has one.",
     ["inputs", "histories"], "polygons with holes, multi-polygons, lines, points and mixed accumulations, empty members, fixed precision models",
     "tests cover a few shapes; weights, hole signs, degenerate areas and fallbacks must hold for every mixture",
     [A+"centroid.rs", G+"polygon.rs", G+"multi_polygon.rs", G+"point.rs", G+"line_string.rs"],
     [("accumulated area, line and point sums", A+"centroid.rs")], ["centroid coordinate or none"],
     "generated accumulations against an exact rational weighted mean",
     "Exploration with an exact reference; tolerance scales with cancellation between shells and holes.",
     state=[("accumulated sums", "area, line and point sums with their weights", A+"centroid.rs")])
# --------------------------------------------------------------------------------------------- envelopes
prop("P11", "Envelopes behave as intervals with a null element",
     "An envelope always covers exactly the smallest box of what was added to it, and intersection, containment, covering, distance, translation, expansion, area and diameter agree with interval arithmetic on the two axes. The null envelope is neutral for expansion, covers and intersects nothing, and everything that shrinks past emptiness becomes null. Comparison is a total order consistent with equality.",
     ["histories", "inputs"], "histories of envelope operations, pairs of null, point, flat, nested and touching envelopes, points and segment-envelope tests",
     "tests exercise fixed boxes; boundary contact and null handling must hold for every operation in every history",
     [G+"envelope.rs"], [("min/max ordinates with null encoding", G+"envelope.rs")],
     ["every query of the envelope"], "stateful generated histories against an interval model with an explicit null element",
     "Exploration; the model is exact (min/max), rounding only in distances.",
     state=[("min/max ordinates", "null when max < min", G+"envelope.rs")])
prop("P12", "Octagonal envelopes bound x, y, x+y and x-y of what was added",
     "An octagonal envelope holds exactly the extents of x, y, x+y and x−y of everything added to it, so containment of points and envelopes and intersection agree with those four intervals. Null octagons are neutral and contain and intersect nothing, and expansion by a distance moves every side by it (validity and null state are reported accordingly).",
     ["histories", "inputs"], "histories and pairs of octagonal envelopes built from points, boxes, lines and each other, expansions incl. negative ones",
     "the repository has no test of this type at all",
     [G+"octagonal_envelope.rs"], [("eight bounds", G+"octagonal_envelope.rs")],
     ["bounds, containment, intersection, validity"], "stateful generated histories against a four-interval model",
     "Exploration; exact bounds, diagonal expansion within rounding.",
     state=[("eight bounds", "null when max x < min x", G+"octagonal_envelope.rs")])
# --------------------------------------------------------------------------------------------- double-double
prop("P13", "Extended-precision arithmetic is accurate to about 100 bits",
     "Sums, differences, products, quotients, squares, roots, reciprocals and integer powers of extended-precision numbers are within about 2^-100 relative error of the exact result, results are normalized, and in-place and value forms agree. Operations with an undefined operand, division by zero and roots of negatives give undefined results, zero and one act as neutral elements, and operands are never changed.",
     ["inputs"], "normalized high/low pairs with exponents up to 2^150 (sums and products from 2^-1000 to 2^900), cancelling and tie-adjacent low words, chains of operations",
     "tests check a dozen constants; the error bound is a claim over all operand pairs",
     [M+"dd.rs"], [("error-free transformations", M+"dd.rs")], ["high and low words of results"],
     "generated operand pairs against exact dyadic arithmetic with relative error bounds; in-place vs value differential",
     "Exploration; overflow and underflow are outside the claim.")
prop("P14", "Extended-precision order, rounding and sign follow the real value",
     "Comparisons, sign tests, minimum and maximum order extended-precision numbers by their exact value, including values differing only in the low word, and undefined values compare as neither. Floor, ceiling, truncation, nearest rounding, absolute value and negation equal those of the exact value and are normalized, conversion to double gives the nearest sum, and the decimal magnitude is the exponent of the leading digit.",
     ["inputs"], "normalized pairs at and around integers and halves up to 2^110, values differing only in the low word, powers of ten",
     "rounding is wrong only when high and low word disagree about the integer, which the tests never construct",
     [M+"dd.rs"], [("two-word case analysis", M+"dd.rs")], ["results and comparison answers"],
     "generated tie-adjacent values against exact dyadic rationals", "Exploration with an exact oracle.")
# --------------------------------------------------------------------------------------------- coordinates
prop("P15", "Coordinate and sequence comparison is a consistent total order",
     "Coordinates are equal exactly when x and y agree (plus z in the three-dimensional form, or within a tolerance in the tolerant form) and are ordered by x then y, and ordering and equality never contradict each other. Sequences compare ordinate by ordinate up to the compared dimension, shorter prefixes first and missing ordinates smallest, and both orders are antisymmetric and transitive.",
     ["inputs"], "pairs and triples of coordinates (2D, Z, M, ZM; coinciding, one ulp apart, infinite) and of sequences sharing prefixes, all dimension limits",
     "order laws quantify over pairs and triples; tests compare a few fixed coordinates",
     [G+"coordinate.rs", G+"coordinate_sequence_comparator.rs", G+"coordinates.rs"],
     [("lexicographic comparison", G+"coordinate.rs"), ("ordinate comparison", G+"coordinate_sequence_comparator.rs")],
     ["equality, order, distances"], "generated pairs and triples against a lexicographic reference; order laws",
     "Exploration with an exact oracle.")
prop("P16", "Coordinate array utilities keep exactly the right points in order",
     "Ring tests, repeated-point and invalid-point detection and removal, reversal, scrolling, padding, extraction, index search, envelopes, intersections and minimum search on coordinate arrays give exactly what a direct list computation gives, for every length including empty. Orientation-insensitive comparison is a total order in which an array and its reversal are equal, and dimension and measure handling keeps every ordinate the target can hold.",
     ["inputs"], "coordinate arrays with repetitions, closed, palindromic, mixed-dimension and with invalid members, all indices and ranges",
     "off-by-one and boundary behaviour over every length and index cannot be sampled by the existing fixed arrays",
     [G+"coordinate_arrays.rs", G+"coordinates.rs"], [("list helpers", G+"coordinate_arrays.rs")],
     ["returned arrays and answers"], "generated arrays against a direct list model, order laws",
     "Exploration with an exact list model; arrays are compared by x and y order.")
prop("P17", "Coordinate lists obey their repetition rule through any history",
     "After any history of additions (single, bulk, partial, reversed, at a position), ring closing and cloning, a coordinate list holds exactly the coordinates a plain list would, with neighbours equal in the plane dropped exactly when repeated points were not allowed. Closing adds the first coordinate only to an unclosed list, and arrays are returned in the requested direction.",
     ["histories"], "histories of additions, insertions, partial and reversed additions, ring closing and cloning over a tiny grid with tagged coordinates",
     "the rule depends on the neighbours at the insertion point, so it quantifies over histories; tests have four short ones",
     [G+"coordinate_list.rs"], [("neighbour check on insertion", G+"coordinate_list.rs")], ["list contents, size, order"],
     "stateful generated histories against a vector model with tagged members", "Exploration with an exact model.")
prop("P18", "Array sequences store, copy and convert every ordinate faithfully",
     "A coordinate sequence reports the size, dimension and measure count it was created with and returns for every index and ordinate exactly the last value written, through every accessor. Copies are independent of the original, conversion to arrays and coordinates keeps all ordinates of the sequence's shape, and envelopes cover exactly its points.",
     ["histories", "configurations"], "every construction and factory call times XY, XYZ, XYM and XYZM, then histories of ordinate edits, copies, reads",
     "index-to-ordinate mapping and independence of copies quantify over shapes and histories",
     [I+"coordinate_array_sequence.rs", I+"coordinate_array_sequence_factory.rs", G+"coordinate.rs"],
     [("ordinate dispatch by index", I+"coordinate_array_sequence.rs"), ("shape of created coordinates", G+"coordinates.rs")],
     ["all accessors"], "stateful generated histories against an ordinate-matrix model", "Exploration with an exact model.",
     state=[("coordinates, dimension, measures", "the stored sequence", I+"coordinate_array_sequence.rs")])
prop("P19", "Packed sequences behave exactly like array sequences",
     "A packed sequence holding the same points as an array sequence answers every query identically, through every constructor and factory call and after any history of edits. Coordinates read from it are fresh values reflecting the latest edit, copies are independent, and each ordinate lives at its own place for every shape.",
     ["histories", "configurations"], "every construction and factory call times the four shapes, then histories of ordinate edits, copies and reads, in lockstep with an array sequence",
     "stride and offset errors and stale caches show only for particular shapes and edit orders",
     [I+"packed_coordinate_sequence_double.rs", I+"packed_coordinate_sequence.rs", I+"packed_coordinate_sequence_factory.rs"],
     [("flat storage with stride", I+"packed_coordinate_sequence_double.rs")], ["all accessors"],
     "lockstep differential testing of two implementations plus an ordinate-matrix model", "Exploration with an exact model.",
     state=[("flat ordinate array", "index = point * dimension + ordinate", I+"packed_coordinate_sequence_double.rs")])
prop("P20", "Sequence algorithms permute and copy whole points only",
     "Reversing, swapping, scrolling (also as a closed ring), copying ranges, closing into valid rings, extending, ring tests, index search, minimum search and equality on sequences treat every point as a whole: all its ordinates move together and no other point changes. They give the same result on array and packed storage and for every shape.",
     ["inputs", "configurations"], "sequences of every shape on both storages, closed in the plane or in all ordinates, repetitions, all indices",
     "whole-point movement for all indices, rings and shapes is not reached by fixed XY examples",
     [G+"coordinate_array_sequences.rs", G+"packed_coordinate_sequences.rs"],
     [("ordinate-wise loops", G+"coordinate_array_sequences.rs"), ("ordinate-wise loops (packed)", G+"packed_coordinate_sequences.rs")],
     ["sequence contents after the call"], "generated sequences against an ordinate-matrix model, both storages in lockstep",
     "Exploration with an exact model.")
# --------------------------------------------------------------------------------------------- matrices, precision
prop("P21", "Intersection matrices decide the spatial predicates correctly",
     "For the intersection matrix of any two point sets the named predicates (disjoint, intersects, touches, crosses, within, contains, covers, covered by, overlaps, equals) are true exactly when their set definitions are, for every combination of dimensions. Pattern matching follows the symbol rules entry by entry, transposition swaps the operands, and setting or raising entries affects exactly the entries named.",
     ["inputs", "histories"], "all pairs of point sets on a cell complex, arbitrary matrices over F 0 1 2 T, all patterns, update histories over several matrices",
     "the predicates quantify over all 5^9 matrices times dimensions; tests pin about thirty",
     [G+"intersection_matrix.rs", G+"dimension.rs", G+"location.rs"],
     [("nine-entry matrix", G+"intersection_matrix.rs"), ("symbol conversion", G+"dimension.rs")], ["predicate answers", "matrix text"],
     "generated point-set pairs whose predicates are evaluated by set definitions; model-based update histories",
     "Exploration; set definitions follow OGC/JTS DE-9IM with the mod-2 boundary rule.",
     state=[("nine entries", "dimension per location pair", G+"intersection_matrix.rs")])
prop("P22", "Precision models round to their grid, once and for all",
     "A fixed model maps every value to the nearest multiple of its grid size with ties upward, a single-precision model to the nearest single-precision value and a floating model leaves values unchanged; rounding twice changes nothing more. Rounding a coordinate changes x and y only, and type, scale, grid size, significant digits, equality and comparison of models are consistent with each other.",
     ["inputs", "configurations"], "fixed models by scale or grid size, single and double floating models; values at, near and between grid points and ties, up to 2^41 units",
     "idempotence and tie direction quantify over scales and values; no test exists for this type",
     [G+"precision_model.rs", G+"coordinate.rs"], [("scaling and rounding", G+"precision_model.rs")],
     ["rounded values", "model accessors and order"], "generated values around ties against exact grid arithmetic; idempotence relation",
     "Exploration; ties asserted where products with the scale are exact.")
# --------------------------------------------------------------------------------------------- angles, segments, triangles
prop("P23", "Angles are measured, classified and normalized consistently",
     "Directions, angles between directions (smallest and oriented), interior angles, bisectors and turns agree with exact scalar and cross products, and acute, right and obtuse tests decide by the exact sign of the scalar product. Normalization returns an equal angle inside the stated half-open range, degree and radian conversion invert each other, and snapped sine and cosine are exact at multiples of a quarter turn.",
     ["inputs"], "directions with exact integer components also around offsets up to 2^51, nearly perpendicular ones included, simple polygons up to 12 vertices, angles in [-100, 100] incl. neighbours of multiples of pi/2",
     "range ends and sign conventions quantify over all directions and angles",
     [A+"angle.rs"], [("arctangent differences and range loops", A+"angle.rs")], ["angle values and classifications"],
     "generated directions against exact products; interior-angle-sum and inverse relations", "Exploration; tolerances of 1e-14 relative, decisions exact.")
prop("P24", "Line segments project, offset, reflect and compare correctly",
     "Length, midpoint, projection factor, closest point, projections, fractions along, offset points and segments, reflections and side tests of a segment agree with the real plane geometry, with vertical, horizontal and zero-length segments included. Closest points of two segments realise their distance, normalization orders the endpoints, reversal exchanges them, and equality and order agree.",
     ["inputs"], "segments with integer, quarter, offset and real endpoints, zero-length included; points on, near and off the line; fractions in [-2,2], offsets up to 10",
     "tests check fixed segments; sides, projections outside the segment and degenerate segments need all configurations",
     [G+"line_segment.rs", A+"distance.rs", A+"orientation.rs", A+"angle.rs"],
     [("projection factor and offsets", G+"line_segment.rs")], ["points, factors, distances, answers"],
     "generated segments and points against exact rational plane geometry; metamorphic inverse relations",
     "Exploration; decisions exact, values within 1e-13 of the extent.")
prop("P25", "Triangle centres, measures and containment are correct",
     "Area, signed area, length, longest side, centroid, circumcentre (plain and extended precision), incentre, angle bisector, perpendicular bisector and interpolated height of a triangle equal their exact values to within rounding and do not depend on vertex order beyond the documented sign. Acute and orientation classification and point containment (boundary included) are decided as in exact geometry.",
     ["inputs"], "triangles with integer or quarter vertices also around offsets up to 2^50 (containment and extended-precision circumcentre: any magnitudes, thin triangles included); right, isosceles, flat and arbitrary; points on, near and off the sides",
     "centres and containment quantify over all triangles; tests use about ten",
     [G+"triangle.rs", A+"angle.rs", M+"dd.rs", A+"hcoordinate.rs"],
     [("closed formulas", G+"triangle.rs")], ["centres, measures, answers"],
     "generated triangles against exact rational centres and areas; vertex permutation relation",
     "Exploration; containment asserted for triangles with non-zero area.")
prop("P26", "Vector algebra in the plane and in space obeys its laws",
     "Sums, differences, scalings, dot products, lengths, normalization, weighted sums, distances and angles of vectors equal the exact results to within rounding and leave the operands unchanged. Rotation by quarter turns is exact for every count, positive or negative, rotation by an angle keeps the length, parallelism is exact, and conversions to and from coordinates keep every component.",
     ["inputs"], "vectors with integer or quarter components up to 2^25 (nearly parallel ones up to 2^50), scaled by 2^-400 to 2^400, parallel and perpendicular pairs, all quarter-turn counts, angles in [-10,10]",
     "laws over all vectors and all turn counts; tests sample a few",
     [M+"vector_2d.rs", M+"vector_3d.rs"], [("component formulas", M+"vector_2d.rs"), ("component formulas (3D)", M+"vector_3d.rs")],
     ["components and scalars"], "generated vectors against exact integer algebra; algebraic laws", "Exploration; exact on integers, a few ulps otherwise.")
prop("P27", "Linear systems are solved exactly when regular",
     "Solving a square linear system gives its unique solution to within rounding whenever the matrix is regular, whatever row exchanges are needed, and no solution when it is singular or the sizes do not match. Row exchange swaps exactly the two rows named.",
     ["inputs"], "integer systems with up to ten unknowns incl. permuted triangular ones, scaled by powers of two; singular and mismatched systems",
     "the repository has no test of the solver at all; pivoting errors need zero pivots in particular places",
     [M+"matrix.rs"], [("elimination with partial pivoting", M+"matrix.rs")], ["solution vector or none"],
     "generated systems with exact rational solutions and condition numbers", "Exploration; accuracy relative to the exact condition number.")
# --------------------------------------------------------------------------------------------- geometry objects
prop("P28", "Geometry objects, copies and parts are faithful and independent",
     "A geometry reports exactly the points, parts, rings, dimensions, emptiness, counts, lengths and envelope of what it was built from, through every accessor and after any history of copying, reversing, extracting, re-initializing and normalizing. Copies and reversals keep every ordinate, attached type and precision model, reversal reverses the vertex order of every component, and changing one object or the source it was built from never changes another.",
     ["histories", "configurations"], "histories over all seven geometry types, with and without z, m and precision models, empty members included; every factory construction",
     "independence and fidelity quantify over histories; the tests cover two multi-point cases",
     [G+"geometry.rs", G+"geometry_factory.rs", G+"point.rs", G+"line_string.rs", G+"linear_ring.rs", G+"polygon.rs", G+"multi_point.rs", G+"multi_line_string.rs", G+"multi_polygon.rs"],
     [("deep copies", G+"geometry.rs"), ("factory constructions", G+"geometry_factory.rs")], ["all geometry accessors"],
     "stateful generated object histories against an immutable structural model of each object",
     "Exploration with an exact model; multi line strings are observed through their few accessors only.",
     state=[("owned coordinates, rings and members", "the geometry's structure", G+"geometry.rs")])
prop("P29", "Normalization gives one canonical form per point set structure",
     "Normalizing a polygon makes shells clockwise and holes counter-clockwise, starts every ring at its smallest vertex and sorts the holes, so that two polygons differing only in ring starts, directions and hole order become exactly equal; line strings are directed so that the smaller end comes first. Normalization is idempotent, keeps the closed rings closed and every vertex with its z and m.",
     ["inputs"], "polygons with up to five simple rings, any start, any direction, shared vertices, z and m; arbitrary closed rings; lines up to eight vertices biased to symmetric ones",
     "canonicity quantifies over all presentations of a polygon; no test normalizes anything",
     [G+"polygon.rs", G+"line_string.rs", G+"geometry.rs", G+"coordinate_array_sequences.rs", A+"orientation.rs"],
     [("ring rotation and direction", G+"polygon.rs"), ("direction of lines", G+"line_string.rs")], ["coordinates after normalization"],
     "metamorphic: all presentations of one generated polygon must normalize to one form, checked against a direct canonicalisation",
     "Exploration with an exact model; canonical form asserted for simple rings.")
prop("P30", "Exact equality and ordering of geometries are structural and total",
     "Two geometries are exactly equal within a tolerance exactly when they have the same type, the same structure and corresponding vertices within that tolerance. Comparison orders by type and then structurally by vertices, with and without a custom coordinate order; it is antisymmetric, transitive and zero for equal structures.",
     ["inputs"], "pairs and triples of geometries of every type, one derived from the other by exactly known changes; tolerances at and around the distances",
     "order laws and exact tolerance ends quantify over pairs and triples of structures",
     [G+"geometry.rs", G+"polygon.rs", G+"line_string.rs", G+"point.rs", G+"multi_point.rs", G+"multi_polygon.rs", G+"multi_line_string.rs"],
     [("structural comparison", G+"geometry.rs")], ["equality and comparison answers"],
     "generated derived pairs and triples against a structural reference order; order laws", "Exploration with an exact oracle.")
prop("P31", "Structural predicates of geometries are exact",
     "The rectangle test is true exactly for polygons without holes whose five vertices run round an axis-parallel box. Closedness, emptiness, dimension, boundary dimension, type names, sort order, start and end points and vertex counts follow from the structure for every geometry type, empty ones included.",
     ["inputs"], "axis-parallel boxes and near misses of them (moved, swapped, inserted, removed vertices, holes), geometries of every type with closed, almost closed and empty members",
     "near misses of the rectangle rule and empty members are not sampled by tests",
     [G+"polygon.rs", G+"line_string.rs", G+"linear_ring.rs", G+"multi_line_string.rs", G+"geometry.rs", G+"multi_point.rs", G+"point.rs"],
     [("rectangle test", G+"polygon.rs"), ("dimension tables", G+"geometry.rs")], ["predicate answers"],
     "generated boxes and mutations of them against a direct definition", "Exploration with an exact oracle.")
prop("P32", "Numeric and positional helpers follow their definitions",
     "Clamping, extrema, averages, rounded-up integer division, index wrapping, quasi-random steps, equality within a tolerance and shuffles follow their mathematical definitions for every input, and a shuffle is always a permutation that can reach every order. Quadrants of directions, half-planes, opposite and common quadrants, opposite positions and location symbols are consistent with the signs of the direction.",
     ["inputs"], "doubles incl. signed zeros, infinities and extremes, i32 incl. both ends, vectors and point pairs on, next to and off the axes, all quadrant pairs",
     "no test covers these helpers; the claims are over full numeric ranges",
     ["src/core/util/math_util.rs", "src/core/util/number_util.rs", G+"quadrant.rs", G+"position.rs", G+"location.rs"],
     [("numeric helpers", "src/core/util/math_util.rs"), ("quadrant table", G+"quadrant.rs")], ["returned values"],
     "generated values against wide-integer definitions; exhaustive quadrant tables; reachability by sampling",
     "Exploration; quadrant and position tables are covered exhaustively.")
prop("P33", "Textual forms carry every shown number exactly and in order",
     "The text of a coordinate, vector, envelope or coordinate sequence shows its numbers in the documented order and parses back to exactly the same numbers. The text of a sequence is the texts of its coordinates in order, separated and bracketed, for every length including empty.",
     ["inputs"], "coordinates, vectors, boxes and sequences of every shape with signed zeros, extremes, infinities and missing ordinates",
     "no test reads these texts; round-tripping is a claim over all numbers",
     [G+"coordinate.rs", G+"envelope.rs", M+"vector_2d.rs", M+"vector_3d.rs", I+"coordinate_array_sequence.rs"],
     [("display implementations", G+"coordinate.rs")], ["text"],
     "generated values, round trip through the text", "Exploration with an exact round-trip oracle.")

exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None

HOOK = "crate items are private to the crate: src/verif_api.rs re-exports them under --cfg geos_verif"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=HOOK)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="geos_verif", enable='RUSTFLAGS="--cfg geos_verif" (set by check.sh and setup.sh); the cfg adds the re-exporting module src/verif_api.rs', source_commits=["b94bcaf"]),
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique="property-based testing: " + p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="Generators, engine and exact oracles are in harness/; every random choice derives from VERIF_SEED; a violation is shrunk and written to replays/. Known findings and repairs: known_findings.txt.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
