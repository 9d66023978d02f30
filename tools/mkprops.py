#!/usr/bin/env python3
# Regenerates properties.jsonl (single place where the wording lives).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/ftk/"

p("P01", "Robust simplex test is exact on non-degenerate integer vectors",
  "When the fixed-point vectors at the vertices of a segment, triangle or tetrahedron are in general position, the robust test reports that the simplex contains a zero of the interpolated field exactly when the origin lies strictly inside the simplex spanned by the vectors. In degenerate positions (zero vectors, collinear or coplanar vectors, duplicates) the sign of every perturbed determinant is still decided: it is +1 or -1, never 0.",
  ["inputs"], "all integer vertex vectors (fixed-point values) and all distinct vertex ids",
  "tests track a few analytic fields whose vertex values are in general position; the degenerate cases are a measure-zero set no sampled field hits",
  [I+"numeric/sign_det.hh", I+"numeric/critical_point_test.hh"],
  [("simulation-of-simplicity sign of 2x2/3x3/4x4 determinants", I+"numeric/sign_det.hh"),
   ("robust containment tests", I+"numeric/critical_point_test.hh")])
p("P02", "Robust simplex test does not depend on vertex listing order",
  "For the same set of (vertex id, vertex vector) pairs, the robust containment decision for a segment, triangle or tetrahedron is the same for every order in which the vertices are listed. The perturbed orientation sign flips under every exchange of two vertices and is preserved by every even permutation.",
  ["inputs"], "all integer vectors including degenerate ones, all distinct vertex ids, all permutations",
  "a mesh presents the same cell in different orders from different sides; tests use one order and generic data",
  [I+"numeric/sign_det.hh", I+"numeric/critical_point_test.hh"],
  [("swap-sort of vertices by id with parity tracking", I+"numeric/sign_det.hh")])
p("P03", "Cells sharing a face never lose or double-count a zero crossing",
  "If the robust test is applied to the simplices of a subdivided cell, a zero is reported by exactly as many sub-simplices as it is topologically covered: around a closed cell boundary the number of punctured faces is even, and the sub-simplices that tile a bigger simplex together report a crossing exactly when the bigger one does (mod 2). This holds for every vertex vector, including ones where the zero lies exactly on a shared vertex or edge.",
  ["inputs"], "all integer vertex vectors (degenerate ones included) and vertex ids",
  "consistency between neighbouring cells only fails on degenerate data that sampled tests never produce",
  [I+"numeric/sign_det.hh", I+"numeric/critical_point_test.hh"],
  [("consistent symbolic perturbation keyed by vertex id", I+"numeric/sign_det.hh")])
p("P04", "Lattice coordinate/integer conversion is a bijection inside bounds",
  "For every lattice (any lower corner, any positive extents) every point inside converts to an index in [0, number of points), different points get different indices, and converting back yields the same point. A point is reported as contained exactly when every coordinate is within the lower and upper bound, and the reported upper bound, size and point count agree with each other.",
  ["inputs", "configurations"], "all starts, sizes, points within bounds, 1 to 4 dimensions, time-varying or not",
  "tests convert a handful of points on one lattice",
  [I+"mesh/lattice.hh"], [("mixed-radix conversion with precomputed strides", I+"mesh/lattice.hh")])
p("P05", "Lattice partitioning covers the domain without overlap, ghosts stay inside",
  "When a lattice is partitioned into blocks, every lattice point belongs to exactly one block core, the requested number of blocks is produced, and every block extent lies inside the domain, contains its core and is enlarged by at most the requested ghost width in each direction. Dimensions the caller pins to a block count get that many blocks.",
  ["configurations", "inputs"], "all lattice sizes, block counts, per-dimension constraints and ghost widths",
  "tests print partitions without checking coverage, for a few sizes",
  [I+"mesh/lattice_partitioner.hh"], [("recursive prime-factor slicing", I+"mesh/lattice_partitioner.hh")])
p("P06", "Regular-mesh element numbering is one-to-one",
  "In a regular simplicial mesh of any domain, every valid element of every dimension and every scope (ordinal, interval, all) maps to an integer in [0, number of elements) and back to the same element, and no two elements share an integer. Numbering relative to a sub-domain and scope likewise assigns each index below the count its own element of the sub-domain and scope, and the relation 'less than' between elements of one dimension is a strict total order consistent with equality.",
  ["inputs", "configurations"], "all domain bounds, corners and types within bounds; 2D, 3D and 4D meshes",
  "tests convert a few elements of one mesh",
  [I+"mesh/simplicial_regular_mesh.hh", I+"mesh/lattice.hh"],
  [("corner-lattice index times types plus type", I+"mesh/simplicial_regular_mesh.hh")])
p("P07", "Regular-mesh boundary and coboundary relations are dual",
  "For every element of a regular simplicial mesh, its sides are exactly the distinct lower-dimensional faces spanned by all but one of its vertices, and an element lists a higher-dimensional element as parent exactly when that one lists it as a side. The vertices of an element span a simplex inside one unit cell, at most one step from its corner.",
  ["inputs", "configurations"], "all element types, corners and mesh dimensions up to spacetime 4D",
  "tests look at sides of a few elements in one dimension",
  [I+"mesh/simplicial_regular_mesh.hh"],
  [("table-driven sides/side_of derived by enumerating the unit cell", I+"mesh/simplicial_regular_mesh.hh")])
p("P08", "Traversal of a regular mesh visits each element exactly once",
  "Visiting the elements of a given dimension over a domain calls the visitor exactly once for every element whose corner lies in the traversed lattice, whatever the scope and the number of threads. Elements of the scope 'ordinal' lie within one time slice, elements of scope 'interval' span two consecutive slices, and the two scopes together are all elements.",
  ["inputs", "configurations"], "all lattices and dimensions within bounds, all scopes and thread counts",
  "tests run trackers whose output hides missing or duplicated visits",
  [I+"mesh/simplicial_regular_mesh.hh", I+"object.hh"],
  [("element_for over corner lattice x types", I+"mesh/simplicial_regular_mesh.hh")])
p("P09", "Parallel loops execute every task exactly once",
  "Running a loop body over n tasks executes it exactly once for every task index in [0, n) and never for any other index, for every n (including zero), every number of threads and every backend. Loops over sets and containers handle every element exactly once.",
  ["inputs", "schedules"], "all task counts and thread counts within bounds",
  "tests use a single thread count and cannot see skipped remainders",
  [I+"object.hh"], [("chunking of the task range over threads", I+"object.hh")])
p("P10", "Unstructured triangle mesh: incidence relations are mutually inverse",
  "For a triangle mesh built from any valid connectivity, the edge set is exactly the set of vertex pairs occurring in triangles, each listed once; looking an edge or triangle up by its vertices returns the id whose vertices those are. Sides and parents are dual relations, and the neighbours of a vertex are exactly the vertices it shares an edge with.",
  ["inputs"], "all triangulations with few vertices and any listing order of triangles and their vertices",
  "tests load one or two meshes and never check the relations",
  [I+"mesh/simplicial_unstructured_2d_mesh.hh", I+"mesh/simplicial_unstructured_mesh.hh"],
  [("edge map keyed by sorted vertex pair, vertex/edge/triangle adjacency", I+"mesh/simplicial_unstructured_2d_mesh.hh")])
p("P11", "Extruded (space-time) unstructured mesh: ids and vertex sets correspond",
  "In a triangle mesh extruded in time, an element id of any dimension determines a set of distinct space-time vertices in increasing order, and looking that set up returns the same id, in every time slab including negative or zero offset ones. The elements within one slab tile it: ordinal elements lie in a single layer, interval elements touch two consecutive layers, and every side of an element is an element whose vertices are a subset of it.",
  ["inputs", "configurations"], "all small base triangulations, all element ids over several slabs",
  "tests walk one extruded mesh and check nothing about the ids",
  [I+"mesh/simplicial_unstructured_extruded_2d_mesh.hh"],
  [("prism subdivision into simplices with id = base id + type offset + slab offset", I+"mesh/simplicial_unstructured_extruded_2d_mesh.hh")])
p("P12", "Array indexing, reshaping and conversion keep every element in its place",
  "In a multi-dimensional array, distinct multi-indices inside the extents address distinct elements covering the storage, the first index running fastest, and index-to-multi-index conversion is its inverse. Reshaping, transposing, appending dimensions, copying and converting types move elements exactly as their definition says; nothing else changes. Element-wise arithmetic and scaling act on every element, the minimum/maximum, largest magnitude and smallest non-zero magnitude are attained bounds, and clamping changes only values outside the range.",
  ["inputs", "configurations"], "all shapes up to 4 dimensions within bounds, all values",
  "tests check single shapes and values",
  [I+"ndarray.hh", I+"ndarray/ndarray_base.hh"],
  [("stride table computed at reshape", I+"ndarray/ndarray_base.hh")])
p("P13", "Array slicing, stacking, concatenating and serializing preserve content",
  "Slicing a sub-block, taking a time slice, stacking arrays, concatenating arrays and round-tripping through the serialized form yield arrays of the documented shape whose every element equals the corresponding input element. Splitting an array into time slices and stacking them back gives the original.",
  ["inputs", "configurations"], "all shapes and offsets within bounds, all values",
  "tests check single shapes and values",
  [I+"ndarray.hh"], [("slice/stack/concat/to_vector/serialization", I+"ndarray.hh")])
p("P14", "Multilinear interpolation reproduces multilinear fields inside the domain",
  "Sampling an array at any position within its extents returns the multilinear blend of the surrounding grid values: it is exact for multilinear fields, equals the grid value at grid points, and stays within the range of the surrounding values. Positions outside the extents (0 <= x < n-1 per axis) are rejected instead of reading outside the array. The quadrilateral and hexahedron interpolation helpers return the bilinear and trilinear blend of their corners.",
  ["inputs"], "all array values and all positions, 1 to 3 dimensions",
  "tests sample a few positions",
  [I+"ndarray.hh", I+"numeric/bilinear_interpolation.hh", I+"numeric/trilinear_interpolation.hh"],
  [("mlerp", I+"ndarray.hh")])
p("P15", "Derivative stencils are consistent with the field",
  "On every affine field the computed gradient arrays are constant in the interior, proportional to the true gradient with one common factor for all components, and the Jacobian of a vector field holds in each entry the derivative of the matching component along the matching axis. The stencils are central differences, so the same holds for quadratic fields. Vorticity, cross-product and Jacobian-vector-product arrays agree with their definitions at inner points, and time slices never mix. On a triangle mesh the gradient of an affine scalar or vector field equals its true gradient at every vertex, and second derivatives of affine fields vanish.",
  ["inputs"], "all affine and multi-affine fields on small grids",
  "tests compare tracked results on a few fields, which hides scale or cross-term errors",
  [I+"ndarray/grad.hh"], [("central-difference stencils", I+"ndarray/grad.hh")])
p("P16", "Convolution equals its defining sum",
  "Convolving an array with a kernel with given padding gives an array of the documented size whose every entry equals the sum over kernel entries times the zero-padded input, divided by the number of kernel entries. Gaussian kernels are symmetric, positive and normalized.",
  ["inputs"], "all small arrays, kernels and paddings, all values",
  "tests run single cases without an oracle",
  [I+"ndarray/conv.hh"], [("conv2D/conv3D", I+"ndarray/conv.hh")])
p("P17", "Union-find yields exactly the partition generated by the unions",
  "After any sequence of insertions and unite operations, two elements are in the same set exactly when a chain of unite operations connects them, and every element has exactly one representative that belongs to its own set. Repeated or reordered queries, including path compression, never change the partition, and extracted sets are disjoint and cover all elements.",
  ["histories"], "all sequences of unite/find operations over a few elements",
  "tests run one or two fixed sequences",
  [I+"basic/union_find.hh", I+"basic/simple_union_find.hh", I+"basic/duf.hh"],
  [("parent links with path compression / size", I+"basic/union_find.hh")])
p("P18", "Connected components match graph connectivity",
  "Extracting connected components of a graph given by its nodes and neighbour relation yields disjoint, non-empty groups that together hold every node, and two nodes are in one group exactly when a path joins them. Image labelling gives equal labels exactly to foreground cells joined through face neighbours and leaves background unlabelled.",
  ["inputs"], "all graphs and images within a small size",
  "tests label one image",
  [I+"algorithms/cca.hh", I+"algorithms/hoshen_kopelman.hh", I+"basic/union_find.hh"],
  [("component search via union-find and raster labelling", I+"algorithms/cca.hh")])
p("P19", "Decomposing a component into curves uses every node once along real links",
  "Splitting a connected set of nodes into linear pieces yields pieces whose consecutive nodes are neighbours, no node appears in two pieces, and every node of a branch-free component appears: such a component becomes a single piece, flagged as loop exactly when it is a cycle of three or more nodes.",
  ["inputs"], "all small graphs",
  "tests only trace analytic fields",
  [I+"geometry/cc2curves.hh", I+"algorithms/linear_graph_tracer.hh"],
  [("special-node removal, then walking of the linear pieces", I+"geometry/cc2curves.hh")])
p("P20", "Nearest-neighbour search returns a true nearest point",
  "For every set of points and every query, the spatial search structure returns a point whose distance to the query is minimal over the set.",
  ["inputs"], "all point sets up to a small size and all queries, ties included",
  "tests compare on random points, which never tie or align",
  [I+"basic/kd.hh"], [("median-split tree with pruned descent", I+"basic/kd.hh")])
p("P21", "Shortest-path search returns a shortest connecting path",
  "On every graph with non-negative link weights, the path search between two connected nodes returns a path that starts and ends at them, follows existing links only, and whose total weight is minimal.",
  ["inputs"], "all small weighted graphs",
  "tests run one graph",
  [I+"algorithms/dijkstra.hh", I+"algorithms/bfs.hh"], [("relaxation loop", I+"algorithms/dijkstra.hh")])
p("P22", "Small linear systems are solved correctly",
  "For every invertible 2x2, 3x3 (and least-squares) system the solver's result satisfies the equations; for singular systems this is reported through the returned determinant or status instead of a silent wrong answer. Matrix inverses multiply back to the identity, with the returned determinant.",
  ["inputs"], "all real matrices and right-hand sides",
  "tests use random matrices, so never near-singular structure such as zero pivots",
  [I+"numeric/linear_solver.hh", I+"numeric/matrix_inverse.hh", I+"numeric/det.hh", I+"numeric/linear_solver1.hh"],
  [("Cramer / adjugate formulas", I+"numeric/matrix_inverse.hh")])
p("P23", "Matrix algebra helpers satisfy the algebraic laws",
  "Determinant, trace, transpose, product, cross and inner product, adjugate, symmetric decomposition, norms and characteristic polynomials satisfy their defining identities for every matrix: the characteristic polynomial evaluates to the determinant of the shifted matrix, the product is associative with vectors, the cross product is orthogonal to its arguments.",
  ["inputs"], "all real 2x2, 3x3 and 4x4 matrices",
  "tests use a few random matrices",
  [I+"numeric/det.hh", I+"numeric/characteristic_polynomial.hh", I+"numeric/matrix_multiplication.hh", I+"numeric/cross_product.hh", I+"numeric/trace.hh", I+"numeric/transpose.hh"],
  [("closed-form formulas", I+"numeric/characteristic_polynomial.hh")])
p("P24", "Polynomial root solvers return exactly the real roots",
  "For every real polynomial of degree one or two (degenerate leading coefficients included) the real-root solver returns only roots and all of them, and never touches memory beyond the result it announces. Polynomial evaluation, differentiation, addition, subtraction and multiplication satisfy the ring laws coefficient by coefficient.",
  ["inputs"], "all real coefficients",
  "tests use random coefficients that never make the leading one vanish",
  [I+"numeric/quadratic_solver.hh", I+"numeric/polynomial.hh", I+"numeric/linear_solver1.hh"],
  [("discriminant formulas", I+"numeric/quadratic_solver.hh")])
p("P25", "Eigen-solvers of small matrices satisfy the eigen equations",
  "For every symmetric 2x2 matrix the returned eigenvalues are real, ordered and satisfy the characteristic equation, and for generic 2x2 matrices complex pairs are conjugate with the right sum and product. Returned eigenvectors satisfy the eigen equation.",
  ["inputs"], "all real matrices",
  "tests use random matrices, never repeated eigenvalues or zero off-diagonals",
  [I+"numeric/eigen_solver2.hh", I+"numeric/eigen_solver3.hh"], [("closed-form eigenvalues", I+"numeric/eigen_solver2.hh")])
p("P26", "Interpolation on simplices and quads reproduces data and inverts",
  "Barycentric interpolation on segments, triangles and tetrahedra is affine, reproduces vertex values at the vertices and every affine field everywhere; the inverse problem returns barycentric coordinates that sum to one and interpolate to the requested value (zero) whenever it reports success. Gradients on a simplex of affine data equal the true gradient.",
  ["inputs"], "all vertex values, vertex positions and coordinates",
  "tests use random values",
  [I+"numeric/linear_interpolation.hh", I+"numeric/inverse_linear_interpolation_solver.hh", I+"numeric/gradient.hh", I+"numeric/bilinear_interpolation.hh"],
  [("lerp_s*, inverse_lerp_s*", I+"numeric/inverse_linear_interpolation_solver.hh")])
p("P27", "Clamping barycentric coordinates yields a point of the simplex",
  "Clamping any barycentric coordinates yields non-negative coordinates summing to one, and leaves coordinates that already lie in the simplex unchanged; scalar clamping yields a value between the bounds, equal to the input if inside.",
  ["inputs"], "all coordinates (any real numbers)",
  "tests never feed outside coordinates",
  [I+"numeric/clamp.hh"], [("clamp_barycentric", I+"numeric/clamp.hh")])
p("P28", "Inequality solvers and interval sets describe exactly the solution set",
  "Every point is in the returned set exactly when it satisfies the inequality, for linear inequalities and for quotients of polynomials of degree at most two away from the roots, degenerate forms included. Membership in an interval follows its bounds; intersecting intervals, and joining and intersecting sets of intervals, act on membership exactly like the set operations, for open, closed, unbounded and empty intervals, and the parts of a set stay disjoint.",
  ["inputs", "histories"], "all coefficients, interval end points, open/closed flags and query points",
  "tests do a few interval operations",
  [I+"numeric/basic_interval.hh", I+"numeric/disjoint_intervals.hh", I+"numeric/linear_inequality_solver.hh"],
  [("interval algebra", I+"numeric/disjoint_intervals.hh")])
p("P29", "Critical point classification follows the eigenvalue signs",
  "A critical point of a two-dimensional field is classified as attracting, repelling, saddle, focus or center exactly according to the signs of the eigenvalues of its Jacobian (or Hessian for gradient fields, as minimum, maximum or saddle), and the same for three dimensions by the number of positive eigenvalues.",
  ["inputs"], "all Jacobians and Hessians",
  "tests check types at a few points of analytic fields",
  [I+"numeric/critical_point_type.hh"], [("critical_point_type_2d/3d", I+"numeric/critical_point_type.hh")])
p("P30", "Parallel-vectors solver finds exactly the points where two fields are parallel",
  "On a triangle with two linearly interpolated three-dimensional vector fields, every returned point has barycentric coordinates inside the triangle that sum to one and the two fields are parallel there with the returned ratio.",
  ["inputs"], "all vertex vectors within bounds",
  "tests use random triangles",
  [I+"numeric/parallel_vector_solver3.hh", I+"numeric/parallel_vector_solver2.hh"], [("eigenproblem of the pencil of the two vertex matrices", I+"numeric/parallel_vector_solver3.hh")])
p("P31", "Feature points survive conversion and serialization",
  "Converting a feature point to its compact form and back, or writing it to a byte buffer and reading it back, preserves position, time, scalars, type, tag and flags bit for bit. The same holds for curves and for collections of them, in order.",
  ["inputs"], "all field values including NaN payloads and infinities",
  "tests round-trip through files of a few tracked points",
  [I+"features/feature_point.hh", I+"features/feature_point_lite.hh", I+"features/feature_curve.hh"],
  [("to_lite/from_lite, diy serialization", I+"features/feature_point.hh")])
p("P32", "Editing a trajectory preserves its points",
  "Splitting a trajectory by type yields pieces of a single type which are consecutive runs of the original; rotating a loop is a cyclic shift; reordering only reverses or cyclically shifts; selecting and discarding keep exactly the points that match, in order. Smoothing and time adjustment change only types respectively times of the points they are defined to change, unwrapping shifts positions by whole periods only, and velocities are the difference quotients between neighbouring points. Summary values (time span, bounding box, consistent type, duration) computed afterwards are the extrema over the points.",
  ["inputs", "histories"], "all trajectories of a few points with all types, times and flags",
  "tests only write trajectories of analytic fields",
  [I+"features/feature_curve.hh", I+"features/feature_curve_set.hh"],
  [("split/rotate/reorder/discard/update_statistics", I+"features/feature_curve.hh")])
p("P33", "Curve collections keep curves under consistent ids",
  "Adding a curve without a label gives it an id not in use, and each curve is stored under the id it and its points carry; adding never loses another curve. Filtering keeps exactly the curves that satisfy the predicate, splitting all curves keeps their pieces under the original id, and intercepting a time interval keeps exactly the curves and points inside it.",
  ["histories"], "all sequences of add and filter operations on a few curves",
  "tests add curves in one order",
  [I+"features/feature_curve_set.hh"], [("id assignment on add", I+"features/feature_curve_set.hh")])
p("P34", "Tracking-graph events follow from the links between time steps",
  "For every set of links between labelled components at successive times, each group of linked components is reported as exactly one event: one component without predecessor is a birth, one without successor a death, two to one a merge, one to two a split, two to two a recombination, all other groups compound; a one-to-one link is no event. Nodes and links are known exactly if they were added, and global labels are equal exactly along chains of one-to-one links.",
  ["inputs", "histories"], "all small bipartite link sets over a few time steps, added in any order",
  "tests build one graph",
  [I+"tracking_graph/tracking_graph.hh", I+"tracking_graph/event.hh"], [("event detection over left/right links", I+"tracking_graph/tracking_graph.hh")])
p("P35", "Ocean-model layer search and cell location are correct",
  "Locating a depth in a column of strictly monotone layer tops by bisection returns the layer that contains it, and reports out of range exactly when no layer does. Polygon containment holds exactly for points on the inner side of all edges, and generalized barycentric weights are non-negative, sum to one and reproduce affine functions inside convex cells.",
  ["inputs"], "all monotone columns and depths within bounds; all convex cells",
  "tests need ocean-model files that the test machine does not have",
  [I+"numeric/mpas.hh", I+"numeric/wachspress_interpolation.hh"], [("bisection over layer tops; wachspress weights", I+"numeric/mpas.hh")])
p("P36", "Quaternions, angles and scalar helpers satisfy their laws",
  "Quaternion products follow Hamilton's rules, rotating a vector about an axis is the rotation by that angle (length and axis component kept), spherical stepping keeps the radius (plus the vertical motion) and Runge-Kutta steps agree with the fourth-order Taylor step on linear fields, stopping when the field is undefined. Sign, gcd, modulo and rational/fixed-point helpers satisfy their defining laws, with results in the documented range for negative operands as well.",
  ["inputs"], "all inputs in range",
  "no tests",
  [I+"numeric/quaternion.hh", I+"numeric/fmod.hh", I+"numeric/gcd.hh", I+"numeric/sign.hh", I+"numeric/fixed_point.hh", I+"numeric/rational_number.hh"],
  [("closed-form formulas", I+"numeric/fmod.hh")])
p("P37", "File-name and string helpers behave as documented",
  "Prefix and suffix tests, lower-casing, and detection and removal of file extensions agree with the string definition for every string, whatever the letter case of the extension.",
  ["inputs"], "all strings up to a few bytes",
  "tests use a few names",
  [I+"utils/string.hh", I+"io/util.hh"], [("string helpers", I+"utils/string.hh")])
p("P38", "Regular trackers report each feature crossing exactly once per cell",
  "Running a regular-grid tracker over two time steps reports, for every input field, exactly the space-time faces the robust test says are punctured - each once, located inside its face, with the interpolated time between the two steps - whatever the thread count.",
  ["inputs", "schedules"], "all vertex values on a small grid",
  "tests compare only final trajectory counts on analytic fields",
  [I+"filters/critical_point_tracker_2d_regular.hh", I+"filters/regular_tracker.hh"],
  [("check_simplex over spacetime elements", I+"filters/critical_point_tracker_2d_regular.hh")])
p("P39", "Distributed gathering and redistribution lose nothing",
  "Gathering values or keyed maps from all processes delivers to the root exactly the union of what the processes contributed; redistributing by key delivers every entry to exactly the process its key is assigned to.",
  ["inputs", "schedules"], "all contents and process counts within bounds",
  "tests run with few processes and do not inspect the contents",
  [I+"utils/gather.hh", I+"utils/redistribution.hh"], [("serialize, exchange sizes, exchange bytes, deserialize", I+"utils/gather.hh")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
