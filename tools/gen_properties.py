#!/usr/bin/env python3
"""Writes ../properties.jsonl.  Kept so that the long texts stay editable."""
import json, os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


S = "src/tinymesh/"

prop("C01", "Vector arithmetic means component-wise real arithmetic",
     "For every choice of finite 2-D and 3-D vectors and scalars, sum, difference, negation, product and quotient (vector with vector, vector with scalar and scalar with vector, plain and compound-assignment forms) act component by component with the usual meaning of the operator, and never change an operand that is not assigned to. "
     "Dot product, cross product, length and normalisation are the Euclidean ones, constructors fill exactly the components they are given, and a matrix times a vector is the matrix product.",
     ["inputs"], "all finite component and scalar values",
     "The existing tests compare a few random vectors of each type and never use subtraction of a scalar or the mixed forms; they cannot reach every component value.",
     [S + "core/vec.h"],
     [("operators", "core/vec.h Vec<Float,Dims>::operator+= -= *= /= and the free operators"),
      ("products", "core/vec.h dot, cross, length, normalize")],
     ["Vec2/Vec3 operators and free functions"])

prop("C02", "Vector equality, hashing, conversion and zero-division rules are coherent",
     "Two vectors compare equal exactly when all components compare equal, inequality is the negation, and vectors that compare equal always have equal hash values (also when zeros differ in sign). "
     "Dividing by a zero scalar, or by a vector with any zero component, always raises an error, and dividing by anything else never does. "
     "Element-wise absolute value, minimum and maximum and the conversion to and from the linear-algebra vector type treat every component independently and lose nothing.",
     ["inputs"], "all component values, including signed zeros, infinities and (for comparison) NaN",
     "Hash/equality coherence and the exact zero-division frontier are statements about all bit patterns; tests use random non-zero values.",
     [S + "core/vec.h", S + "core/utils.h"],
     [("equality and hash", "core/vec.h operator==, std::hash<Vec>"),
      ("zero checks", "core/vec.h operator/=")],
     ["Vec2/Vec3 comparison, std::hash, std::abs/min/max, Eigen conversions"])

prop("C03", "Corner angles, cotangents, obtuseness and dihedral angles agree with geometry",
     "For every non-degenerate triple of points the angle at the middle point lies in [0, pi] and has the sine and cosine given by the edge vectors, the cotangent is their ratio, and a triangle is called obtuse exactly when its largest angle exceeds a right angle, whatever the order of its vertices. "
     "The dihedral angle between two triangles sharing an edge has the cosine of the angle between their (oriented) normals, does not depend on which triangle is named first up to orientation, and is 0 when either triangle is degenerate.",
     ["inputs"], "all point positions (real arithmetic)",
     "No existing test touches these helpers; they decide weights, areas and hole filling for every mesh geometry.",
     [S + "core/vec.h"],
     [("angle helpers", "core/vec.h angle, obtuse, cot, dihedral")],
     ["angle, obtuse, cot, dihedral"])

prop("C04", "Bounding boxes are tight, monotone and give exact point distances",
     "A box grown from any points is the smallest axis-aligned box containing them, merging two boxes gives the smallest box containing both, and the inside test holds exactly for points of the closed box. "
     "The distance from a point to a box is 0 inside and otherwise the distance to the nearest point of the box, the surface area is that of the cuboid, and the reported longest axis has the greatest extent.",
     ["inputs"], "all finite coordinates within +-1e20",
     "Boxes are never exercised by the tests that run; correctness of pruning depends on every combination of orderings.",
     [S + "core/bounds.h", S + "core/triangle.cpp"],
     [("box operations", "core/bounds.h Bounds::merge, inside, distance, area, maxExtent"),
      ("triangle box", "core/triangle.cpp Triangle::bounds")],
     ["Bounds2/Bounds3, Triangle::bounds"])

prop("C05", "Closest point on a triangle lies on it and nothing on it is closer",
     "For every non-degenerate triangle and every query point, the returned closest point is a point of the triangle (a convex combination of its corners) and no other point of the triangle is closer to the query. "
     "The reported distance equals the distance from the query to that point.",
     ["inputs"], "all triangles with positive area and all query points (real arithmetic)",
     "Seven Voronoi regions with boundaries depending on eleven real parameters; a handful of examples misses whole regions (and did).",
     [S + "core/triangle.cpp"],
     [("region classification", "core/triangle.cpp Triangle::closestPoint")],
     ["Triangle::closestPoint, Triangle::distance"])

prop("C06", "Accelerated closest-point queries equal the brute-force minimum",
     "For every non-empty triangle list and every query point, the spatial index returns a point of one of the triangles whose distance to the query is the minimum over all triangles, and its distance function returns that minimum. "
     "Building the index terminates and never drops, duplicates or reads outside the triangles, whatever their positions (coincident, collinear, unevenly spread), also when an index object is rebuilt with different data.",
     ["inputs", "histories"], "triangle lists, query points, rebuild sequences",
     "Pruning and partition errors only show for particular spatial arrangements and for lists long enough to reach the bucketed split.",
     [S + "core/bvh.cpp", S + "core/bvh.h", S + "core/bounds.h", S + "core/triangle.cpp"],
     [("tree construction", "core/bvh.cpp BVH::constructRec"), ("pruned traversal", "core/bvh.cpp BVH::closestPoint")],
     ["BVH(vertices, indices), BVH(mesh), BVH::construct, closestPoint, distance"],
     [("root/nodes/tris", "tree over triangle bounds", "core/bvh.h")])

prop("C07", "Building a mesh from a manifold triangle list gives consistent connectivity",
     "For every oriented manifold triangle list (with or without boundary, any number of components) the built mesh contains every listed triangle exactly once with its corner order, and exactly one extra hole face per boundary loop. "
     "Following opposite/next/source/face links is consistent everywhere: opposites pair up edges with swapped end points, faces are closed cycles, walking around a vertex meets every incident face exactly once, and stored element indices match their positions.",
     ["inputs"], "all manifold triangle lists within the size bound, all vertex positions",
     "Connectivity depends on the order and orientation of triangles and the shape of boundary loops; the mesh tests need files and loaders that are absent here and only cover a few models.",
     [S + "core/mesh.cpp", S + "core/halfedge.h", S + "core/vertex.cpp", S + "core/face.cpp"],
     [("half-edge construction", "core/mesh.cpp Mesh::construct()")],
     ["Mesh(vertices, indices), vertex()/halfedge()/face(), iterators, numVertices/numEdges/numHalfedges/numFaces"],
     [("halfedges_/faces_/vertices_", "element arrays, index_ mirrors position", "core/mesh.h")])

prop("C08", "Defective triangle lists are cleaned or rejected, never built inconsistently",
     "For every triangle list, well formed or not (repeated corners, repeated or oppositely oriented triangles, edges used by too many triangles, vertices where separate fans meet), construction either reports an error or yields a consistent mesh. "
     "A mesh that is yielded contains only listed triangles, leaves out exactly the degenerate ones and those that reuse a directed edge of a triangle that was kept, and the outcome is never a crash or an out-of-bounds access.",
     ["inputs"], "all triangle lists within the size bound (all coincidence patterns of corner positions)",
     "The space of coincidence patterns grows like Bell numbers; tests load four clean models.",
     [S + "core/mesh.cpp"],
     [("degenerate removal, duplicate skip, manifold check", "core/mesh.cpp Mesh::construct()")],
     ["Mesh(vertices, indices) outcome, getVertices, getVertexIndices"])

prop("C09", "Corners merge exactly by position; rebuilt and cloned meshes are independent",
     "Corners of the input become the same vertex exactly when their positions are equal, vertices keep their exact input positions, and the reported vertices and triangle indices reproduce the input triangles geometrically. "
     "Building into an object that already held a mesh gives the same result as building into a fresh one. "
     "A clone has the same triangles and positions as its original, and later changes to either do not affect the other.",
     ["inputs", "histories"], "all corner positions, all previous contents of the object, subsequent edits",
     "Reuse of an object and position-equality classes are history- and value-quantified; existing tests construct once.",
     [S + "core/mesh.cpp"],
     [("vertex merging", "core/mesh.cpp Mesh::construct(vertices, indices)"), ("copying", "core/mesh.cpp Mesh::clone, getVertices, getVertexIndices")],
     ["Mesh::construct, clone, getVertices, getVertexIndices"])

prop("C10", "Splitting an edge subdivides exactly its two triangles and nothing else",
     "Splitting is refused exactly for boundary edges, leaving the mesh exactly as it was, and otherwise adds one vertex at the midpoint of the edge, three edges and two triangles, replacing the two triangles at the edge by four with the same orientation. "
     "All other triangles, all vertex positions, locks and boundary markings are unchanged and the connectivity stays consistent.",
     ["inputs", "histories"], "all meshes within the size bound, every edge in either direction, all positions",
     "The relinking differs with the degrees of the end points and neighbouring boundaries; tests only count faces after whole algorithms.",
     [S + "core/mesh.cpp"], [("edge split", "core/mesh.cpp Mesh::splitHE")],
     ["Mesh::splitHE result, full connectivity and positions afterwards"])

prop("C11", "Collapsing an edge keeps a valid manifold or changes nothing",
     "An accepted collapse removes exactly one vertex, three edges and the two triangles at the edge, re-attaches the removed vertex's other triangles to the surviving end point, and leaves every other triangle and every remaining position unchanged. "
     "The result is again a consistent manifold without duplicated edges or degenerate triangles (in particular it can be cloned), and elements that were removed are no longer reachable. "
     "A refused collapse leaves the mesh exactly as it was; collapses at boundary faces, between two boundary vertices, or that would fold or pinch the surface are refused, and a collapse whose ends have more than three neighbours, whose opposite corners have more than four, and which neither folds nor pinches nor touches the boundary is accepted.",
     ["inputs", "histories"], "all meshes within the size bound, every edge in either direction, all positions",
     "Safety depends on link conditions and geometry of arbitrary neighbourhoods and on index compaction; a dangling pointer may stay silent in tests.",
     [S + "core/mesh.cpp"], [("edge collapse and compaction", "core/mesh.cpp Mesh::collapseHE, removeVertex, removeHalfedge, removeFace")],
     ["Mesh::collapseHE result, full connectivity and positions afterwards"])

prop("C12", "Flipping an edge swaps the diagonal of its quad or changes nothing",
     "An accepted flip replaces the two triangles at an edge by the two triangles across the other diagonal of the same quadrilateral, keeping orientation, element counts, positions and every other triangle. "
     "A flip that would touch a hole, leave a vertex with fewer than four edges or duplicate an existing edge is refused and leaves the mesh exactly as it was, every other flip is accepted, and connectivity stays consistent in every case.",
     ["inputs", "histories"], "all meshes within the size bound, every edge in either direction",
     "Whether a flip is legal depends on the whole neighbourhood; no test checks the connectivity after a flip.",
     [S + "core/mesh.cpp"], [("edge flip", "core/mesh.cpp Mesh::flipHE")],
     ["Mesh::flipHE result, full connectivity and positions afterwards"])

prop("C13", "Any sequence of edge edits keeps the mesh consistent and self-checkable",
     "After every sequence of edge splits, collapses, flips and face collapses applied to a consistent mesh, connectivity is consistent, the Euler characteristic is unchanged, the built-in self-check succeeds, and no freed or foreign element is reachable. "
     "The built-in self-check reports failure whenever a vertex position is not a finite number.",
     ["histories", "inputs"], "all sequences of up to three edits at any edge or face",
     "Errors appear only after particular orders of edits (index compaction, stale representatives); tests run fixed algorithms.",
     [S + "core/mesh.cpp"], [("edits", "core/mesh.cpp splitHE, collapseHE, flipHE, collapseFace"), ("self-check", "core/mesh.cpp verify")],
     ["connectivity after each edit, Mesh::verify"])

prop("C14", "Neighbourhood traversal and boundary/hole/lock queries tell the truth",
     "Around every vertex and every face, the vertex, edge and face traversals visit each neighbour exactly once in the same rotational order (clockwise around vertices, along the orientation around faces) and the degree and corner counts equal the number of visits. "
     "A vertex or edge is reported as boundary exactly when it lies on a boundary loop, a face as boundary exactly when one of its edges is, a face as hole exactly when it fills a boundary loop; a face is locked exactly when one of its vertices is and an edge exactly when both ends are.",
     ["inputs", "histories"], "all meshes within the size bound, also after edits, all lock patterns",
     "Every algorithm iterates this way; tests never look at a traversal itself, nor at isolated triangles or several holes.",
     [S + "core/vertex.cpp", S + "core/face.cpp", S + "core/halfedge.cpp", S + "core/halfedge.h"],
     [("circulators", "core/vertex.cpp and core/face.cpp iterators"), ("classification", "Vertex::isBoundary, Face::isHole/isBoundary/isLocked, Halfedge::isLocked")],
     ["Vertex/Face iterators (const and non-const, prefix and postfix), degree, numCorners, isBoundary, isHole, isLocked"])

prop("C15", "Filling holes closes the surface without disturbing it",
     "Filling all holes of a mesh, when the vertices of each hole are joined to one another only along the hole, leaves no hole and nothing marked as boundary, keeps every original triangle and every vertex position, adds no vertices, and triangulates each n-sided hole with exactly n-2 new triangles whose orientation matches their neighbours. "
     "The connectivity stays consistent; filling a mesh without holes changes nothing.",
     ["inputs"], "all meshes with holes within the size bound, all positions",
     "The triangulation is chosen by geometry (dynamic programming); tests run it on one model and only check that it finishes.",
     [S + "core/completion.cpp", S + "core/mesh.cpp", S + "restore/completion.cpp"],
     [("min-dihedral triangulation", "core/completion.cpp Mesh::holeFillMinDihedral_, addNewTriangle"), ("driver", "core/mesh.cpp Mesh::fillHoles")],
     ["Mesh::fillHoles, holeFillMinDihedral; connectivity, flags and positions afterwards"])

prop("C16", "Advancing-front hole filling closes the hole and keeps the original surface",
     "When advancing-front filling returns, the chosen hole is covered by triangles with consistent orientation and connectivity and nothing around it is marked as boundary any more. "
     "All vertices that existed before keep their positions and all triangles that existed before are still present; only newly created vertices may be placed freely.",
     ["inputs"], "all hole shapes within the size bound and all front decisions within the step bound",
     "Each front step depends on angles and distances; tests run one model without checking the result.",
     [S + "core/completion.cpp", S + "restore/completion.cpp"],
     [("advancing front", "core/completion.cpp Mesh::holeFillAdvancingFront_")],
     ["holeFillAdvancingFront; connectivity, flags and positions afterwards"])

prop("C17", "Laplacian smoothing moves each free vertex toward its weighted neighbour mean",
     "Each smoothing pass moves every vertex that is neither locked nor on the boundary from its old position by the given strength times the offset to the (uniform or cotangent) weighted mean of its neighbours, all means being taken from the positions before the pass. "
     "Locked and boundary vertices never move, connectivity never changes, and zero passes or zero strength change nothing.",
     ["inputs", "configurations"], "all positions, strengths, lock patterns, both weightings, one to three passes",
     "An in-place (order-dependent) update or a mishandled lock shows only for particular connectivity and values; the tests only run the filter.",
     [S + "filters/smooth.cpp", S + "core/halfedge.cpp"], [("smoothing", "filters/smooth.cpp smoothLaplacian")],
     ["smoothLaplacian; positions and connectivity afterwards"])

prop("C18", "Taubin smoothing alternates the shrink and inflate passes exactly",
     "Each iteration applies one pass with the shrink factor followed by one pass with the negated inflate factor, each pass moving every free vertex by the factor times its offset to the plain mean of its neighbours' positions before the pass. "
     "Locked and boundary vertices never move and connectivity never changes.",
     ["inputs", "configurations"], "all positions, factors, lock patterns, one to three iterations",
     "As for Laplacian smoothing; the order and sign of the two factors are invisible to a test that only checks that the filter runs.",
     [S + "filters/smooth.cpp"], [("smoothing", "filters/smooth.cpp smoothTaubin")],
     ["smoothTaubin; positions and connectivity afterwards"])

prop("C19", "Implicit fairing solves the backward diffusion system for the current mesh",
     "Each iteration replaces the positions X by the solution Y of Y - lambda*(D(Y) - Y) = X, where D is the cotangent-weighted neighbour mean with weights taken from the positions before the iteration; every vertex takes its own row of the solution and connectivity never changes.",
     ["inputs", "configurations"], "all positions and lambda; the linear solver is any one that solves its system",
     "The existing test only runs the filter on a model; a wrong sign, transposition or index in the system still converges to something smooth.",
     [S + "filters/smooth.cpp", S + "core/halfedge.cpp"], [("system assembly", "filters/smooth.cpp implicitFairing")],
     ["implicitFairing; the linear system handed to the solver and the positions written back"])

prop("C20", "Normal-filtering denoisers follow their published update",
     "After its preliminary smoothing, each Gaussian or bilateral denoising iteration filters every face normal as the normalised sum over the edge-adjacent faces' normals weighted by area, a kernel of the centroid distance relative to the mean edge length and, for the bilateral one, a kernel of the normal difference. "
     "It then moves every vertex by the area-weighted mean, over its faces, of the offset to the face centroid projected on the filtered normal. "
     "Connectivity never changes, meshes with non-triangular faces are rejected, and translating the input translates the output.",
     ["inputs", "configurations"], "all closed meshes within the size bound, positions and kernel widths",
     "The tests only run the filters on one model; index or normalisation slips keep output plausible.",
     [S + "filters/denoise.cpp"], [("filters", "filters/denoise.cpp denoiseNormalGaussian, denoiseNormalBilateral, K")],
     ["denoiseNormalGaussian, denoiseNormalBilateral; positions afterwards"])

prop("C21", "Mesh Laplacians are symmetric, annihilate constants and respect adjacency",
     "For every mesh each Laplacian variant is a square matrix over the vertices that is symmetric, has zero row sums and has non-zero off-diagonal entries only between adjacent vertices. "
     "Off-diagonal entries are -1 for the adjacency variant, minus the cotangent weight of the edge for the cotangent variant, and minus a positive Gaussian of the edge length for the heat-kernel variant.",
     ["inputs", "configurations"], "all meshes within the size bound, all positions, all variants",
     "Symmetry and row sums must hold for every geometry; no test that runs reaches the matrices.",
     [S + "ops/operators.cpp", S + "core/halfedge.cpp"], [("assembly", "ops/operators.cpp getMeshLaplacian"), ("weights", "core/halfedge.cpp Halfedge::cotWeight")],
     ["getMeshLaplacian"])

prop("C22", "Face areas, normals and vertex areas measure the surface",
     "The area of a triangle or planar convex polygonal face is its Euclidean area, a face normal is the unit vector perpendicular to the face on the side from which its corners run counter-clockwise, and a vertex normal is a unit vector. "
     "The per-corner vertex areas of a triangle are non-negative and add up to the triangle's area, and the area of a vertex is the sum over its faces, for acute, right and obtuse triangles alike.",
     ["inputs"], "all non-degenerate positions (real arithmetic)",
     "Acute/obtuse case splits and polygon fans are quantified over all shapes; the tests that run never build a face.",
     [S + "core/face.cpp", S + "core/vertex.cpp"], [("measures", "core/face.cpp Face::area, normal; core/vertex.cpp Vertex::volonoiArea, normal")],
     ["Face::area, Face::normal, Vertex::normal, Vertex::volonoiArea"])

prop("C23", "Discrete Gaussian and mean curvature follow the angle and cotangent formulas",
     "At every vertex of a closed mesh the Gaussian curvature times the vertex area equals 2*pi minus the sum of the corner angles at the vertex, and the mean curvature is the component along the vertex normal of the sum of the edge vectors, each weighted by the sum of its two opposite cotangents, with the sign that is positive for a convex vertex, divided by twice the vertex area. "
     "Both depend only on the one-ring, are unchanged by translation, and do not depend on where the traversal of the ring starts.",
     ["inputs"], "all positions within the size bound",
     "No test that runs computes curvature; sign, factor and index slips are invisible without an oracle over all geometry.",
     [S + "core/vertex.cpp"], [("curvatures", "core/vertex.cpp Vertex::K, Vertex::H")],
     ["Vertex::K, Vertex::H"])

prop("C24", "Principal curvatures are ordered with orthonormal tangent directions",
     "For every vertex of a closed mesh the maximum principal curvature is at least the minimum one, and away from umbilic points the two directions are unit vectors, orthogonal to each other and to the vertex normal. "
     "The pair of curvatures and directions diagonalises the vertex's curvature tensor: the second fundamental form along a returned direction equals the curvature returned for it.",
     ["inputs"], "all symmetric curvature tensors at a vertex",
     "Eigen-decomposition branches depend on the sign and size of real tensor entries; no test that runs computes them.",
     [S + "ops/features.cpp"], [("diagonalisation", "ops/features.cpp getPrincipalCurvatures and its helper")],
     ["getPrincipalCurvatures"])

prop("C25", "Heat kernel signatures equal the spectral sum",
     "For every symmetric operator and every set of eigenpairs delivered by the eigen-solver, the signature of a point at a time is the sum over the requested eigenpairs of exp(-eigenvalue*time) times the squared eigenvector entry, at logarithmically spaced times from 4 ln 10 over the largest to 4 ln 10 over the second smallest requested eigenvalue (taken as at least 1e-12). "
     "A failed eigen-decomposition or a request for as many eigenpairs as there are points is reported as an error.",
     ["inputs", "fault_sequences"], "all eigenpairs, number of pairs and times within the size bound; solver success or failure",
     "Only one mesh is tried by the tests, which do not run here; the formula is over all spectra.",
     [S + "ops/features.cpp"], [("signature", "ops/features.cpp getHeatKernelSignatures")],
     ["getHeatKernelSignatures"])

prop("C26", "Rotation helpers return proper rotations that do what they say",
     "The rotation about a unit axis by an angle is orthogonal with determinant one, keeps the axis and turns perpendicular vectors by that angle counter-clockwise. "
     "The rotation between two non-zero vectors that are not opposite maps the direction of the first to the direction of the second, is the identity when they are parallel, and is a proper rotation.",
     ["inputs"], "all unit axes, angles and vector pairs (real arithmetic)",
     "Trigonometric identities over all angles; no test that runs uses the helpers.",
     [S + "core/utils.h"], [("Rodrigues formula", "core/utils.h rotationAxisAngle, rotationFromTwoVectors")],
     ["rotationAxisAngle, rotationFromTwoVectors"])

prop("C27", "Mesh distances are true one-sided and symmetric maxima",
     "The per-vertex distance list of one mesh to another has one entry per vertex, in vertex order, each being the distance from that vertex to the nearest point of the other mesh's surface. "
     "The Hausdorff-type distance is the larger of the two maxima of these lists, hence symmetric in its arguments, non-negative, and zero between a mesh and itself.",
     ["inputs"], "all pairs of meshes within the size bound, all positions (real arithmetic)",
     "Symmetry and exactness must hold for all pairs; no test that runs computes distances.",
     [S + "ops/metrics.cpp", S + "core/bvh.cpp"], [("distances", "ops/metrics.cpp getHausdorffDistance, getPerVertexShortestDistances")],
     ["getHausdorffDistance, getPerVertexShortestDistances"])

prop("C28", "Simplification reaches no further than its target and keeps a valid surface",
     "Simplifying to a target face count never removes more faces than requested by more than one, changes nothing when the mesh is already at or below the target, and leaves a consistent mesh with the same Euler characteristic. "
     "Boundary vertices are never removed or moved, all positions stay finite, progress reporting does not affect the outcome, and a target of zero is rejected.",
     ["inputs", "configurations"], "meshes, positions and targets within the size bound, quiet and verbose",
     "Which edges collapse depends on all geometry and on a priority queue; tests check one model's face count.",
     [S + "remesh/simplify.cpp", S + "core/mesh.cpp", S + "core/progress.h"],
     [("QEM loop", "remesh/simplify.cpp simplifyQEM"), ("progress", "core/progress.h ProgressBar")],
     ["simplifyQEM; connectivity, counts and positions afterwards"])

prop("C29", "Remeshing keeps a valid surface and never disturbs locked vertices",
     "Remeshing leaves a consistent mesh with the same Euler characteristic and boundary loops whatever the random visiting order, edge-length thresholds and number of iterations. "
     "Vertices that are locked beforehand or whose sharpest dihedral angle is below the given bound still exist afterwards at exactly their old positions, and boundary edges are never split.",
     ["inputs", "schedules", "configurations"], "meshes and thresholds within the size bound, all visiting orders within the step bound",
     "The visiting order is random; tests run one order on one model.",
     [S + "remesh/remesh.cpp", S + "core/mesh.cpp", S + "filters/smooth.cpp"],
     [("remesh loop", "remesh/remesh.cpp remeshTriangular")],
     ["remeshTriangular; connectivity, locks and positions afterwards"])

prop("C30", "Saving and loading preserve the mesh",
     "For every mesh, what is written to an OBJ or PLY file lists every vertex in order with its coordinates (at least to single precision) and every triangle, and no hole, with correct zero- or one-based vertex numbers and orientation. "
     "Presenting the written data to the loader rebuilds the same triangles at the same positions, also into an object that already held another mesh.",
     ["inputs", "histories"], "all meshes within the size bound, all positions, both formats, previous contents of the object",
     "The loaders are not even compiled by the tests that run; round trips quantify over all meshes.",
     [S + "core/mesh.cpp"], [("writers and readers", "core/mesh.cpp saveOBJ, savePLY, loadOBJ, loadPLY")],
     ["Mesh::save, Mesh::load, data handed to and taken from the file-format libraries"])

prop("C31", "I/O failures are reported, not swallowed",
     "Loading or saving with an unsupported extension, loading a file that cannot be opened or that the format library rejects, and saving to a location that cannot be written are always reported as errors. "
     "A file whose vertex or face table is missing, or whose faces refer to vertices that it does not contain, is rejected with an error rather than a crash.",
     ["inputs", "fault_sequences"], "all file names/extensions within the bound and every failure point of the format libraries and streams",
     "Fault injection at each library call; the tests try only a missing file for loading.",
     [S + "core/mesh.cpp"], [("error checks", "core/mesh.cpp load, save, loadOBJ, loadPLY, saveOBJ, savePLY")],
     ["Mesh::load, Mesh::save outcome"])

prop("C32", "Parallel loops give the same result under every schedule",
     "In every filter that runs loops in parallel, no loop iteration reads or writes data that another iteration of the same loop writes, so the outcome is the same for every number of threads and every interleaving, and equal to the sequential one.",
     ["schedules", "inputs"], "all interleavings of loop iterations, all positions, meshes within the size bound",
     "Races depend on timing; a test run shows one schedule.",
     [S + "filters/smooth.cpp", S + "filters/denoise.cpp", S + "core/openmp.h"],
     [("two-phase updates", "filters/smooth.cpp and filters/denoise.cpp omp_parallel_for loops")],
     ["smoothLaplacian, smoothTaubin, denoiseNormalGaussian, denoiseNormalBilateral built with OpenMP"])

prop("C33", "Mesh statistics are true averages over edges and faces",
     "The edge count counts each undirected edge once; the mean edge length and mean dihedral angle average the length, and on a closed mesh the opening angle between the two adjacent faces, over every undirected edge exactly once, and the mean face area of a closed mesh averages the areas of all faces. "
     "The values do not depend on element order or orientation of stored edges.",
     ["inputs"], "all meshes within the size bound, all positions",
     "No test that runs computes the statistics that scale every filter's parameters.",
     [S + "core/mesh.cpp"], [("statistics", "core/mesh.cpp numEdges, getMeanEdgeLength, getMeanDihedralAngle, getMeanFaceArea")],
     ["numEdges, getMeanEdgeLength, getMeanDihedralAngle, getMeanFaceArea"])

prop("C34", "L0 denoising solves its published sequence of quadratic problems",
     "Each step of L0 denoising solves for positions minimising the squared distance to the input positions plus the regularised edge terms for the current weights, where the edge operator of each edge annihilates every flat, affinely placed neighbourhood and only edges whose operator value is at least the current threshold keep it. "
     "Weights are updated by the fixed factors until the bound is reached, every vertex takes its own row of the last solution, and connectivity never changes.",
     ["inputs", "configurations"], "all closed meshes within the size bound, all positions; the linear solver is any one that solves its system",
     "The test only runs the filter on one model.",
     [S + "filters/denoise.cpp"], [("system assembly", "filters/denoise.cpp denoiseL0Smooth")],
     ["denoiseL0Smooth; linear systems handed to the solver and positions written back"])

prop("C35", "Context-coherent restoration completes holes without disturbing the rest",
     "Restoring a mesh by context-coherent completion returns with a closed consistent mesh in which every triangle outside the restored regions is still present at its old position.",
     ["inputs"], "all meshes with holes",
     "A randomised patch-matching and registration pipeline; the test only runs it on one model.",
     [S + "restore/completion.cpp"], [("pipeline", "restore/completion.cpp holeFillContextCoherent")],
     ["holeFillContextCoherent"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
