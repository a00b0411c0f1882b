"""Which harnesses decide which property."""
CORE = ["core/vertex.cpp", "core/face.cpp", "core/halfedge.cpp", "core/triangle.cpp", "core/mesh.cpp", "core/completion.cpp"]

MINMAX = ["-symfp-replace=^_ZSt3maxIdERKT_S2_S2_$=stub_max", "-symfp-replace=^_ZSt3minIdERKT_S2_S2_$=stub_min"]

HARNESS = {
    "tri": dict(src="tri.cpp", sources=["core/triangle.cpp"], budget=400, reach=["end", "distance"]),
    "vec": dict(src="vec.cpp", sources=[], budget=200, asan=True, reach=["arith", "div", "matrix", "cross", "ctor", "eigen"]),
    "vecfp": dict(ieee=True, src="vecfp.cpp", sources=[], budget=300, optflags=["-symfp-real-hash"],
                  reach=["equal", "different", "zero-division", "division", "elementwise", "convert"]),
    "geom": dict(src="geom.cpp", sources=[], budget=300, reach=["angle", "obtuse", "not obtuse", "hinge", "degenerate"]),
    "bounds": dict(src="bounds.cpp", sources=["core/triangle.cpp"], budget=300,
                   reach=["grow", "merge", "inside", "outside", "distance", "area", "extent", "triangle"]),
    "bvh": dict(src="bvh.cpp", sources=["core/triangle.cpp", "core/bvh.cpp", "core/mesh.cpp", "core/face.cpp", "core/vertex.cpp", "core/halfedge.cpp", "core/completion.cpp"], budget=500,
                reach=["few", "many", "pair", "rebuild", "indexed", "coincident", "distant"]),
    "spread": dict(src="bvh.cpp", sources=["core/triangle.cpp", "core/bvh.cpp", "core/mesh.cpp", "core/face.cpp", "core/vertex.cpp", "core/halfedge.cpp", "core/completion.cpp"], defs=["-DH_SPREAD"], budget=300, asan=True,
                   reach=["spread"]),
    "manifold": dict(src="build.cpp", defs=["-DH_MANIFOLD"], sources=CORE, budget=400, asan=True, reach=["shapes", "open", "closed"]),
    "anylist": dict(src="build.cpp", defs=["-DH_ANY"], sources=CORE, budget=500, asan=True, reach=["rejected", "cleaned", "open", "closed", "patched"]),
    "merge": dict(ieee=True, src="build.cpp", defs=["-DH_MERGE"], sources=CORE, budget=300, reach=["merged", "kept apart"]),
    "rebuild": dict(src="build.cpp", defs=["-DH_REBUILD"], sources=CORE, budget=300, asan=True, reach=["rebuild", "clone"]),
    "split": dict(src="edit.cpp", defs=["-DH_SPLIT"], sources=CORE, budget=300, asan=True, reach=["split", "split refused"]),
    "flip": dict(src="edit.cpp", defs=["-DH_FLIP"], sources=CORE, budget=300, asan=True,
                 reach=["flip", "flip at a hole refused", "flip at a small vertex refused", "flip onto an edge refused"]),
    "collapse": dict(src="edit.cpp", defs=["-DH_COLLAPSE"], sources=CORE, budget=500, asan=True, reach=["collapse", "collapse refused", "fold refused"]),
    "sequence": dict(src="edit.cpp", defs=["-DH_SEQ"], sources=CORE, budget=600, asan=True, reach=["sequence", "split", "flip", "collapse", "face"]),
    "selfcheck": dict(ieee=True, src="edit.cpp", defs=["-DH_SELF"], sources=CORE, budget=200, reach=["finite", "not finite"]),
    "query": dict(src="query.cpp", sources=CORE, budget=400, asan=True, reach=["open", "closed", "edited"]),
    "fill": dict(src="fill.cpp", sources=CORE + ["restore/completion.cpp", "core/eigen.cpp", "core/bvh.cpp", "ops/features.cpp", "ops/operators.cpp"], budget=400, asan=True,
                 optflags=["-symfp-replace=^_Z8dihedralIdLi3EE=stub_dihedral", "-symfp-replace=^_ZSt3maxIdERKT_S2_S2_$=stub_max"],
                 reach=["closed", "several holes", "triangle", "quad", "larger"]),
    "laplace": dict(src="smooth.cpp", inc=["solve"], defs=["-DH_LAPLACE"], sources=CORE + ["filters/smooth.cpp"], budget=300, reach=["cotangent", "uniform", "passes", "boundary"]),
    "taubin": dict(src="smooth.cpp", inc=["solve"], defs=["-DH_TAUBIN"], sources=CORE + ["filters/smooth.cpp"], budget=300, reach=["taubin", "iterations", "boundary"]),
    "fairing": dict(src="smooth.cpp", inc=["solve"], defs=["-DH_FAIRING"], sources=CORE + ["filters/smooth.cpp"], budget=300, reach=["fairing", "none"]),
    "denoise": dict(src="denoise.cpp", inc=["solve"], defs=["-DH_FILTER"], sources=CORE + ["filters/smooth.cpp", "filters/denoise.cpp"], budget=300, reach=["rejected", "gaussian", "bilateral", "smoothed first"]),
    "iterate": dict(src="denoise.cpp", redirect=True, inc=["solve"], defs=["-DH_STEPS"], sources=CORE + ["filters/smooth.cpp", "filters/denoise.cpp"], budget=200, reach=["none", "one", "several"],
                    optflags=["-symfp-replace=^_ZNK8tinymesh4Mesh17getMeanEdgeLengthEv$=stub_mean"]),
    "l0": dict(src="denoise.cpp", inc=["solve"], defs=["-DH_L0"], optflags=MINMAX, sources=CORE + ["filters/smooth.cpp", "filters/denoise.cpp"], budget=300, reach=["solved", "no step"]),
    "laplacian": dict(src="measure.cpp", defs=["-DH_LAPLACIAN"], sources=CORE + ["ops/operators.cpp"], budget=300, reach=["adjacency", "cotangent", "heat kernel", "boundary"]),
    "area": dict(src="measure.cpp", defs=["-DH_AREA"], sources=CORE, budget=300, reach=["obtuse", "acute", "vertex area", "vertex normal", "polygon"]),
    "curvature": dict(src="measure.cpp", defs=["-DH_CURVATURE"], sources=CORE, budget=300, reach=["mean", "Gaussian", "obtuse", "acute"]),
    "statistics": dict(src="measure.cpp", defs=["-DH_STATISTICS"], optflags=MINMAX, sources=CORE, budget=300, reach=["closed", "open"]),
    "rotate": dict(src="rotate.cpp", sources=[], budget=300, reach=["axis", "between", "parallel", "small angle"]),
    "metrics": dict(src="metrics.cpp", sources=CORE + ["core/bvh.cpp", "ops/metrics.cpp"], budget=300, reach=["list", "hausdorff", "itself"]),
    "principal": dict(src="principal.cpp", redirect=True, defs=["-DH_TENSOR"], optflags=["-symfp-replace=^_ZN8tinymesh19getCurvatureTensors=stub_tensors"], sources=CORE + ["ops/features.cpp"], budget=300, reach=["apart", "umbilic", "smoothed"]),
    "frames": dict(src="principal.cpp", defs=["-DH_FRAME"], sources=CORE + ["ops/features.cpp"], budget=300, reach=["frame"],
                   optflags=["-symfp-replace=^_ZN5Eigen4LDLTINS_6MatrixIdLin1ELin1ELi0ELin1ELin1EEELi2EE7compute=stub_compute",
                             "-symfp-replace=^_ZN5Eigen8internal10AssignmentINS_6MatrixIdLin1ELi1ELi0ELin1ELi1EEENS_5SolveINS_4LDLTINS2_IdLin1ELin1ELi0ELin1ELin1EEELi2EEES3_EE.*3runE=stub_solve",
                             "-symfp-replace=^_ZNK8tinymesh6Vertex11volonoiAreaEPKNS_4FaceE=stub_weight", "-symfp-replace=^_Z22rotationFromTwoVectors=stub_rotation"]),
    "hks": dict(src="hks.cpp", inc=["spectra"], sources=CORE + ["ops/features.cpp"], optflags=MINMAX, budget=300, reach=["signature", "small", "too many", "failed"]),
    "simplify": dict(redirect=True, src="remesh.cpp", defs=["-DH_SIMPLIFY"], sources=CORE + ["filters/smooth.cpp", "remesh/simplify.cpp"], budget=400, asan=True,
                     optflags=["-symfp-replace=^_ZN8tinymesh10computeQEMERKN5Eigen6MatrixIdLi4ELi4ELi0ELi4ELi4EEES4_RKNS_6VertexES7_P3VecIdLi3EE$=stub_qem"],
                     reach=["small enough", "zero", "removed", "kept", "odd target", "even target"]),
    "remesh": dict(redirect=True, src="remesh.cpp", defs=["-DH_REMESH"], sources=CORE + ["filters/smooth.cpp", "remesh/remesh.cpp"], budget=400, asan=True,
                   optflags=["-symfp-replace=^_ZSt7shuffleIN9__gnu_cxx17__normal_iteratorIPjSt6vectorIjSaIjEEEERSt23mersenne_twister_engineI.*EEvT_SA_OT0_$=stub_shuffle",
                             "-symfp-replace=^_ZNSt13random_device9_M_getvalEv$=stub_random"],
                   reach=["more vertices", "fewer vertices", "as many vertices", "features"]),
    "files": dict(redirect=True, src="io.cpp", defs=["-DH_FILES"], sources=CORE, budget=300, asan=True,
                  optflags=["-symfp-replace=^_ZNSolsEd$=stub_put", "-symfp-replace=^_ZNSo9_M_insertIdEERSoT_$=stub_put"],
                  reach=["ply", "obj", "closed", "open"]),
    "faults": dict(redirect=True, src="io.cpp", defs=["-DH_FAULTS"], sources=CORE, budget=300, asan=True,
                   optflags=["-symfp-replace=^_ZNSolsEd$=stub_put", "-symfp-replace=^_ZNSo9_M_insertIdEERSoT_$=stub_put"],
                   reach=["extension", "cannot open", "rejected", "cannot create", "disk full", "missing vertex", "accepted"]),
    "parallel": dict(src="parallel.cpp", openmp=True, redirect=True, inc=["solve"], optflags=["-symfp-races"], sources=CORE + ["filters/smooth.cpp", "filters/denoise.cpp"], budget=300,
                     reach=["parallel smoothing", "parallel denoising", "compared"]),
    "front": dict(redirect=True, src="front.cpp", inc=["solve"], sources=CORE + ["restore/completion.cpp", "core/eigen.cpp", "core/bvh.cpp", "ops/features.cpp", "ops/operators.cpp"], budget=400, asan=True,
                  optflags=["-symfp-replace=^atan2$=stub_atan2", "-symfp-replace=^_ZNK8tinymesh4Mesh17getMeanEdgeLengthEv$=stub_mean"], reach=["triangles only", "new vertices", "triangle"]),
}
PROPS = {
    "C01": dict(harnesses=["vec"], bounds="dimensions 2, 3 and 4, all real components"),
    "C02": dict(harnesses=["vecfp"], bounds="dimensions 2 and 3, all IEEE doubles"),
    "C03": dict(harnesses=["geom"], bounds="coordinates within +-64"),
    "C04": dict(harnesses=["bounds"], bounds="two- and three-dimensional boxes, coordinates within +-1e20, up to 3 points per box"),
    "C05": dict(harnesses=["tri"], bounds="one triangle, five orthonormal frames, coordinates within +-16 plus any translation within +-16"),
    "C06": dict(harnesses=["bvh", "spread"], bounds="up to 12 tiles, one to three of them freely placed along an axis; two freely placed triangles; 9 to 20 coincident or heaped triangles; coordinates within +-32; one or two tiles within 1e12 and a query within 1.6e13; 9 tiles spread over 8 million, one freely placed"),
}
PROPS.update({
    "C07": dict(harnesses=["manifold"], bounds="13 manifold triangle lists of up to 40 triangles (130 thorough): closed surfaces, grids, fans, surfaces with triangles taken out, two components, a boundary of 40 (130) edges; any start of the list (two for the long boundary), the corners of all triangles turned alike, any distinct positions within +-8"),
    "C08": dict(harnesses=["anylist"], bounds="lists of up to three triangles with any coincidence pattern of their corners along a coordinate axis; seven small surfaces with one (two thorough) arbitrary triangle added before or after; positions within +-8"),
    "C09": dict(harnesses=["merge", "rebuild"], bounds="two triangles with any finite IEEE positions of two corners; rebuilding over all pairs of five meshes and cloning of each, any positions within +-8"),
    "C10": dict(harnesses=["split"], bounds="every edge in both directions of 15 meshes of up to 48 triangles, any positions, every other vertex locked (both ways)"),
    "C11": dict(harnesses=["collapse"], bounds="every edge in both directions of 15 meshes of up to 48 triangles, one vertex at the edge freely placed along three (four thorough) lines within +-16"),
    "C12": dict(harnesses=["flip"], bounds="every edge in both directions of 15 meshes of up to 48 triangles, any positions, every other vertex locked (both ways)"),
    "C13": dict(harnesses=["sequence", "selfcheck"], bounds="sequences of two edits of any kind on three meshes with the first edit at one of 12 half-edges or 5 faces (five meshes and any place thorough), the height of one vertex free within +-16; self-check over any IEEE position of one vertex of four meshes"),
    "C14": dict(harnesses=["query"], bounds="15 meshes of up to 48 triangles as built and after a split at one of 8 half-edges (40, and flips, thorough), any positions within +-16, four patterns of locks around one of six vertices"),
    "C15": dict(harnesses=["fill"], bounds="11 meshes (12 thorough) with holes of 3 to 6 sides, any positions within +-16"),
})
PROPS.update({
    "C17": dict(harnesses=["laplace"], bounds="closed and open meshes of up to 12 vertices (20 triangles) with every vertex freely placed within +-8, no, the first, the last or every other vertex locked, any strength within +-2, up to 3 passes (4 thorough) with uniform and one pass with cotangent weights; exact real arithmetic",
                outside="more passes, cotangent weights where a triangle is flat or a weight sum is zero"),
    "C18": dict(harnesses=["taubin"], bounds="closed and open meshes of up to 12 vertices with every vertex freely placed within +-8, no, the first, the last or every other vertex locked, any factors within +-2, up to 2 iterations (3 thorough); exact real arithmetic",
                outside="more iterations"),
    "C19": dict(harnesses=["fairing"], bounds="closed meshes of 4, 5 and 6 vertices (12 thorough) freely placed within +-8, any lambda within +-2, up to 2 iterations (3 thorough); the linear solver is replaced by an arbitrary solution of the recorded system, exact real arithmetic",
                outside="accuracy of the linear solver, flat triangles, meshes with holes"),
    "C20": dict(harnesses=["denoise", "iterate"], bounds="a tetrahedron and a triangular bipyramid with freely placed vertices, every region of the two kernels for all pairs of faces and for all but one, any widths, one iteration, with and without the preliminary smoothing; rejection of a four-sided hole; up to three iterations on three fixed meshes moved by any translation within +-64 at 16 widths; exact real arithmetic, exp uninterpreted",
                outside="more iterations or larger meshes with freely placed vertices, flat triangles, three-sided holes (which count as triangles)"),
    "C34": dict(harnesses=["l0"], bounds="a tetrahedron and a triangular bipyramid with freely placed vertices, up to 2 steps (3 thorough), every edge at, none at, one at or one not at the threshold, any alpha; the linear solver is replaced by an arbitrary solution of the recorded system, exact real arithmetic",
                outside="accuracy of the linear solver, other patterns of edges at the threshold, flat triangles"),
})
PROPS.update({
    "C21": dict(harnesses=["laplacian"], bounds="five meshes, closed and with a boundary, of up to 8 vertices (12 thorough) with every vertex freely placed within +-8, all three variants; exact real arithmetic, exp uninterpreted",
                outside="the cotangent value on boundary edges (only symmetry and row sums are decided there), flat triangles, rounding"),
    "C22": dict(harnesses=["area"], bounds="one triangle anywhere within +-8 in each of the 13 orders of its edge lengths, obtuse or not; vertex areas on a tetrahedron and an octahedron with freely placed vertices whose faces have the shapes (order of edge lengths, obtuse or not) of 24 (64 thorough) reference meshes; normals on both with any positions; convex polygons of 4 and 5 (6 thorough) corners in three orientations; exact real arithmetic",
                outside="rounding, flat triangles, non-planar or non-convex polygons, other combinations of face shapes around a vertex"),
    "C23": dict(harnesses=["curvature"], bounds="a tetrahedron and an octahedron with vertices freely placed within +-8, whose faces have the shapes (order of edge lengths, obtuse or not) of 24 (64 thorough) reference meshes; exact real arithmetic",
                outside="rounding, flat triangles, other combinations of face shapes around a vertex"),
    "C33": dict(harnesses=["statistics"], bounds="four meshes of up to 8 vertices (12 thorough), closed and with a boundary, every vertex freely placed within +-8; exact real arithmetic, acos and atan2 uninterpreted up to identities",
                outside="rounding, flat triangles, mean dihedral angle and face area of meshes with holes (holes count as faces there)"),
})
PROPS.update({
    "C24": dict(harnesses=["principal", "frames"], bounds="any symmetric curvature tensor with entries up to 16 (diagonal entries at most 2000 times the off-diagonal one apart, or that one zero) and eigenvalues equal or more than 1e-5 apart, in twelve orthonormal frames along the coordinate axes, at each vertex of a tetrahedron, without smoothing; with smoothing, one tensor that is diagonal or has equal diagonal entries among zero tensors; frames of the vertices of a tetrahedron and an octahedron with freely placed vertices, where the fits, rotations and weights of faces are arbitrary; exact real arithmetic",
                outside="how the tensors themselves are fitted, rounding, degenerate positions in which two compared quantities coincide"),
    "C25": dict(harnesses=["hks"], bounds="3 and 4 points (5 thorough), every number of eigenpairs from 2, 2 to 4 times (5 thorough), any eigenvalues within 0 to 100 and eigenvector entries within +-1; the eigen-solver is replaced by one that delivers any pairs or fails; exact real arithmetic, exp and log uninterpreted up to identities",
                outside="accuracy of the eigen-solver, a single pair or time, rounding"),
    "C26": dict(harnesses=["rotate"], bounds="any unit axis, any angle in (-pi, pi], any vector pair within +-16 at least a millionth from parallel and opposite, any parallel pair, pairs at angles of 1e-4 to 5e-4 and 8e-6 to 1.6e-5 in one plane; exact real arithmetic",
                outside="angles outside a full turn, rounding, nearly parallel or opposite vectors"),
    "C27": dict(harnesses=["metrics"], bounds="pairs of meshes of up to four triangles; one vertex of the first moved along two lines (three thorough) against any point of the other surface; pairs of flat sheets at any height within +-8; exact real arithmetic",
                outside="rounding (squares compared up to 1e-9), larger meshes"),
})
PROPS.update({
    "C16": dict(harnesses=["front"], bounds="holes of 3, 4 and 5 sides (8 thorough) in six meshes with fixed positions; two or three steps of the front (one more thorough) with any vertex having the smallest opening angle and any value for it, small angles afterwards; any mean edge length; one vertex away from the hole anywhere; also the real angles; the linear solver delivers any solution",
                outside="longer sequences of free decisions, larger holes, holes whose opposite vertices are already joined by an edge, the positions given to new vertices"),
    "C28": dict(harnesses=["simplify"], bounds="six meshes of up to 20 triangles, closed and with a boundary; any edge first (every seventh; all thorough), contracted to any point of a line through its middle; any target that removes up to 9 faces (all thorough) quiet and verbose; one trial",
                outside="how edges are ranked and where the error quadrics place a vertex (both left open), larger meshes, several trials, rounding"),
    "C29": dict(harnesses=["remesh"], bounds="seven meshes of up to 32 triangles with fixed positions, closed and with a boundary, with and without locked vertices; any length thresholds within 0 to 3, any angle bound, six visiting orders for each pass (three at a time in the quick tier), one iteration, two iterations (four thorough) with any lower threshold",
                outside="other visiting orders, other positions, more iterations"),
    "C30": dict(harnesses=["files"], bounds="eight meshes of up to 12 vertices, closed and with a boundary, fresh and edited, any positions within +-1000 plus one set of awkward values, both formats, loaded into fresh and used objects once and twice, in one and two groups; the two format libraries are stand-ins that record and supply the data",
                outside="the format libraries themselves (not present here), vertices that coincide in x in single precision, other numeric types in PLY files"),
    "C31": dict(harnesses=["faults"], bounds="two meshes with any x coordinates, both formats; 16 unsupported names, every call of the format libraries failing, each table missing, missing and unsuitable directories, 16 points at which the disk is full, every face corner referring to a vertex that is not there",
                outside="errors inside the format libraries (not present here), other numeric types in PLY files, negative vertex numbers"),
    "C32": dict(harnesses=["parallel"], bounds="all parallel loops of the smoothing and denoising filters on meshes of up to 16 vertices; every iteration a thread of its own, three orders; smoothing with any height and depth of every vertex (one height with cotangent weights) and any strength, one and two iterations; denoising with any width; exact real arithmetic",
                outside="the parallel loop of the restoration pipeline, memory touched inside library functions, rounding"),
})
NOT_APPLICABLE = {
    "C35": "the pipeline interleaves randomised patch search, singular value decompositions, iterated closest-point registration and eigen-decompositions of the whole mesh; no step of it can be bounded or made symbolic so that a solver decides the outcome, and its parts that can (hole filling, signatures, remeshing, simplification) have properties of their own",
}
