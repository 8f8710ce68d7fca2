#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay easy to review)."""
import json, os
S = "include/geometrycentral/surface/"
U = "include/geometrycentral/utilities/"
N = "include/geometrycentral/numerical/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

MSM = "src/surface/manifold_surface_mesh.cpp"
SM = "src/surface/surface_mesh.cpp"

prop("C01", "Local mutations keep a manifold mesh valid",
 "Starting from any valid manifold halfedge mesh, every local edit of a manifold mesh that reports success (flip an edge, insert a vertex on an edge or in a face, split an edge, connect two vertices of a face, switch the halfedge sides of an interior edge, triangulate a face, separate an edge, collapse an edge, remove an edge, a vertex or a face along the boundary) leaves a valid manifold mesh. Valid means: successor is a permutation of the live halfedges, twin is a fixed-point-free involution, the tail of a halfedge's successor is its tip, every live face, boundary loop and vertex is exactly one closed cycle of halfedges and stores a live halfedge of that cycle, and the boundary conventions (an edge stores an interior halfedge, a boundary vertex stores the halfedge that starts its interior fan) hold.",
 ["inputs", "histories"], "every valid manifold mesh (any size, with or without boundary, including self-glued triangulations where the operation accepts them), every element argument the operation accepts",
 "No stable test mutates a surface mesh at all; even the unbuilt upstream tests only touch a handful of sample meshes, while validity has to survive every local configuration (boundary, low degree, self-glued).",
 [MSM, SM, S + "manifold_surface_mesh.h"],
 [("flip / insertVertexAlongEdge / splitEdgeTriangular / insertVertex / connectVertices / separateEdge / collapseEdgeTriangular / removeEdge / removeVertex / removeFaceAlongBoundary / triangulate", MSM), ("flip on a general mesh", SM)],
 [("heNextArr", "successor of each halfedge", SM), ("heVertexArr", "tail vertex", SM), ("heFaceArr", "face or boundary loop", SM), ("vHalfedgeArr", "representative outgoing halfedge", SM), ("fHalfedgeArr", "representative halfedge of a face / boundary loop", SM)],
 ["SurfaceMesh::validateConnectivity", "Halfedge/Vertex/Edge/Face navigation"])

prop("C02", "Mutations do exactly what they document, and refuse cleanly",
 "Every local edit of a manifold mesh has exactly its documented combinatorial effect: element counts and the Euler characteristic change by the documented amounts, the documented element is returned, the surrounding polygons are the documented ones, and all halfedges, vertices, edges and faces outside the edited neighbourhood keep their successor, tail, face and handle. An operation that refuses (reports failure) leaves the connectivity and the counts unchanged.",
 ["inputs"], "every valid manifold mesh and every element argument",
 "Needs every local configuration of every mesh; no stable test calls any of these operations.",
 [MSM, SM, "docs/docs/surface/surface_mesh/mutation.md"],
 [("flip / insertVertexAlongEdge / splitEdgeTriangular / insertVertex / connectVertices / collapseEdgeTriangular / removeEdge / removeVertex / removeFaceAlongBoundary", MSM)],
 (), ["return values", "nVertices/nEdges/nFaces", "navigation before and after"])

prop("C03", "Element creation and deletion keep counts, storage and freshness consistent",
 "However elements have been created and deleted, the number of vertices, halfedges, interior halfedges, edges, faces and boundary loops a mesh (or points a point cloud) reports equals the number of live elements of that kind, and never exceeds the used and allocated storage. A newly created element is live, is distinct from every live element, and leaves every other element's liveness and connectivity unchanged, also when storage has to grow.",
 ["histories", "inputs"], "every reachable mesh / point-cloud state and every sequence of creations and deletions, with and without reallocation, with faces and boundary loops sharing storage",
 "Depends on the history (fill against capacity, faces growing towards boundary loops); the stable tests create no element.",
 [SM, S + "surface_mesh.h", S + "surface_mesh.ipp", "src/pointcloud/point_cloud.cpp"],
 [("getNewVertex / getNewHalfedge / getNewEdgeTriple / getNewFace / getNewBoundaryLoop / expandFaceStorage", SM), ("deleteElement / deleteEdgeBundle", SM), ("getNewPoint / deleteElement", "src/pointcloud/point_cloud.cpp")],
 [("n*Count / n*CapacityCount / n*FillCount", "live, allocated and used slots", S + "surface_mesh.h")],
 ["nVertices(), nHalfedges(), nInteriorHalfedges(), nEdges(), nFaces(), nBoundaryLoops()", "iteration over elements"])

prop("C04", "Compression renumbers without changing the mesh",
 "Compressing a mesh or point cloud removes exactly the dead elements: afterwards elements are numbered densely, live elements keep their relative order, every connectivity relation between surviving elements (successor, twin, tail, face, boundary loop, representative halfedges) is the same as before, and all counts are unchanged. Every container still associates with each surviving element the value it had before, and compressing a compressed mesh changes nothing.",
 ["inputs", "histories"], "every mesh / point cloud with an arbitrary pattern of deleted elements, any number of boundary loops",
 "The pattern of dead slots is arbitrary; no stable test deletes from and compresses a surface mesh.",
 [SM, "src/pointcloud/point_cloud.cpp", U + "utilities.h", U + "mesh_data.ipp"],
 [("compressHalfedges / compressEdges / compressFaces / compressVertices / compress", SM), ("compressPoints", "src/pointcloud/point_cloud.cpp"), ("applyPermutation", U + "utilities.h")],
 (), ["getIndex()", "navigation", "container values"])

prop("C05", "Element containers follow their elements",
 "A container over mesh or point-cloud elements always holds a value for every element: new elements read the container's default value (the initial value, or the one last given to setDefault, which changes no element's value), values of existing elements never change when storage grows or is renumbered, and values survive the move to the element's new index. fill() gives every element the value; toVector() lists the values in element order and fromVector() is its inverse, refusing a vector of the wrong size. Copying a container gives an independent container with equal values; moving it gives the values to the target and detaches the source; copied, moved, reassigned and destroyed containers never receive or miss an update meant for another container, and all are safe to use or destroy after the mesh is gone.",
 ["histories", "inputs"], "every sequence of container construction, copy, move, assignment, fill, destruction interleaved with element creation and renumbering",
 "The property is about interleavings of container lifetimes with mesh growth and compression; the tests sample very few and only on point clouds.",
 [U + "mesh_data.h", U + "mesh_data.ipp"],
 [("registerWithMesh / deregisterWithMesh and the expand / permute / delete callbacks", U + "mesh_data.ipp")],
 [("expandCallbackIt / permuteCallbackIt / deleteCallbackIt", "registration of this container with its mesh", U + "mesh_data.h")],
 ["container[element]", "size()", "getDefault()"])

prop("C06", "Mesh navigation and element ranges are consistent",
 "On every valid mesh the navigation operators agree with each other: twin and sibling, next and previous, tail/tip vertex, edge, face, corner, and the halfedge, face and boundary-loop accessors of every element kind satisfy the halfedge laws, and predicates (interior, boundary, live, manifold, triangle, orientation) agree with the connectivity. A loop over a mesh's elements visits each live element exactly once and nothing else, a loop around an element visits exactly its incident elements, once each, and the degree functions count them.",
 ["inputs"], "every valid mesh, every element, every neighbourhood size",
 "Ranges are loops of unbounded length over arbitrary connectivity and arbitrary patterns of dead elements.",
 [S + "halfedge_element_types.ipp", S + "surface_mesh.ipp", S + "halfedge_logic_templates.ipp", U + "element.ipp", U + "element_iterators.ipp"],
 [("element navigation", S + "halfedge_element_types.ipp"), ("RangeIteratorBase / NavigationIteratorBase", U + "element_iterators.ipp")],
 (), ["range-for loops", "navigation calls"])

prop("C07", "Vector algebra laws",
 "The 2-vector and 3-vector types implement vector-space and complex-number arithmetic: every operator, compound assignment and free function (sum, difference, scaling, division, dot, cross, norm, normalisation, complex product, inverse, conjugate, power, argument, rotations, angles, tangent basis, projection, componentwise operations, clamping, indexing) equals its mathematical definition over the reals.",
 ["inputs"], "all real component values for which the operation is defined",
 "A test samples a few vectors; the laws are identities over all reals.",
 [U + "vector2.h", U + "vector2.ipp", U + "vector3.h", U + "vector3.ipp"],
 [("operators and free functions", U + "vector2.ipp"), ("operators and free functions", U + "vector3.ipp")], (), ["return values"])

prop("C08", "Elementary geometry matches its mathematical definition",
 "The elementary geometry helpers (triangle area from lengths, laying out a triangle's third vertex or a tetrahedron's fourth vertex from lengths, ray/segment and segment/segment intersection, closest point and distance on a segment, angle and value clamping, modular helpers) return values satisfying the defining geometric equations and inequalities for every admissible input.",
 ["inputs"], "all real inputs satisfying the documented precondition (triangle inequality, non-parallel lines, ...)",
 "Defining equations hold over all reals; sampling cannot establish them and the stable tests do not call them.",
 [U + "elementary_geometry.h", U + "elementary_geometry.ipp", U + "utilities.h", U + "vector2.ipp"],
 [("triangleArea / layoutTriangleVertex / tetFourthPoint / rayLineIntersection / segmentSegmentIntersection / pointLineSegmentNeaestLocation / pointLineSegmentDistance", U + "elementary_geometry.ipp"), ("regularizeAngle", U + "vector2.ipp"), ("clamp", U + "utilities.h")],
 (), ["return values"])

prop("C09", "Quaternion algebra laws",
 "Quaternions form the Hamilton algebra: sum, difference, scaling, Hamilton product, conjugation, inverse, norm, normalisation, component access and the 4x4 matrix of left multiplication equal their mathematical definitions over the reals, in both value and compound-assignment form.",
 ["inputs"], "all real component values for which the operation is defined",
 "No stable test uses quaternions; the laws quantify over all reals.",
 [U + "quaternion.h", "src/utilities/quaternion.cpp"], [("Quaternion", "src/utilities/quaternion.cpp")], (), ["return values"])

prop("C10", "Surface points keep denoting the same location",
 "Re-expressing a surface point (vertex, edge or face point) in some face, in a given adjacent face or in a given adjacent edge yields a point at the same location: interpolating any per-vertex quantity gives the same value before and after, and an operation whose target is not adjacent fails instead of returning a wrong point. Nearest-vertex, equality, adjacency, shared-face and shared-edge queries and the canonical permutation, normalisation and projection of barycentric coordinates agree with the geometry of the point.",
 ["inputs"], "every manifold triangle mesh (others: bounded), every vertex / edge / face point with arbitrary real coordinates, every target element",
 "Depends on which halfedge of a face or edge is its reference in an arbitrary mesh; the stable tests never build a surface point.",
 [S + "surface_point.ipp", "src/surface/surface_point.cpp", S + "barycentric_coordinate_helpers.ipp"],
 [("SurfacePoint::inSomeFace / inFace / inEdge / nearestVertex / interpolate", S + "surface_point.ipp"), ("permuteBarycentric* / projectInsideTriangle", S + "barycentric_coordinate_helpers.ipp")],
 (), ["SurfacePoint::interpolate"])

prop("C11", "Barycentric vectors form a metric vector space on each face",
 "Barycentric displacement vectors on vertices, edges and faces obey vector-space laws, agree with the difference of the surface points they were built from, and are unchanged by re-expression in an adjacent face or edge. Their inner product, norm, and rotation (by a quarter turn or by any angle) agree with the Euclidean geometry of the triangle given by its edge lengths.",
 ["inputs"], "every manifold triangle mesh and positive edge lengths satisfying the triangle inequality, all real coordinates (non-manifold and self-glued meshes: bounded)",
 "Identities over all reals and all reference-halfedge configurations; never exercised by the stable tests.",
 [S + "barycentric_vector.h", S + "barycentric_vector.ipp", "src/surface/barycentric_vector.cpp"],
 [("BarycentricVector", S + "barycentric_vector.ipp"), ("faceVectorRotate90 / faceVectorRotate", "src/surface/barycentric_vector.cpp")], (), ["return values"])

prop("C12", "Managed quantities are computed once, kept while required, released when not",
 "For a lazily managed quantity and any history of require, unrequire, ensure-have, purge and refresh calls: while its require count is positive its value is available; it is computed at most once between invalidations; a refresh recomputes exactly the quantities that are required or needed for those, and marks the others out of date; purging releases exactly the available quantities that are clearable and not required; and unbalanced release is rejected and has no effect. Every named require / unrequire operation of a geometry acts on its own quantity only, and a quantity has the same value whatever else was computed before it.",
 ["histories"], "every sequence of require / unrequire / ensureHave / clearIfNotRequired / purge / refresh calls on any set of quantities",
 "A property of whole call histories; the stable tests do not exercise it.",
 [U + "dependent_quantity.h", U + "dependent_quantity.ipp", "src/surface/base_geometry_interface.cpp", "src/pointcloud/point_position_geometry.cpp"],
 [("DependentQuantity", U + "dependent_quantity.ipp"), ("refreshQuantities / purgeQuantities", "src/surface/base_geometry_interface.cpp")],
 [("requireCount / computed", "clients and cached state", U + "dependent_quantity.h")], ["quantity buffers", "evaluation count"])

prop("C13", "Disjoint sets maintain the equivalence generated by merges",
 "After any sequence of merges, two elements have the same representative exactly when a chain of merges connects them; a representative is stable under find, and an initial structure has every element alone. The marked variant reports a set as marked exactly when some element of it was marked.",
 ["histories", "inputs"], "every size, every sequence of find / merge / mark operations",
 "A property of all merge histories.",
 [U + "disjoint_sets.h", "src/utilities/disjoint_sets.cpp"], [("DisjointSets / MarkedDisjointSets", "src/utilities/disjoint_sets.cpp")],
 [("parent / rank / marked", "union-find forest", U + "disjoint_sets.h")], ["find()", "isMarked()"])

prop("C14", "Per-element geometric quantities equal their definitions",
 "For every triangle mesh and every admissible geometry (positions, or edge lengths satisfying the triangle inequality): the quantities computed on demand (edge length, face area, corner angle, halfedge and edge cotangent weight, face normal, dihedral angle, circumradius, vertex dual area) equal their Euclidean definitions; the cached arrays (edge lengths, face areas, corner angles, scaled corner angles, halfedge and edge cotangent weights, vertex dual areas, vertex angle sums, vertex and face Gaussian curvatures, face normals, vertex normals, dihedral angles, vertex mean curvatures and mean curvature normals, principal curvatures, halfedge vectors in faces and vertices, transport vectors across and along halfedges) hold the same values at every element, boundary elements included, and the values computed from edge lengths agree with those computed from positions.",
 ["inputs"], "every triangle mesh, every non-degenerate positions / edge lengths",
 "Quantifies over all meshes and real coordinates; the duplicated immediate/cached code paths are not compared by the stable tests.",
 ["src/surface/intrinsic_geometry_interface.cpp", "src/surface/extrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", S + "edge_length_geometry.ipp", S + "vertex_position_geometry.ipp"],
 [("compute* quantities", "src/surface/intrinsic_geometry_interface.cpp"), ("immediate quantities", S + "vertex_position_geometry.ipp"), ("immediate quantities", S + "edge_length_geometry.ipp")], (), ["geometry quantity values"])

prop("C15", "Normal coordinates count curve crossings exactly",
 "For every non-crossing collection of curves on a triangulation given by its normal coordinates: the arcs clipping off and leaving a corner, and triangle inequality violations, are those of the curves; the coordinate computed for a flipped edge is the number of curves crossing the new edge, or minus the number running along it, the flip keeps the number of curves leaving each vertex, and the flipped edge's roundabouts are its positions among the curves leaving its ends; the coordinates computed combinatorially for the four edges of an interior edge split are the numbers of curves crossing them; the tracing step follows the curve to its next crossing, and stepping back returns to the same crossing; tracing all curves visits every crossing exactly once (in one direction), and flips and splits neither create, lose nor reroute curves.",
 ["inputs"], "all non-negative (and along-edge) arc counts in the two triangles at an edge",
 "Integer identities over unbounded counts; never exercised by stable tests.",
 ["src/surface/normal_coordinates.cpp", S + "normal_coordinates.h"],
 [("flipNormalCoordinates / flipRoundabouts / strictDegree / cornerCoord / strictCornerCoord / stepTopologicalCurve", "src/surface/normal_coordinates.cpp")], (), ["return values"])

prop("C16", "Non-manifold-capable mesh edits keep incidence lists consistent",
 "On a general surface mesh (explicit siblings), every edit (inverting a face's orientation, duplicating a face, separating two halfedges onto an edge of their own, flipping an edge, separating all non-manifold edges or vertices, orienting all faces greedily) keeps: the halfedges of each edge forming one sibling cycle, the outgoing and incoming halfedges of each vertex forming one list each with consistent links, the boundary of each face one cycle with tip equal to the next tail, and inverting an orientation twice restores the mesh.",
 ["inputs", "histories"], "every valid general mesh and every face / halfedge / edge argument",
 "Arbitrary edge valences and vertex degrees; no stable test edits a general mesh.",
 [SM, S + "surface_mesh.h"],
 [("invertOrientation / duplicateFace / separateToNewEdge / flip", SM), ("removeFromVertexLists / addToVertexLists / removeFromSiblingList", SM)],
 [("heSiblingArr, heVertInNextArr, heVertOutNextArr, ...", "incidence lists", S + "surface_mesh.h")], ["edge.adjacentHalfedges()", "vertex.outgoingHalfedges()"])

prop("C17", "Element handles have value semantics",
 "Element handles of one mesh behave as values: two handles of the same kind are equal exactly when they denote the same element, ordering is a strict total order consistent with equality, equal handles hash equally, a default handle equals no element, copies denote the same element, faces and boundary loops convert into each other without confusing a face with a loop, and a surface point or barycentric vector is equal to another exactly when type, element and coordinates agree.",
 ["inputs"], "all handles of all element kinds of any one mesh",
 "Quantifies over all handles; tests compare a few.",
 [U + "element.h", U + "element.ipp", S + "halfedge_element_types.ipp", U + "combining_hash_functions.h"],
 [("Element operators and std::hash", U + "element.ipp")], (), ["operator==, operator<, std::hash"])

prop("C18", "Meshes built from polygons represent exactly those polygons",
 "Constructing a mesh from a list of polygons (or from polygons with an explicit, mutual gluing of their sides) either throws, or yields a valid mesh whose faces list exactly the given vertex cycles in order, in which two directed sides are glued exactly when the input glues them, and whose boundary loops are exactly the cycles of unglued sides; the element counts agree with the input. Polygon lists that are not an oriented manifold are rejected by the manifold constructor, and toManifoldMesh converts exactly the oriented manifolds. A mesh built from connectivity arrays has exactly those arrays and counts exactly the live elements. A copy of a mesh is equal to it in all its connectivity, counts and flags, and neither is affected by edits of the other.",
 ["inputs"], "every polygon list (any face sizes, any gluing)",
 "Quantifies over all polygon soups; the stable tests construct none.",
 [MSM, SM], [("ManifoldSurfaceMesh / SurfaceMesh constructors, copy", MSM), ("copyInternalFields", SM)], (), ["getFaceVertexList()", "validateConnectivity()"])

prop("C19", "Discrete operators assemble consistently",
 "For every oriented manifold triangle mesh (with or without boundary, possibly with deleted elements) with a non-degenerate geometry, the assembled operators agree with their per-element definitions: the cotangent Laplacian is symmetric with zero row sums and minus the edge weights off the diagonal, the connection Laplacian is Hermitian with the same moduli, mass matrices are symmetric with total mass equal to the total area, and the exterior derivatives satisfy d1 d0 = 0.",
 ["inputs"], "every triangle mesh and geometry",
 "All meshes and all real geometries.",
 ["src/surface/intrinsic_geometry_interface.cpp"], [("computeCotanLaplacian / mass matrices / DEC operators", "src/surface/intrinsic_geometry_interface.cpp")], (), ["sparse matrices"])

prop("C20", "Linear algebra helpers preserve the system they rewrite",
 "The matrix helpers are exact rewritings: complex-to-real conversion, diagonal shifting, stacking and block decomposition / reassembly lose no entry and change no entry, so that solving the rewritten system solves the original one; the symmetry and finiteness checks accept exactly the square matrices that are symmetric / Hermitian up to the tolerance and the matrices without infinite or undefined entries.",
 ["inputs"], "all sparse and dense inputs of any size",
 "All sizes, sparsity patterns and index sets.",
 [N + "linear_algebra_utilities.ipp", "src/numerical/linear_algebra_utilities.cpp"], [("complexToReal / blockDecomposeSquare / reassembleVector / shiftDiagonal / verticalStack", N + "linear_algebra_utilities.ipp")], (), ["return values"])

prop("C21", "Iterative algorithms converge to the documented optimum",
 "Heat-method distances, vector-heat transport, exact geodesics, edge-flip geodesics, centroidal Voronoi relaxation, parameterisation, uniformisation and the sparse solvers return results within their documented accuracy of the true solution for every mesh.",
 ["inputs"], "every mesh and source set",
 "Accuracy over all inputs; depends on floating-point factorisations.",
 ["src/surface/heat_method_distance.cpp", "src/surface/exact_geodesics.cpp", "src/surface/flip_geodesics.cpp", "src/numerical/square_solvers.cpp"],
 [("solvers", "src/numerical")], (), ["distances"])

prop("C22", "Mesh files round-trip",
 "Writing a mesh (with its attribute data) to a file in a supported format and reading it back yields the same connectivity, positions and attributes; malformed files are rejected.",
 ["inputs"], "every mesh and attribute set, every supported format",
 "All meshes and all file contents.",
 ["src/surface/meshio.cpp", "src/surface/simple_polygon_mesh.cpp", "src/surface/rich_surface_mesh_data.cpp"], [("readers / writers", "src/surface/simple_polygon_mesh.cpp")], (), ["files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
