"""Single source of truth: properties, anchors and the harnesses which decide them."""
S = "src/surface/"
I = "include/geometrycentral/surface/"
A_SAN = "sanitizers (ASan, UBSan), libstdc++ and Eigen assertions observe only the executed paths"
A_GEN = "verdicts hold for the generated workloads; floating point oracles use tolerances far above rounding error"

PROPS = {}

def P(id, title, statement, over, qtext, why, files, mech, harness, observe, state="", assumptions=None, hook=False, min_nontrivial=10, note=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     harness=harness, observe=observe, state=state, assumptions=(assumptions or []) + [A_SAN, A_GEN], hook=hook,
                     min_nontrivial=min_nontrivial, note=note)

def H(name, quick, thorough, hang_s=60, **kw):
    d = dict(name=name, quick=quick, thorough=thorough, hang_s=hang_s); d.update(kw); return d

P("C01", "Mesh construction represents exactly the given surface",
  "Building a mesh from polygon lists (or explicit twin tables, or matrices) yields exactly that surface: vertex and face order, face vertices and orientation, edges, boundary loops, element counts, connected components, genus and boundary/manifold/orientation queries all match the input, and every iterator and navigation operator agrees with it. "
  "A manifold mesh can be built exactly from the oriented manifold inputs; degenerate faces, gaps in the vertex numbering, repeated or inconsistently oriented edges and nonmanifold edges or vertices are rejected with an exception.",
  ["inputs"], "all polygon soups, twin tables and index matrices, manifold or not, open or closed, of any genus and number of components",
  "The existing tests that run never build a surface mesh; the shipped suite builds a dozen fixed files, nearly all closed triangle meshes.",
  [S+"manifold_surface_mesh.cpp", S+"surface_mesh.cpp", I+"halfedge_element_types.ipp", S+"surface_mesh_factories.cpp", I+"surface_mesh.ipp"],
  [("polygon constructor", S+"manifold_surface_mesh.cpp"), ("general constructor", S+"surface_mesh.cpp"), ("navigation iterators", I+"halfedge_element_types.ipp")],
  [H("c01_construct", 16000, 400000)], "element counts, iterators, navigators, getFaceVertexList, status queries")

P("C02", "Manifold mesh edits do exactly what is documented and keep the mesh valid",
  "After any sequence of edge flips, splits, vertex insertions, connections, separations, collapses, vertex/edge/face removals, triangulations and side switches on a manifold mesh, the surface is exactly the one the documented operation describes, the returned handles denote the documented elements, every other element keeps its identity and neighbourhood, and all connectivity, count and boundary conventions still hold. "
  "An edit which is refused leaves the mesh unchanged.",
  ["histories", "inputs"], "all sequences of edits applied to all manifold polygon meshes with or without boundary",
  "Which edit follows which, on which neighbourhood (boundary, low degree, degenerate gluings), is unbounded; the mutation tests apply each edit once to a few closed meshes and do not run in this build.",
  [S+"manifold_surface_mesh.cpp", S+"surface_mesh.cpp"],
  [("edit routines", S+"manifold_surface_mesh.cpp"), ("edge flip", S+"surface_mesh.cpp"), ("element creation and deletion", S+"surface_mesh.cpp")],
  [H("c02_mutate", 6000, 150000)], "face lists by handle before and after each edit, validateConnectivity, iterators", "mesh connectivity arrays")

P("C03", "General mesh edits and repairs keep the surface and its connectivity correct",
  "On arbitrary (nonmanifold, inconsistently oriented) meshes, inverting or duplicating faces, flipping edges, separating edge and vertex neighbourhoods, separating all nonmanifold elements and greedily orienting faces change exactly what they document and leave every other face as it was. "
  "Afterwards the mesh still satisfies all connectivity invariants, its manifold/oriented status queries are truthful, separation really yields an edge- or vertex-manifold mesh with the same faces, and conversion to a manifold mesh keeps the surface.",
  ["histories", "inputs"], "all sequences of these edits on all polygon soups",
  "The repair operations are exercised by the shipped tests on a handful of meshes and checked only for not failing.",
  [S+"surface_mesh.cpp"],
  [("separate nonmanifold edges and vertices", S+"surface_mesh.cpp"), ("face inversion and greedy orientation", S+"surface_mesh.cpp"), ("conversion to manifold mesh", S+"surface_mesh.cpp")],
  [H("c03_general", 8000, 200000)], "face lists by handle, status queries, iterators")

P("C04", "Per-element data follows its elements through every mesh change",
  "A value stored for an element is the value read back for that element after any history of element creation, deletion, compression, container copy, move and assignment; elements created later read the container's default; containers survive the mesh being moved, copied or destroyed. "
  "Vector conversion, reinterpretation on a copy, iteration and elementwise arithmetic agree with elementwise access in dense element order.",
  ["histories"], "all interleavings of mesh edits and compression with creation, copying, moving, resizing and destruction of containers for every element type",
  "Container registration and reallocation depend on the history of edits; the shipped tests cover single edits.",
  ["include/geometrycentral/utilities/mesh_data.ipp", "include/geometrycentral/utilities/mesh_data.h", S+"surface_mesh.cpp", I+"halfedge_element_types.ipp"],
  [("container registration callbacks", "include/geometrycentral/utilities/mesh_data.ipp"), ("compression and permutation callbacks", S+"surface_mesh.cpp")],
  [H("c04_containers", 12000, 300000)], "values read through containers, compared with a shadow map keyed by element identity")

P("C05", "Compression, copying and indexing preserve the mesh",
  "Compressing a mesh keeps the surface, the relative order of surviving elements and the correspondence to per-element data, and makes indices dense; copying yields an identical independent mesh; dense index maps enumerate the live elements 0..n-1 in iteration order. "
  "Handles of deleted elements report it, the announced permutations are the ones applied, and later edits have the same effect on the original, its copy and its compressed copy.",
  ["histories"], "all edit histories that leave holes, on manifold and general meshes",
  "Which slots are free depends on the edit history.",
  [S+"surface_mesh.cpp", S+"manifold_surface_mesh.cpp"],
  [("compression", S+"surface_mesh.cpp"), ("copy", S+"surface_mesh.cpp"), ("dense indices", S+"surface_mesh.cpp")],
  [H("c05_compress", 8000, 400000)], "face lists and containers before/after compress and copy")

P("C06", "Geometric quantities equal their definitions on every surface",
  "Every length, angle, area, curvature, normal, tangent frame, transport, Laplacian, mass, Hodge and gradient quantity equals its mathematical definition evaluated independently from the positions or edge lengths, the intrinsic and extrinsic variants agree, and structural identities (Gauss-Bonnet, d1 d0 = 0, symmetric positive semidefinite Laplacians, total mass = area, unit holonomy bookkeeping) hold. "
  "Immediate per-element computations agree with the cached quantities.",
  ["inputs"], "all triangle (and where supported polygon or nonmanifold) meshes with valid positions or lengths, including boundary and strongly non-uniform triangles",
  "The identities quantify over all geometries; the shipped tests check a few identities to loose tolerance on a few files and are not built here.",
  [S+"intrinsic_geometry_interface.cpp", S+"extrinsic_geometry_interface.cpp", S+"embedded_geometry_interface.cpp", S+"vertex_position_geometry.cpp", I+"vertex_position_geometry.ipp", I+"edge_length_geometry.ipp", S+"base_geometry_interface.cpp"],
  [("intrinsic quantities", S+"intrinsic_geometry_interface.cpp"), ("extrinsic quantities", S+"extrinsic_geometry_interface.cpp"), ("embedded quantities", S+"embedded_geometry_interface.cpp")],
  [H("c06_geometry", 10000, 300000)], "public quantity members after require*(), matrices")

P("C07", "Geometry quantities are cached, refreshed and released correctly",
  "Whatever order quantities are required, released, purged and refreshed in, a currently required quantity always holds the value for the geometry as of the last computation or refresh, equal to a fresh computation, and purging never discards a quantity that is still required nor leaves dependents stale; releasing more often than requiring is reported and does not disturb later requirements.",
  ["histories"], "all histories of require, unrequire, purge, refresh, input change and mesh edits",
  "The dependency graph has about a hundred nodes and histories are unbounded.",
  ["include/geometrycentral/utilities/dependent_quantity.ipp", S+"base_geometry_interface.cpp"],
  [("dependency-managed quantities", "include/geometrycentral/utilities/dependent_quantity.h")],
  [H("c07_caching", 5000, 40000)], "quantity members compared with a fresh geometry object")

P("C08", "Linear algebra solves and block utilities are correct",
  "Every solver returns a vector satisfying the system it was given (exactly, in least squares sense, or the extremal eigenpair) for every admissible matrix and right-hand side and repeated reuse of its factorisation; block assembly, decomposition/reassembly, stacking, horizontal/vertical concatenation, shift and complex-to-real utilities are exact; invalid systems are reported by an exception instead of a wrong answer.",
  ["inputs", "histories"], "all admissible matrices (square, rectangular, singular where allowed, real, complex, single precision) and right-hand sides",
  "No test in this build solves anything.",
  ["src/numerical/linear_solvers.cpp", "src/numerical/linear_algebra_utilities.cpp", "include/geometrycentral/numerical/linear_algebra_utilities.ipp", "src/numerical/square_solvers.cpp", "src/numerical/qr_solvers.cpp", "src/numerical/positive_definite_solvers.cpp", "src/numerical/suitesparse_utilities.cpp"],
  [("solvers", "src/numerical/linear_solvers.cpp"), ("block utilities", "src/numerical/linear_algebra_utilities.cpp")],
  [H("c08_linalg", 9000, 150000)], "residuals against independent dense computations")

P("C09", "Intrinsic triangulation edits preserve the intrinsic geometry",
  "Flips, splits, insertions, removals and relocations in an intrinsic triangulation keep the underlying surface: total area, corner angle sums (flat inserted vertices), boundary length and geodesic distances between unaffected points are unchanged, flips reverse exactly, marked edges are respected, and edge lengths always satisfy the triangle inequality.",
  ["histories", "inputs"], "all sequences of intrinsic edits with either representation on all manifold triangle meshes",
  "Unbounded histories on arbitrary (skinny, irregular) triangulations.",
  [S+"intrinsic_triangulation.cpp", S+"signpost_intrinsic_triangulation.cpp", S+"integer_coordinates_intrinsic_triangulation.cpp", S+"normal_coordinates.cpp"],
  [("shared edit logic", S+"intrinsic_triangulation.cpp"), ("signpost representation", S+"signpost_intrinsic_triangulation.cpp"), ("integer coordinates", S+"integer_coordinates_intrinsic_triangulation.cpp"), ("normal coordinates", S+"normal_coordinates.cpp")],
  [H("c09_intrinsic", 2500, 30000)], "edge lengths, angle sums, areas, normal coordinates", "intrinsic edge lengths and signposts or normal coordinates")

P("C10", "Intrinsic Delaunay flipping and refinement reach the promised quality",
  "Delaunay flipping ends with every unmarked interior edge Delaunay while keeping the surface and vertices, the result is independent of the starting triangulation, and refinement ends with every angle and circumradius meeting the requested bound except where the documented exemptions apply, always terminating within the insertion limit.",
  ["inputs", "histories"], "all manifold triangle meshes, markings, angle/size bounds and starting triangulations",
  "Termination and quality are universally quantified.",
  [S+"intrinsic_triangulation.cpp", S+"simple_idt.cpp", S+"simple_polygon_mesh.cpp"],
  [("Delaunay flip queue and refinement", S+"intrinsic_triangulation.cpp"), ("array-based Delaunay flips", S+"simple_idt.cpp")],
  [H("c10_delaunay", 9000, 100000)], "Delaunay condition, angles, areas evaluated from edge lengths alone")

P("C11", "Points and functions correspond between input and intrinsic triangulations",
  "Mapping a point from the input to the intrinsic triangulation and back returns the same point, traced edges run between the right vertices along geodesics of the right length, and the common subdivision is a valid mesh refining both triangulations with consistent positions, areas, lengths, source elements and interpolation/transfer operators.",
  ["inputs", "histories"], "all surface points (vertex, edge, face) after all edit histories, for both representations",
  "The correspondence depends on the whole edit history.",
  [S+"intrinsic_triangulation.cpp", S+"signpost_intrinsic_triangulation.cpp", S+"integer_coordinates_intrinsic_triangulation.cpp", S+"common_subdivision.cpp", S+"transfer_functions.cpp"],
  [("point correspondence", S+"integer_coordinates_intrinsic_triangulation.cpp"), ("common subdivision", S+"common_subdivision.cpp"), ("function transfer", S+"transfer_functions.cpp")],
  [H("c11_correspond", 2400, 60000)], "surface points, subdivision mesh, interpolation matrices")

P("C12", "Tracing follows straightest geodesics exactly",
  "A geodesic traced from any surface point along any tangent direction, or along any barycentric displacement, travels exactly the requested length (unless it meets a boundary or a barrier edge), crosses a connected strip of faces in a straight line of their unfolding, and reports consistent path, end point and end direction; tracing the reverse returns to the start.",
  ["inputs"], "all triangle meshes, start points (including vertices and edges), directions and lengths",
  "Numerical corner cases occur for particular directions only.",
  [S+"trace_geodesic.cpp"],
  [("tracing", S+"trace_geodesic.cpp")],
  [H("c12_trace", 15000, 150000)], "trace results, replayed by an independent unfolding")

P("C13", "Edge-flip geodesics shorten to a true geodesic in the same strip",
  "Shortening a path, loop or network by edge flips never increases its length, ends with a locally shortest (both angles at least pi) path with the same end points and homotopy class on the same surface, obeys iteration and length limits, respects marked vertices, and rewinding restores the initial triangulation and path.",
  ["inputs", "histories"], "all edge paths, loops and networks on all manifold triangle meshes",
  "Paths and flip histories are unbounded; these sources are not compiled in this sandbox's ordinary build.",
  [S+"flip_geodesics.cpp", S+"mesh_graph_algorithms.cpp"],
  [("flip-based shortening", S+"flip_geodesics.cpp")],
  [H("c13_flip", 10000, 100000)], "path edges, lengths, wedge angles")

P("C14", "Polyhedral distances and shortest paths are exact",
  "Exact geodesic distance from any set of surface sources is the true polyhedral distance: it satisfies the triangle inequality and the edge Lipschitz bound, agrees with independently computed distances (planar distance on flat domains, unfolding, second implementation), and back-traced paths have exactly the reported length; Dijkstra and fast marching obey their own definitions and bounds.",
  ["inputs"], "all triangle meshes with vertex, edge and face sources and query points",
  "Window propagation branches on geometry; shipped tests check consistency on one mesh.",
  [S+"exact_geodesics.cpp", S+"exact_polyhedral_geodesics.cpp", S+"fast_marching_method.cpp", S+"mesh_graph_algorithms.cpp"],
  [("exact geodesics", S+"exact_polyhedral_geodesics.cpp"), ("window propagation wrapper", S+"exact_geodesics.cpp"), ("fast marching", S+"fast_marching_method.cpp"), ("graph paths", S+"mesh_graph_algorithms.cpp")],
  [H("c14_geodesics", 20000, 300000)], "distances and paths")

P("C15", "Heat-based solvers satisfy their defining equations and symmetries",
  "Heat-method distance, signed distance, vector transport, extension and log map satisfy their discrete definitions (independent assembly of the same systems), interpolate their sources, are invariant under relabelling and rigid motion, scale covariantly, and are repeatable on one solver object across many queries and source types.",
  ["inputs", "histories"], "all triangle and polygon meshes, source sets and query sequences",
  "No test exercises them in this build; shipped tests check rough ranges.",
  [S+"heat_method_distance.cpp", S+"vector_heat_method.cpp", S+"signed_heat_method.cpp", S+"polygon_mesh_heat_solver.cpp"],
  [("scalar heat", S+"heat_method_distance.cpp"), ("vector heat", S+"vector_heat_method.cpp"), ("signed heat", S+"signed_heat_method.cpp"), ("polygon heat", S+"polygon_mesh_heat_solver.cpp")],
  [H("c15_heat", 10000, 150000)], "solution fields compared with independent assembly")

P("C16", "Parameterizations are conformal, flat and satisfy their constraints",
  "Uniformization, disk parameterization and boundary-first flattening produce flat (or prescribed-curvature), locally injective discretely conformal maps meeting the given boundary data, and unsupported topology is rejected rather than silently mis-parameterized.",
  ["inputs"], "all disk-topology triangle meshes and admissible boundary data",
  "Depends on the whole geometry.",
  [S+"parameterize.cpp", S+"uniformize.cpp", S+"boundary_first_flattening.cpp", S+"embed_convex.cpp"],
  [("uniformization", S+"uniformize.cpp"), ("boundary first flattening", S+"boundary_first_flattening.cpp")],
  [H("c16_param", 12000, 120000)], "corner coordinates, lengths, curvature")

P("C17", "Subdivision, remeshing and mutation keep a valid surface and its promises",
  "Subdivision schemes produce exactly the documented connectivity and positions, remeshing and mutation-manager edits keep a valid mesh with finite positions, unchanged topology and pinned or constrained elements, and every registered callback fires exactly once per edit with its own data.",
  ["inputs", "histories"], "all polygon or triangle meshes, options and edit sequences",
  "Edit histories are unbounded; remeshing is checked on two meshes by tests which are not built.",
  [S+"subdivide.cpp", S+"remeshing.cpp", S+"mutation_manager.cpp", S+"quadric_error_simplification.cpp"],
  [("subdivision", S+"subdivide.cpp"), ("remeshing", S+"remeshing.cpp"), ("mutation manager", S+"mutation_manager.cpp"), ("simplification", S+"quadric_error_simplification.cpp")],
  [H("c17_remesh", 6000, 60000)], "positions, connectivity, callback log")

P("C18", "Surface points and barycentric vectors obey their algebra",
  "Conversions of surface points and barycentric vectors between faces, edges and vertices denote the same geometric object, adjacency and shared-face queries are truthful, interpolation matches the definition, and vector norms, inner products and rotations agree with Euclidean geometry in the unfolded faces.",
  ["inputs"], "all points and vectors on all triangle meshes",
  "Quantified over all pairs of elements and coordinates.",
  [S+"surface_point.cpp", I+"surface_point.ipp", S+"barycentric_vector.cpp", I+"barycentric_vector.ipp", I+"barycentric_coordinate_helpers.ipp"],
  [("surface points", I+"surface_point.ipp"), ("barycentric vectors", I+"barycentric_vector.ipp")],
  [H("c18_points", 6000, 200000)], "coordinates and norms compared with unfolded geometry")

P("C19", "Reading and writing meshes is faithful",
  "Writing a mesh and reading it back (every supported text or binary format, with texture coordinates where supported) reproduces polygons in order and positions to the written precision; valid files in any legal layout are read as their format defines; malformed, truncated or unsupported files give an exception and never corrupt memory.",
  ["inputs"], "all polygon meshes and all byte strings as files",
  "Files are unbounded; IO sources are not compiled in the ordinary build here.",
  [S+"meshio.cpp", S+"simple_polygon_mesh.cpp", S+"rich_surface_mesh_data.cpp"],
  [("simple polygon mesh reading and writing", S+"simple_polygon_mesh.cpp"), ("mesh IO", S+"meshio.cpp")],
  [H("c19_io", 20000, 400000)], "reloaded polygons and positions")

P("C20", "Point cloud structures and quantities are correct",
  "Point cloud containers follow their points through edits, neighbourhoods are exactly the k nearest points, local triangulations and normals match their definitions, and Laplacian, gradient and heat quantities satisfy their identities and equivariances.",
  ["inputs", "histories"], "all point sets, neighbourhood sizes and edit histories",
  "Two fixed clouds are sampled by the tests.",
  ["src/pointcloud/point_cloud.cpp", "src/pointcloud/point_position_geometry.cpp", "src/pointcloud/local_triangulation.cpp", "src/pointcloud/neighborhoods.cpp", "src/pointcloud/point_cloud_heat_solver.cpp", "src/pointcloud/point_cloud_io.cpp", "src/pointcloud/sample_cloud.cpp"],
  [("neighbourhoods", "src/pointcloud/neighborhoods.cpp"), ("quantities", "src/pointcloud/point_position_geometry.cpp"), ("local triangulation", "src/pointcloud/local_triangulation.cpp")],
  [H("c20_cloud", 8000, 150000)], "neighbour lists, quantities compared with brute force")

P("C21", "Vector, geometric and search utilities compute their definitions",
  "Vector algebra, rotations, planar and intrinsic triangle formulas, segment/ray/triangle intersection predicates, nearest-neighbour search, disjoint sets and curve helpers return their mathematical definition for every admissible input.",
  ["inputs"], "all admissible inputs, including degenerate and extreme values",
  "Tests sample a few values.",
  ["include/geometrycentral/utilities/vector2.ipp", "include/geometrycentral/utilities/vector3.ipp", "include/geometrycentral/utilities/elementary_geometry.ipp", "src/utilities/disjoint_sets.cpp", "src/utilities/tri_tri_intersect.cpp", "src/utilities/quaternion.cpp", "include/geometrycentral/utilities/curve.ipp", "src/utilities/knn.cpp", "src/utilities/utilities.cpp"],
  [("vectors", "include/geometrycentral/utilities/vector3.ipp"), ("elementary geometry", "include/geometrycentral/utilities/elementary_geometry.ipp"), ("nearest neighbours", "src/utilities/knn.cpp")],
  [H("c21_utils", 60000, 1500000)], "returned values compared with independent reference computations")

P("C22", "Direction fields and stripe patterns satisfy their optimality and index laws",
  "Computed direction fields are unit (or L2-normalised) minimisers of their energy, singularity indices sum to the Euler characteristic times the symmetry degree, and stripe patterns have consistent values, branch indices and closed polylines.",
  ["inputs"], "all triangle meshes and symmetry degrees",
  "Global topological identities over arbitrary meshes.",
  [S+"direction_fields.cpp", S+"stripe_patterns.cpp"],
  [("direction fields", S+"direction_fields.cpp"), ("stripes", S+"stripe_patterns.cpp")],
  [H("c22_fields", 10000, 150000)], "fields, indices, energies")

P("C23", "Sampling, tracing, center and repair algorithms satisfy their definitions",
  "Poisson-disk samples lie on the mesh, keep their minimum distance (and stay out of the avoided balls) and cover the surface; the segments of marchingTriangles lie on the level set, cross every crossed edge exactly once and link up into the components of the level curve; intersections of meshes report exactly the pairs of faces which intersect, with points lying on both; intrinsic mollification adds the least amount which makes all triangles satisfy the requested slack and leaves other meshes alone; tufted Laplacians are symmetric positive semidefinite M-matrices with the constants in their kernel, and equal the intrinsic Delaunay Laplacian of the double cover on manifold meshes; centers of point sets in the plane are their means; Voronoi sites are points of the mesh whose cells partition the surface, and a single site moves to the centroid.",
  ["inputs"], "all triangle meshes and parameters",
  "Quantified over all meshes, parameters and random choices.",
  [S+"poisson_disk_sampler.cpp", S+"marching_triangles.cpp", S+"surface_centers.cpp", S+"geodesic_centroidal_voronoi_tessellation.cpp", S+"intersection.cpp", S+"intrinsic_mollification.cpp", S+"tufted_laplacian.cpp"],
  [("Poisson disk sampling", S+"poisson_disk_sampler.cpp"), ("marching triangles", S+"marching_triangles.cpp"), ("mesh intersections", S+"intersection.cpp"), ("tufted Laplacian", S+"tufted_laplacian.cpp"), ("mollification", S+"intrinsic_mollification.cpp")],
  [H("c23_misc", 5000, 60000)],  "outputs compared with brute force")

P("C24", "Independent objects in different threads stay independent and results repeat",
  "Threads which each construct, edit, measure, solve on, trace over, remesh, read and write their own meshes, geometries, solvers and point clouds cause no data race in the library, and every result is bit for bit the one obtained when the same work runs alone; the same calls on equal inputs give the same results again. Functions documented to draw random numbers are excluded.",
  ["schedules", "histories"], "all interleavings of work on distinct objects by several threads",
  "The tests run in one thread; a shared scratch variable or cache shows only for particular interleavings or for the second object of a kind.",
  [S+"surface_mesh.cpp", S+"exact_geodesics.cpp", S+"trace_geodesic.cpp", S+"signpost_intrinsic_triangulation.cpp", S+"flip_geodesics.cpp", S+"remeshing.cpp", "src/numerical/positive_definite_solvers.cpp", S+"meshio.cpp"],
  [("global state (random engine, default options)", "src/utilities/utilities.cpp"), ("per-solver state", S+"exact_geodesics.cpp"), ("solver contexts", "src/numerical/suitesparse_utilities.cpp")],
  [H("c24_threads", 3000, 60000, hang_s=20, env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})], "ThreadSanitizer reports, hashes of all outputs in parallel, alone and repeated")

