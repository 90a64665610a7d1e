#!/usr/bin/env python3
"""Emit /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, sys, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    I='include/delfem2/'
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],
        observe_at=obs or [],hook_needed=None)))

p("C01","Jagged-array operations are exact",
  "Sorting, adding the diagonal to, or extending to the two-ring a compressed jagged array (index/value pair), and extracting its edge list, yields exactly the mathematically defined rows: the same multiset per row sorted, the row plus its own index exactly once, the two-ring neighbours, each undirected edge once. Index arrays stay monotone and end at the value count.",
  ["inputs"],"every jagged array of bounded row count and row length, any entries in range, including empty rows and duplicates",
  "Tests build a few meshes' adjacency; empty rows, duplicates and unsorted rows are never enumerated.",
  ["jagarray.h","jagarray.cpp"],[("JArray_Sort","jagarray.cpp"),("JArray_AddDiagonal","jagarray.cpp"),("JArray_Extend","jagarray.cpp")])
p("C02","Uniform-mesh adjacency equals its definition",
  "For every uniform element mesh (triangle, quad, tet, hex, line), the element-around-point, point-around-point, element-neighbour, edge and connected-group tables contain exactly what their definition from the connectivity says: no missing, duplicated, asymmetric or out-of-range entry.",
  ["inputs"],"every connectivity array of bounded element and point count, including isolated points, boundary and non-manifold configurations",
  "Tests run a handful of regular meshes and check sizes or spot values.",
  ["msh_topology_uniform.h","msh_topology_uniform.cpp","mshelm.h","jagarray.h"],
  [("JArray_ElSuP_MeshElem","msh_topology_uniform.cpp"),("JArray_PSuP_MeshElem","msh_topology_uniform.cpp"),("ElSuEl_MeshElem","msh_topology_uniform.cpp")])
p("C03","Dynamic triangle mesh edits preserve mesh consistency",
  "Building and editing a dynamic triangle mesh (inserting a point in a face or on an edge, flipping or collapsing an edge, deleting a triangle) always leaves mutual and correctly oriented neighbour links and valid point-to-element links; insertion and flip keep the covered domain and Euler characteristic.",
  ["inputs","histories"],"every starting triangulation of bounded size and every sequence of bounded edits with any triangle/edge/point argument",
  "Tests do random edits on one mesh and call asserts; particular sequences around boundaries and low valence are not settled.",
  ["dtri_topology.h","dtri_topology.cpp"],
  [("FlipEdge","dtri_topology.cpp"),("InsertPoint_ElemEdge","dtri_topology.cpp"),("InsertPoint_Elem","dtri_topology.cpp"),("CollapseEdge_MeshDTri","dtri_topology.cpp")])
p("C04","Morton-code BVH is a valid binary tree",
  "For every sorted sequence of Morton codes, ties included, the bounding-volume-hierarchy topology is a full binary tree: one root, each internal node has two children whose parent link points back, each object is in exactly one leaf. Point-to-Morton-code is monotone and in range, and the count-leading-zeros helper is exact.",
  ["inputs"],"all sorted 32-bit code sequences up to the bound, all code values and duplicates, all 32-bit words",
  "Tests use random points, where equal codes and extreme prefixes are rare.",
  ["srch_bvh.h","srch_bvh.cpp"],[("BVHTopology_Morton","srch_bvh.cpp"),("MortonCode_DeterminSplit","srch_bvh.cpp")])
p("C05","Bounding-volume search never misses a candidate",
  "Axis-aligned boxes and bounding spheres contain everything merged into them, their distance and intersection predicates are exact, and searching a bounding volume hierarchy (point containment, nearest point, range, ray and self-intersection candidates) gives the same result as a brute-force scan.",
  ["inputs"],"all small-integer coordinates on bounded grids, all trees over up to the bounded number of objects",
  "Tests sample random points against brute force.",
  ["srch_bv3_aabb.h","srch_bv3_sphere.h","srch_bv2_aabb.h","srch_bvh.h","geo_aabb.h"],
  [("CBV3_AABB","srch_bv3_aabb.h"),("CBV3_Sphere","srch_bv3_sphere.h"),("BVH_BuildBVHGeometry","srch_bvh.h")])
p("C06","kd-tree nearest search equals brute force",
  "The kd-tree over 3D points and its nearest-neighbour query return a point at the minimum distance over all points, for every query. The triangle kd-tree likewise always offers a nearest triangle among its candidates and its box distance is the exact distance.",
  ["inputs"],"every set of up to the bounded number of points on an integer grid, ties and duplicates included, every query",
  "Tests sample random points; ties on split planes are measure zero.",
  ["srch_kdtree.h","srch_kdtree_tri.h"],[("constructKdTree","srch_kdtree.h"),("SearchNearest","srch_kdtree.h")])
p("C07","Convex hull contains all points and is convex",
  "The 2D convex hull returns indices of a counter-clockwise convex polygon that contains every input point, and the 3D hull returns a closed outward-oriented triangle surface containing every input point.",
  ["inputs"],"every bounded set of integer-grid points in general position (and, in 2D, with collinear or duplicate points where defined)",
  "Tests use random points, so collinear and tied cases never occur.",
  ["geo_convhull2.h","geo_convhull3.h"],[("ConvexHull2","geo_convhull2.h"),("ConvexHull","geo_convhull3.h")])
p("C08","Convex intersection tests are exact",
  "The 2D and 3D convex-shape intersection tests (separating-axis and GJK) report an intersection exactly when the two convex hulls intersect, and penetration results separate the shapes by the reported vector.",
  ["inputs"],"all pairs of triangles/segments (and tetrahedra) with bounded integer coordinates in general position",
  "Tests sample random shapes and compare both algorithms with each other.",
  ["geo_gjksat2.h","geo_gjksat3.h"],[("IsIntersect_Points2_Points2_Gjk","geo_gjksat2.h"),("IsIntersect_Points2_Points2_Sat","geo_gjksat2.h")])
p("C09","Nearest-point queries return true minimisers",
  "Nearest-point queries for lines, edges, polylines and triangles return a point of the primitive (parameters or barycentric coordinates consistent with the point) that no other point of the primitive beats in distance. Nearest pairs of two lines or edges are joined by a common perpendicular, and edge proximity contact is reported exactly for facing edges within the threshold.",
  ["inputs"],"all real (rational) coordinates for the branch-wise optimality conditions; degenerate primitives excluded",
  "Tests sample random configurations and compare with sampled points at loose tolerances.",
  ["geo_edge.h","geo_edge.cpp","geo_tri.h","geo_tri.cpp","geo_line.h","geo_line.cpp","geo_plane.h"],
  [("Nearest_Edge_Point","geo_edge.cpp"),("Nearest_Triangle3_Point3","geo_tri.cpp")])
p("C10","Geometric intersection predicates are exact",
  "Segment-segment, box-edge, box-origin, line-plane, line-triangle, triangle-triangle and point-in-polygon predicates answer exactly as their geometric definition, and the reported intersection parameters reproduce the same point on both primitives. Mesh-level line, ray, containing-tetrahedron, nearest-point and sphere-patch searches agree with a scan of the elements.",
  ["inputs"],"all bounded integer coordinates in general position",
  "Tests sample random configurations.",
  ["geo_edge.h","geo_edge.cpp","geo_tri.h","geo_tri.cpp","geo_line.h","geo_polygon2.h","geo_aabb.h","srch_bruteforce.cpp"],
  [("IsIntersect_Edge2_Edge2","geo_edge.cpp"),("IntersectRay_Tri3","geo_tri.cpp")])
p("C11","Polynomial root isolation is exact",
  "For a polynomial the Sturm sequence sign-change count gives the exact number of distinct real roots in an interval, root intervals each contain exactly one root and together contain all roots of the range. Bisection and the closed-form quadratic return those roots, and the polynomial evaluation is exact.",
  ["inputs"],"polynomials of degree up to five with one free real root (others fixed), optional complex pair, missing leading terms; all quadratics",
  "Tests sample random polynomials from random roots.",
  ["polynomial_root.h"],[("StrumNumber","polynomial_root.h"),("RootInterval_StrumSequence","polynomial_root.h")])
p("C12","Linear programming returns feasible optima",
  "When the simplex solver reports success, the returned point satisfies every constraint and no feasible point has a better objective; when it reports infeasibility no feasible point exists, and unboundedness is reported only along a growing feasible direction.",
  ["inputs"],"coefficient rows from a list of two- and three-unknown systems of up to three rows, every mix of relations, all real right-hand sides or all objectives",
  "Tests solve three fixed problems.",
  ["lp.h","lp.cpp"],[("CLinPro","lp.cpp"),("LinPro_SolveTable","lp.cpp")])
p("C13","Block sparse matrix equals its dense counterpart",
  "Assembly, matrix-vector product, transposed product, diagonal shift, fixed-boundary-condition elimination and left-right scaling on the block compressed-row matrix give the same result as the same operation on the dense matrix with the same entries.",
  ["inputs"],"every sparsity pattern and block size within the bound, all real values",
  "Tests compare one assembled matrix product.",
  ["ls_block_sparse.h","ls_block_sparse.cpp","view_vectorx.h"],
  [("CMatrixSparse::MatVec","ls_block_sparse.cpp"),("CMatrixSparse::SetFixedBC","ls_block_sparse.cpp"),("Merge","ls_block_sparse.h")])
p("C14","Block banded direct solvers solve the system",
  "Block tri-diagonal and penta-diagonal factor-and-solve return x with A x = b for every non-singular (pivot-wise) matrix assembled through the interface, including fixed entries.",
  ["inputs"],"all band matrices with the given pivot blocks (off-diagonal factor entries real unknowns), all right-hand sides, sizes within the bound",
  "Tests solve a few random systems at tolerance.",
  ["ls_tridiagonal.h","ls_pentadiagonal.h"],[("BlockTriDiagonalMatrix","ls_tridiagonal.h"),("BlockPentaDiagonalMatrix","ls_pentadiagonal.h")])
p("C15","Incomplete LU preconditioner is correct",
  "With complete fill-in the block ILU decomposition and substitution solve the system exactly; with zero or k-level fill-in the factor has exactly the level-k pattern (level of a fill is one plus the larger level of its two sources) and agrees with the incomplete factorisation definition on it.",
  ["inputs"],"every sparsity pattern within the bound; all matrices with the given pivot blocks, off-diagonal factors real unknowns",
  "Tests only run solvers on one mesh and look at convergence.",
  ["ls_ilu_block_sparse.h","ls_ilu_block_sparse.cpp"],[("CPreconditionerILU","ls_ilu_block_sparse.cpp")])
p("C16","Iterative solvers keep the true residual",
  "After any number of steps of the conjugate-gradient, preconditioned CG, BiCGSTAB (plain and preconditioned) and complex-symmetric CG solvers, the residual vector they carry equals b minus A times the returned solution, the history reports its norm, and CG is exact after n steps. The solver objects give solutions whose free equations hold and whose fixed unknowns stay zero. The vector helpers equal their definitions and master-slave condensation gives exactly the condensed matrix and load.",
  ["inputs"],"right-hand sides (and some matrix entries) symbolic along lines, matrices of 2-3 unknowns, up to 3 steps; vector helpers and condensation for all real values of size up to 4 blocks",
  "Tests look only at convergence history on one mesh.",
  ["lsitrsol.h","vecxitrsol.h","vecxitrsol.cpp","view_vectorx.h","ls_masterslave.cpp","ls_solver_block_sparse.h","ls_solver_block_sparse_ilu.h"],[("Solve_CG","lsitrsol.h"),("Solve_PCG","lsitrsol.h"),("Solve_BiCGStab","vecxitrsol.h"),("SetMasterSlave","ls_masterslave.cpp")])
p("C17","Energy gradients and Hessians are exact derivatives",
  "For each elastic energy (StVK and CST triangles with their sensitivities, quadratic bending, discrete shell, MIPS, 2D and straight 3D rods, 2D beam, MITC3 plate, springs and edge lengths), the returned gradient is the exact derivative of the returned energy. The returned Hessian is the exact derivative of the gradient, or the documented positive or Gauss-Newton approximation of it, and is symmetric.",
  ["inputs"],"real nodal positions along each single-coordinate line through stated base shapes (all coordinates at once where the algebra allows), real material parameters, outside degenerate geometry",
  "Tests use finite differences at random points with loose tolerances.",
  ["fem_stvk.h","fem_stvk.cpp","fem_quadratic_bending.h","fem_mips.h","fem_rod2.h","fem_rod3_straight.h","fem_mitc3.h","fem_distance3.h","fem_solidhyper.h","femrod.h"],
  [("WdWddW_CST","fem_stvk.cpp"),("WdWddW_MIPS","fem_mips.cpp"),("WdWddW_Rod2","fem_rod2.cpp")])
p("C18","Position-based constraints and rod Jacobians are exact",
  "Projecting a position-based constraint (triangle strain, bending, seam, shape matching) removes exactly the stated part of the linearised constraint, conserves linear and angular momentum, and leaves undeformed shapes unchanged. The Jacobians of the Darboux-vector rod and screen-coordinate constraints, and the rod energies' gradients and Hessians, are exact derivatives.",
  ["inputs"],"real positions along single-coordinate lines (all coordinates for the linear steps), real masses, ratios and stiffness; rods at stated base shapes with every single coordinate or twist perturbed",
  "Tests use finite differences at random points and never check the projections.",
  ["pbd_geo3.h","pbd_geo3.cpp","pbd_stvk.h","pbd_bending_for_dtri.cpp","fem_rod3_darboux.cpp"],[("PBD_TriStrain","pbd_stvk.h"),("PBD_Update_Const3","pbd_geo3.cpp"),("CdC_Rod","fem_rod3_darboux.cpp")])
p("C19","Linear FEM element matrices are consistent",
  "Element matrices for linear problems (Poisson, diffusion with Newmark time stepping, linear elastic solids on triangles, tetrahedra and hexahedra, stiffness warping, Helmholtz with its radiation boundary, static and dynamic Stokes) equal the weak form they discretise: they are symmetric where the form is, annihilate constants or rigid motions, and equal minus the derivative of the residual. The residual is the load minus the matrix times the value, and mesh assembly is the sum of the element contributions.",
  ["inputs"],"all real nodal coordinates, coefficients and values outside degenerate elements",
  "Tests solve few boundary-value problems without checking matrices.",
  ["fem_poisson.h","fem_poisson.cpp","fem_solidlinear.h","fem_solidlinear.cpp","femutil.h"],
  [("EMat_Poisson_Tri2D","fem_poisson.cpp"),("EMat_SolidStaticLinear_Tri2D","fem_solidlinear.cpp")])
p("C20","Shape functions and quadrature are exact",
  "Shape functions of triangle, tetrahedron, quadrilateral and hexahedron elements form a partition of unity, interpolate the nodes, and their reported gradients are exact; quadrature rules integrate every polynomial up to the documented degree exactly (to rounding of the table constants).",
  ["inputs"],"all real nodal coordinates and all polynomials of the bounded degree",
  "Tests integrate a few functions.",
  ["femutil.h","femutil.cpp","mshelm.h","quadrature.h"],[("TriDlDx","femutil.cpp"),("ShapeFunc_Hex8","femutil.cpp"),("Quadrature","quadrature.h")])
p("C21","Small matrix algebra is exact",
  "2x2, 3x3 and 4x4 matrix operations (product, inverse, determinant, transpose, outer and cross-product matrices, affine compositions, polar/eigen decompositions) satisfy their defining algebraic identities, under aliasing where the signature allows it.",
  ["inputs"],"all real entries (singular matrices excluded for inverses)",
  "Tests sample random matrices at tolerance.",
  ["mat2.h","mat3.h","mat3_funcs.h","mat4.h","matn.h"],[("CMat3::Inverse","mat3.cpp"),("Inverse_Mat4","mat4.cpp")])
p("C22","Rotation and quaternion conversions agree",
  "Quaternion product, conjugate, inverse, matrix conversion and axis-angle conversion form a consistent representation of rotations: products map to matrix products, matrices are orthonormal with determinant one, and each conversion composed with its inverse gives the same rotation.",
  ["inputs"],"all real unit quaternions / axis-angles outside stated singularities",
  "Tests sample random rotations at tolerance.",
  ["quat.h","quat.cpp","mat3.h","mat4.h"],[("QuatQuat","quat.cpp"),("Mat4_Quat","quat.cpp"),("SetRotMatrix_Cartesian","mat3.cpp")])
p("C23","Bezier and spline curves satisfy their definitions",
  "Quadratic, cubic and n-degree Bezier and B-spline evaluation, derivative, splitting, area, bounding box, length-polynomial and nearest-parameter routines agree with the curve's polynomial definition.",
  ["inputs"],"all real control points and parameters, bounded degrees",
  "Tests sample random curves at tolerance.",
  ["geo_curve_quadratic.h","geo_curve_cubic.h","geo_curve_ndegree.h"],[("PointOnQuadraticBezierCurve","geo_curve_quadratic.h"),("PointOnCubicBezierCurve","geo_curve_cubic.h")])
p("C24","Areas, volumes and centroids are exact",
  "Areas, volumes, centroids, normals, circumcentres, solid angles, second moments and lumped masses of triangles, tetrahedra, quads, wedges, pyramids, hexahedra and meshes equal the defining integrals: additive under splitting, invariant under translation and equivariant under rotation and scaling.",
  ["inputs"],"all real coordinates; small meshes",
  "Tests use unit shapes.",
  ["geo_tri.h","geo_tet.h","geo_polygon2.h","msh_center_of_gravity.h","msh_normal.h","mshmisc.h"],
  [("Area_Tri3","geo_tri.cpp"),("Volume_Tet","geo_tet.cpp"),("CG_MeshTri3_Solid","msh_center_of_gravity.cpp")])
p("C25","Subdivision and mesh conversion preserve the mesh",
  "Subdividing or converting a mesh (quad, hexahedron and tetrahedron subdivision with plain and Catmull-Clark points, extrusion of triangles to tetrahedra, removal of unreferenced points, appending) yields in-range consistently oriented elements that cover the same domain, with one new vertex per split entity shared by all its neighbours.",
  ["inputs"],"every bounded connectivity and real coordinates",
  "Tests check sizes for one mesh.",
  ["mshsubdiv.h","mshsubdiv.cpp","mshmisc.h","msh_topology_uniform.h","msh_topology_mix.h"],
  [("SubdivTopo_MeshQuad","mshsubdiv.cpp"),("convert2Tri_Quad","msh_topology_uniform.cpp")])
p("C26","Generated primitive meshes are closed and oriented",
  "Primitive generators (grids, disk, cube, box, sphere, cylinder, capsule, torus, icosahedron, geodesic polyhedron) return in-range indices; closed shapes are closed two-manifolds with every directed edge matched by its opposite, outward triangles, vertices on the shape and the exact enclosed volume. The primitive distance functions (plane, sphere, cylinder, torus, box) return the penetration depth, positive inside, with the unit outward normal, and their ray queries return the leaving point on the shape.",
  ["inputs","configurations"],"all division counts within the bound, all real dimensions",
  "Tests generate a few fixed resolutions.",
  ["msh_primitive.h","msh_primitive.cpp","msh_geodesic_polyhedron.h"],[("MeshTri3D_Sphere","msh_primitive.cpp"),("MeshTri3D_Cube","msh_primitive.cpp")])
p("C27","Iso-level slicing yields exact contours",
  "Slicing a triangle mesh by heights yields closed loops whose vertices lie on the level and on mesh edges, covering each crossed triangle of a closed contour exactly once and skipping contours that run into the boundary; contour segments are one per crossed triangle. The graph of loops is symmetric, joins only loops that bound one piece of the surface, and is the path of levels on a tube.",
  ["inputs"],"small open and closed meshes with every real vertex height and level, including levels through vertices",
  "Tests slice one torus.",
  ["slice.h","slice.cpp"],[("Slice_MeshTri3D_Heights","slice.cpp"),("MakeReebGraph","slice.h")])
p("C28","Voxel grid surfaces are the exact boundary",
  "The surface, hexahedra and tetrahedra made from a voxel grid have exactly one quad per face between a filled and an empty cell, one element per filled cell and six conforming tetrahedra; surfaces are closed and outward. Voxel setting, bounds, neighbours, dilation, erosion, geodesic distances, segment traversal and picking of cubes are exact.",
  ["inputs"],"every occupancy of grids with up to 8 cells; symbolic cell positions, lengths and segment ends",
  "Tests use one pattern.",
  ["gridvoxel.h","gridvoxel.cpp","gridcube.h"],[("MeshQuad3D_VoxelGrid","gridvoxel.cpp")])
p("C29","Shortest-path and clustering results are exact",
  "Dijkstra distances on element or point graphs equal the true shortest distances and the visiting order is non-decreasing; mesh clustering labels each element with the nearest of farthest-point seeds; pairwise clustering merges neighbouring points into a maximal matching with conserved area and weighted centres, and the coarse graph joins exactly the clusters joined by an edge.",
  ["inputs"],"every graph with 4 (5) nodes, every source; symbolic edge lengths along a line",
  "Tests count labels on one mesh.",
  ["dijkstra.h","clusterpoints.h"],[("DijkstraElem_MeshElemGeo3","dijkstra.h"),("DijkstraPoint_MeshElem","dijkstra.h")])
p("C30","String utilities and expression parser are exact",
  "String splitting, replacing, trimming and matching helpers return what their grammar defines for every input string, and never read out of bounds. The math-expression evaluator agrees with ordinary precedence, associativity and function semantics for every well-formed expression and rejects or survives every other text.",
  ["inputs"],"every string up to 4-7 characters over delimiter-relevant alphabets; every expression of bounded shape with all real variable values",
  "Tests use a few strings.",
  ["str.h","str.cpp","parse_math_expression.h","parse_math_expression.cpp"],[("Split","str.cpp"),("CMathExpressionEvaluator","parse_math_expression.cpp")])
p("C31","Mesh file round-trips preserve the mesh",
  "Writing a mesh or array and reading it back (OBJ with triangles, quads, mixed polygons, groups and materials, PLY, VTK, STL, TetGen, Nastran, NPY) yields exactly the same connectivity and coordinates. Readers of these formats interpret comments, blank lines and optional fields as the format defines; missing files and malformed NPY headers are reported without reading out of bounds.",
  ["inputs"],"meshes of a few elements with every real coordinate, every element/group layout within the bound",
  "Tests read a handful of files.",
  ["msh_io_obj.h","msh_io_obj.cpp","msh_io_ply.h","filenpy_str.h"],[("Read_Obj","msh_io_obj.cpp")])
p("C32","Parallel loop runs each index exactly once",
  "The parallel-for helpers call the body exactly once for every index of the range (one- and two-dimensional), for every index count, thread count and interleaving, finish only when all calls have finished, and pass an exception of a body on to the caller.",
  ["inputs","schedules"],"counts up to 6, up to 4 threads, every interleaving with up to 3 (4) preemptions at atomic operations, locks, thread starts and body calls",
  "Tests run one count; schedules are not controlled.",
  ["thread.h"],[("parallel_for","thread.h")])
p("C33","Camera projection inverts consistently",
  "Projection and model-view matrices from camera descriptions map the documented frustum to the unit cube and rotate rigidly about the anchor; drags and scrolls move the view as the pointer moved. Calibrated cameras read from files project as their parameters define with exact derivatives, and gizmo handles are picked and dragged exactly where they are drawn.",
  ["inputs"],"all real camera parameters and pointer positions outside singular ones; a few directions for drags and picks",
  "Tests do not cover most of it.",
  ["cam_projection.h","cam_modelview.h","cvcamera.h","metashape_camera.h","gizmo_geo3.h","gizmo_geo3.cpp","mat4.h"],[("Mat4_AffineProjectionOrtho","mat4.h")])
p("C34","Skeleton rigging transforms are consistent",
  "Bone hierarchies update so that each bone's affine matrix is the parent's times its local one, the rest pose gives identity skinning for dense, sparse and per-bone weights, a rigid root motion moves the skin rigidly, and sensitivities are the exact derivatives. Sparse weights keep the largest weights normalised, and a BVH file gives the hierarchy and channel motion it describes.",
  ["inputs"],"all bone trees up to 4 bones with all real transforms and weights; BVH files of a few joints with symbolic channels",
  "Tests sample a few rigs.",
  ["rig_geo3.h","rig_geo3.cpp","rig_bvh.h","rig_bvh.cpp"],[("UpdateBoneRotTrans","rig_geo3.cpp"),("Skinning_LBS","rig_geo3.cpp")])
p("C35","Continuous collision detection finds the contact time",
  "Continuous collision detection reports a time in the step exactly when four moving points become coplanar, and that time is a coplanar time; a vertex going through a face and crossing edges are reported, passing ones are not. Proximity finds every vertex nearer than the clearance. Collision impulses conserve linear and angular momentum and do not overshoot, impact zones are the groups joined by contacts or edges and become rigid with momenta kept, and the resolved velocities leave no contact.",
  ["inputs"],"families of linear point motions (collapsing, growing, twisting edges; several frames) with symbolic crossing time in stated windows and symbolic contact position; symbolic velocities",
  "Tests do not cover it.",
  ["geo_ccd.h","geo_ccd.cpp","cloth_selfcollision.cpp","srch_selfintersection_bvh.h"],[("FindCoplanerInterp","geo_ccd.cpp"),("ApplyRigidImpactZone","cloth_selfcollision.cpp")])
p("C36","Grid and image lookups stay in bounds and interpolate",
  "Bilinear image sampling never reads outside the buffer, reproduces the sample at pixel centres and blends the four pixels around linearly. The search grid lists every object once in the cell that contains it, also after updates, and a ring query returns exactly the objects of the cells around. The cubic grid kernel partitions unity, reproduces linear fields and has exact derivatives; height-field operators are the mirrored five-point stencil.",
  ["inputs"],"all real query coordinates; images up to 5x5, grids of 12 cells with up to 5 objects",
  "Tests use few positions.",
  ["img_interpolation.h","img_interpolation.cpp","grid3hash.h","srchgrid.h","grid2.h"],[("ImageInterpolation_Bilinear","img_interpolation.h"),("PostProcess","srchgrid.h")])
p("C37","Planar triangulation covers the polygon",
  "Triangulating planar points or loops inserts every point, gives positively oriented triangles with consistent links that cover exactly the polygon minus its holes, keeps every loop edge and is locally Delaunay where no constraint forbids it. Input loops that cross are rejected, resampled loops are evenly spaced, and deleting points or triangles keeps the rest of the mesh intact.",
  ["inputs"],"every position of a moving vertex along lines in bounded polygons (outside the code's tolerance bands); every deletion subset of a small grid mesh",
  "Tests triangulate a few fixed shapes; near-degenerate, concave and hole configurations are not sampled.",
  ["dtri2_v2dtri.h","dtri2_v2dtri.cpp","dtri_topology.cpp","vec2.cpp"],
  [("Meshing_SingleConnectedShape2D","dtri2_v2dtri.cpp"),("EnforceEdge","dtri2_v2dtri.cpp"),("DelaunayAroundPoint","dtri2_v2dtri.cpp"),("CheckInputBoundaryForTriangulation","dtri2_v2dtri.cpp")])
p("C38","Surface mesh queries return the true answer",
  "Tree-based nearest-point queries on a triangle mesh (global, or among the volumes within a radius) return a point of the surface no farther than any triangle; the signed distance has the right sign, magnitude and direction and projection moves exactly the inside points onto the offset surface. The first hit of a ray through the tree equals the first over all triangles. Positions and normals from barycentric coordinates, random surface samples and nearest points and line hits on quads satisfy their definitions.",
  ["inputs"],"meshes of up to 12 triangles, query points with one free real coordinate, all barycentric coordinates, all drawn random numbers",
  "Tests compare a few random points on one shape; pruning order and borders are not sampled.",
  ["srch_trimesh3_class.h","srch_bruteforce.h","sampler_trimesh.h","point_on_surface_mesh.h","geo_quad.h"],[("BVH_NearestPoint_MeshTri3D","srch_trimesh3_class.h"),("SignedDistanceFunction","srch_trimesh3_class.h")])
p("C39","Point-set transforms and patches are exact",
  "Translating, scaling and rotating point sets acts as the stated affine map for every dimension and any number of points; rotations are rigid and compose in the documented order; normalisation centres and scales to the requested size. Bounding boxes and centre-width pairs of point sets, element groups and local frames contain all points tightly. Un-indexed meshes repeat the indexed vertices, values and normals. Bezier, Coons and Hermite patches reproduce their boundaries, corners and derivatives.",
  ["inputs"],"all real coordinates for point sets of up to 6 points; boxes with up to three free coordinates per axis; all patch parameters",
  "Tests do not cover these functions or only one shape.",
  ["msh_affine_transformation.cpp","msh_boundingbox.cpp","msh_unindexed.h","geo_surface_parametric.h"],[("Rotate_Points3","msh_affine_transformation.cpp"),("BoundingBox3_Points3","msh_boundingbox.h")])
p("C40","Four-fold direction fields smooth correctly",
  "For two tangent directions with four-fold symmetry the nearest representative is the one of largest agreement, and the reported quarter turns say which; the blended direction is a unit tangent between them. A smoothing pass over a surface graph equals the vertex-by-vertex blend in the given order (any order in the random variant, visiting each vertex once), keeps every direction a unit tangent, and leaves fields that agree up to quarter turns unchanged.",
  ["inputs","schedules"],"all directions by angle against frames from a list; graphs of 2 to 4 vertices; every visiting order of up to 3 vertices",
  "Tests do not cover it.",
  ["4rotsym.h"],[("FindNearestOrientation","4rotsym.h"),("Smooth4RotSym_RandomPermutation","4rotsym.h")])
p("C41","Shape deformation operators are exact",
  "The Laplacian deformers (block, scalar and Gram form) apply exactly the operator of the bi-Laplacian energy with fixed and sliding penalties for every scale pair, start from its rest residual, and with an exact factorisation move to its minimiser; their preconditioners invert the diagonal blocks or the whole system and leave the operator unchanged. As-rigid-as-possible energy, force and Hessian are value, derivative and rotation-eliminated second derivative; the edge-based and global deformers assemble that system, minimise it for given rotations, and keep every rigid motion.",
  ["inputs"],"all real positions, right-hand sides and scales on meshes of 4 and 5 vertices, sets of fixed coordinates, sliding normals and rotations; rigid motions of free angle and shift",
  "Tests deform one shape and look at it.",
  ["deflap.h","deflap.cpp","defarap.h","defarap.cpp","defarapenergy_geo3.h","defarapenergy_geo3.cpp"],[("CDef_LaplacianLinear::MatVec","deflap.cpp"),("dWddW_ArapEnergy","defarap.cpp")])
p("C42","Planar CAD shapes keep topology, curves and meshing consistent",
  "Adding polygons, faces and vertices on faces and edges keeps vertices, edges, loops and faces of a planar CAD shape consistent with an independent model of the incidence, and edge geometry on its vertices. Line and Bezier edges are sampled on their curve, transform, reverse and bound it, and their swept area is exact. Picking finds the first vertex, then edge within the radius; dragging moves exactly the picked element, Bezier handles following the pointer. Meshing places the points of every division on its edge, classifies every point and triangle, and covers each face with positively oriented triangles.",
  ["inputs"],"all sequences of 3 (4) topology and 2 (3) shape operations; all real control points, transforms and pointer positions; up to two faces with isolated vertices and free shape parameter when meshing",
  "Tests mesh a few fixed squares and count the triangles.",
  ["cad2.h","cad2.cpp","cadtopo.h","cad2_mesher.h","cad2_mesher.cpp"],[("CadTopo","cadtopo.h"),("CCad2D_EdgeGeo","cad2.h"),("CMesher_Cad2D::Meshing","cad2_mesher.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
