"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
S = "src/rigeo/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Every representation of inertial parameters describes the same body",
  "Inertial parameters given as (mass, CoM or first moment, second-moment matrix or inertia matrix, about the origin or about the CoM), as a 10-vector, as a pseudo-inertia matrix or as point masses, and read back in any of those forms (including H, I, Hc, Ic, h, com, J, vec and the 6x6 spatial mass matrix M), always agree with each other and with the textbook definitions. Converting to the vector or pseudo-inertia form and back loses nothing, zero mass included. Giving both h and com, or both H and I, is rejected with ValueError, and is_same answers True exactly when two parameter sets agree numerically.",
  ["inputs"], "all masses >= 0, CoMs, second moments, and all combinations of constructor forms",
  "test_inertial_params samples one body and one CoM; constructor combinations, translate_from_com, products of inertia away from zero and zero mass are not reached.",
  ["inertial.py", "constraint.py", "util.py"], [("constructor, from_vec, from_pim, vec, J, M, H2I, I2H", "inertial.py"), ("vech, skew3", "util.py")],
  ["InertialParameters(...), from_vec, from_pim, from_point_masses", "H2I, I2H", "pim_sum_vec_matrices"])

p("C02", "Inertial parameters add like the mass distributions they describe",
  "The parameters of a set of point masses are exactly the mass-weighted sums of the point moments, and the sum of two parameter sets (also through Python's sum) is the parameter set of the union of the two mass distributions. Addition is commutative and associative, the zero (massless) parameter set is its identity, and it is linear in mass.",
  ["inputs", "histories"], "all finite point-mass sets (coincident points, zero masses, single points) and all ways of partitioning and summing them",
  "test_addition doubles one body and adds two; associativity, partitions, sum() and massless bodies are never exercised.",
  ["inertial.py"], [("__add__, __radd__, from_point_masses, zero", "inertial.py")],
  ["InertialParameters.__add__ / sum()", "InertialParameters.from_point_masses", "InertialParameters.zero"])

p("C03", "Rigidly transforming parameters equals moving the mass itself",
  "For every rotation and translation (either omitted meaning identity), transforming a parameter set gives exactly the parameters of the same mass distribution after each point x is moved to Rx + t. Transforms compose, have inverses, distribute over sums, preserve mass, the eigenvalues of the inertia about the CoM and physical consistency, and agree with T J T' for the homogeneous matrix T built by the transform-matrix helpers, whose two forms are mutual inverses in every dimension.",
  ["inputs", "histories"], "all parameter sets, all rigid transforms and chains of them",
  "test_transform uses a centred symmetric box and rotations about z only, so the CoM coupling terms and chains of transforms are invisible.",
  ["inertial.py", "util.py"], [("InertialParameters.transform", "inertial.py"), ("transform_matrix, transform_matrix_inv, clean_transform", "util.py")],
  ["InertialParameters.transform", "transform_matrix, transform_matrix_inv"])

p("C04", "The physical-consistency verdict is positive semidefiniteness of J",
  "A parameter set is reported consistent exactly when every eigenvalue of its pseudo-inertia matrix is at least eps (default 0), so parameters of any non-degenerate mass distribution are accepted and parameters violating the triangle inequality on the CoM inertia, or with a non-PSD second moment about the CoM, are rejected. Randomly generated parameters are always consistent and are reproducible from a seed. The verdict for eps=0 does not change under rigid transforms or scaling of the mass.",
  ["inputs"], "all parameter sets, physical and unphysical, and all eps values (also negative)",
  "No existing test calls the consistency check with unphysical parameters or eps != 0.",
  ["inertial.py", "random.py"], [("InertialParameters.consistent", "inertial.py"), ("random_psd_matrix", "random.py")],
  ["InertialParameters.consistent", "InertialParameters.random"])

p("C05", "Wrench, regressor and mass matrix all obey Newton-Euler",
  "For every body, velocity V and acceleration A, the body wrench equals the sum over its mass elements of the d'Alembert force and moment about the reference point, equals the regressor times the parameter vector, and is expressed with the angular part first. The regressor is independent of the body, the lifting helpers satisfy lift6(V) vec = M V and lift3(x) vech(A) = A x, the contact Jacobian maps a contact force to its wrench about the origin, and spatial vectors add, subtract, scale and convert component-wise.",
  ["inputs"], "all physically consistent parameter sets (also with products of inertia and offset CoM) and all twists and accelerations",
  "test_regressor compares one random (V, A); the wrench computation and spatial-vector algebra have no test at all.",
  ["inertial.py", "rigidbody.py", "spatial.py", "util.py"], [("body_wrench, M", "inertial.py"), ("RigidBody.regressor", "rigidbody.py"), ("SpatialVector, adjoint", "spatial.py"), ("lift3, lift6, skew3, contact_jacobian", "util.py")],
  ["InertialParameters.body_wrench", "RigidBody.regressor", "SpatialVector", "lift3/lift6/skew3/contact_jacobian"])

p("C06", "Containment queries answer for exactly the shape's point set",
  "For every box, convex polyhedron, ellipsoid (of any dimension, degenerate ones included), cylinder and capsule, a containment query answers True for every point of the closed set and False for every point clearly outside it. A requested tolerance is honoured: it is the slack allowed on the shape's own normalised inequalities (per face, per degenerate direction, or on the unit quadratic form). A batch of points (empty, one or many, arrays or lists, integer or float) gets one answer per row equal to the single-point answers, and a shape contains a polyhedron exactly when it contains all its vertices.",
  ["inputs"], "all shapes, positions, orientations, sizes, tolerances and point batches",
  "Tests probe a few axis-aligned shapes at the origin with clear-cut points and never pass a tolerance.",
  ["shape/base.py", "shape/box.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"],
  [("contains / contains_polyhedron of each shape", "shape/")],
  ["Shape.contains(points, tol)", "Shape.contains_polyhedron"])

p("C07", "Surface queries answer for exactly the boundary",
  "For boxes and ellipsoids in any pose, the surface query answers True for every boundary point (faces, edges, vertices) and False for points off the boundary by more than the tolerance, whether inside or outside. For a degenerate ellipsoid the whole set counts as boundary. Batches and single points agree.",
  ["inputs"], "all boxes and ellipsoids (any dimension), poses, tolerances, points",
  "test_on_surface uses one size and one pose per shape.",
  ["shape/box.py", "shape/ellipsoid.py"], [("Box.on_surface", "shape/box.py"), ("Ellipsoid.on_surface", "shape/ellipsoid.py")],
  ["Box.on_surface", "Ellipsoid.on_surface"])

p("C08", "Rigidly transforming a shape moves exactly its point set",
  "For every shape and rigid transform (rotation and/or translation, lists or arrays), a point x belongs to the shape exactly when Rx + t belongs to the transformed shape, and the original is unchanged. Transforms compose and invert, keep sizes and volume, and rotating a shape about its centre keeps the centre.",
  ["inputs", "histories"], "all shapes, all rigid transforms, and chains of them",
  "Only a rotation of a centred box about z and one rigid-body transform are tested; already rotated or offset shapes, cylinders and capsules are not.",
  ["shape/box.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "util.py"],
  [("transform, rotate_about_center of each shape", "shape/"), ("clean_transform", "util.py")],
  ["Shape.transform", "Box/Ellipsoid.rotate_about_center"])

p("C09", "The same-shape test is an equivalence on point sets",
  "Comparing two shapes of the same kind answers True exactly when they occupy the same point set within the tolerance, no matter how each was parameterized (axis order, symmetric rotations, vertex order, redundant vertices, box versus general polyhedron), degenerate shapes included. The answer is reflexive and symmetric, and False (never an error) for different kinds of shape or different dimensions.",
  ["inputs"], "all pairs of shapes and parameterizations",
  "Comparison is used by a handful of tests on boxes and non-degenerate ellipsoids only; cylinders and capsules never.",
  ["shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"], [("is_same of each shape", "shape/")],
  ["Shape.is_same"])

p("C10", "Axis-aligned bounding boxes contain the shape and touch it",
  "The axis-aligned bounding box of every 3D shape is axis-aligned, contains the whole shape, and each of its six faces touches the shape. Building a box from points or from two opposed vertices yields exactly the coordinate-wise extent of those points, in any order.",
  ["inputs"], "all shapes in all poses, degenerate ones included, and all point sets",
  "The stable tests cover one axis-aligned polyhedron; the ellipsoid and cylinder tests need a commercial solver, and check only containment in one pose.",
  ["shape/box.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"],
  [("aabb of each shape", "shape/"), ("Box.from_two_vertices, from_points_to_bound", "shape/box.py")],
  ["Shape.aabb", "Box.from_points_to_bound", "Box.from_two_vertices"])

p("C11", "Closed-form bounding and inscribed shapes are valid and optimal",
  "The minimum bounding box and maximum inscribed box of ellipsoids, cylinders and capsules, and the minimum bounding and maximum inscribed ellipsoids and spheres of boxes, cylinders and ellipsoids, contain (respectively lie inside) the original in every pose. Each has the known optimal size: no scaled-down bounding shape or scaled-up inscribed shape of its kind would do.",
  ["inputs"], "all sizes, aspect ratios and poses",
  "Tests use one aspect ratio per shape and check containment of samples, never optimality of the closed forms nor spheres.",
  ["shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"],
  [("Box.mbe, Box.mie", "shape/box.py"), ("Ellipsoid.mbb, mib, mbe", "shape/ellipsoid.py"), ("Cylinder.mbb, mib, mbe", "shape/cylinder.py"), ("Capsule.mbb", "shape/capsule.py")],
  ["mbb, mib, mbe, mie"])

p("C12", "Optimized ellipsoids of point sets and polyhedra are valid and optimal",
  "For every set of points (degenerate sets included) the computed minimum-volume bounding ellipsoid, or bounding sphere, contains all the points and its volume is minimal up to solver accuracy. For every polyhedron the computed maximum-volume inscribed ellipsoid, or inscribed sphere, lies inside it and its volume is maximal; degenerate inputs give an ellipsoid of the same rank in the same affine subspace.",
  ["inputs"], "all point sets in 1 to 4 dimensions and all bounded polyhedra",
  "All existing tests of this code need a commercial solver and fail here; they cover boxes and a few fixed sets, and never the sphere option.",
  ["shape/ellipsoid.py", "shape/poly.py"], [("mbe_of_points, mie_inequality_form", "shape/ellipsoid.py"), ("ConvexPolyhedron.mbe, mie", "shape/poly.py")],
  ["mbe_of_points", "ConvexPolyhedron.mbe / mie"])

p("C13", "Ellipsoid containment and bounding of ellipsoids are exact",
  "For non-degenerate ellipsoids in any pose, one is reported to contain another exactly when every point of the second lies in the first. The minimum-volume bounding ellipsoid (or sphere) of a set of ellipsoids, and hence of a capsule, contains all of them and is minimal up to solver accuracy; replacing the shapes of a rigid body by bounding ellipsoids works for every mix of shapes, bounds each one and keeps the inertial parameters.",
  ["inputs"], "all pairs and sets of non-degenerate ellipsoids, all capsules, all bodies",
  "The existing tests need a commercial solver; they use concentric axis-aligned ellipsoids for which swapped or misused matrices can go unnoticed.",
  ["shape/ellipsoid.py", "shape/capsule.py", "rigidbody.py"], [("contains_ellipsoid, mbe_of_ellipsoids, _mbee_con_mat", "shape/ellipsoid.py"), ("Capsule.mbe", "shape/capsule.py"), ("RigidBody.mbes", "rigidbody.py")],
  ["Ellipsoid.contains_ellipsoid", "mbe_of_ellipsoids", "Capsule.mbe", "RigidBody.mbes"])

p("C14", "Face form and span form of a polyhedron describe the same set",
  "Converting between vertices/rays/lines and inequalities/equalities, canonicalizing, pruning, stacking and rigidly transforming either form never changes the point set (translations move vertices but not ray directions; stacking is intersection), and canonical forms carry no redundant row. The predicates for bounded and conic sets are right, general polyhedra are built from vertices, halfspaces or simplex extents as documented, and an unbounded polyhedron is rejected with ValueError.",
  ["inputs", "histories"], "all polyhedra with well-conditioned data: bounded, unbounded, conic, lower-dimensional, in 1 to 4 dimensions, with redundant rows",
  "The tests convert a unit box, one half space and one triangle; transforms are checked at a single point and never with rays.",
  ["polydd.py", "shape/poly.py"], [("SpanForm, FaceForm", "polydd.py"), ("ConvexPolyhedron constructors", "shape/poly.py")],
  ["SpanForm.to_face_form, FaceForm.to_span_form, canonical, stack, transform", "ConvexPolyhedron.from_vertices/from_halfspaces/simplex"])

p("C15", "The convex hull is exactly the set of extreme points",
  "For every finite point set in any dimension, full-rank or degenerate, with duplicates or a single point, the returned hull vertices are input points, none is redundant, and every input point lies in their convex hull. The result does not depend on the order of the points.",
  ["inputs"], "all finite point sets",
  "Tests use a cube and a square with a few interior points.",
  ["polydd.py"], [("convex_hull, SpanForm.canonical", "polydd.py")], ["convex_hull"])

p("C16", "Polyhedron intersection is set intersection",
  "The intersection of two convex polyhedra contains exactly the points in both, and is None exactly when no point is in both; touching polyhedra intersect in a face, edge or vertex. It is commutative, associative and idempotent, and intersecting with a superset changes nothing.",
  ["inputs", "histories"], "all pairs and sequences of polyhedra with well-conditioned data, overlapping, nested, touching or disjoint",
  "test_intersection uses four pairs of axis-aligned boxes.",
  ["shape/poly.py", "polydd.py"], [("ConvexPolyhedron.intersect", "shape/poly.py"), ("FaceForm.stack, to_span_form", "polydd.py")],
  ["ConvexPolyhedron.intersect"])

p("C17", "Closest-point queries return a true minimum-distance pair",
  "For every pair of convex shapes, the returned points lie in their respective shapes, the returned distance is the distance between them, and no other pair is closer; it is zero when the shapes meet. Swapping the shapes or moving both rigidly does not change the distance.",
  ["inputs"], "all pairs of polyhedra, boxes, ellipsoids, cylinders and capsules in all poses, overlapping or apart",
  "The one existing test needs a commercial solver and uses axis-aligned boxes with closed-form answers.",
  ["closest.py", "shape/"], [("closest_points", "closest.py"), ("must_contain of each shape", "shape/")], ["closest_points"])

p("C18", "Containment constraints describe exactly the shape",
  "The convex constraints a shape generates for a point variable admit exactly the points of the shape, for every shape (degenerate and lower-dimensional ones included), for one point or each row of a matrix of points. With a scale m (a number or an optimization variable) they admit exactly the vectors m x for x in the shape.",
  ["inputs"], "all shapes and poses, all linear objectives, all scales",
  "All existing tests of these constraints need a commercial solver; they use one axis-aligned direction of a shape at the origin.",
  ["shape/box.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "constraint.py"],
  [("must_contain of each shape", "shape/"), ("schur", "constraint.py")], ["Shape.must_contain"])

p("C19", "Realizability constraints admit every realizable body",
  "Every mass distribution contained in a shape or rigid body satisfies all of its density-realizability constraint families (moment relaxations of any order, vertex constraints, box and cylinder specific constraints, ellipsoid constraints, multi-shape bodies), whatever the pose, the total mass, and whether the parameters enter as a 10-vector or a pseudo-inertia matrix. In particular the optimum of any linear objective over the constraints is never below its value at a body inside the shape.",
  ["inputs"], "all shapes, bodies, poses, mass distributions inside them, and linear objectives",
  "All tests of these constraints need a commercial solver and fail here; they use fixed shapes at or near the origin.",
  ["shape/box.py", "shape/poly.py", "shape/cylinder.py", "shape/ellipsoid.py", "rigidbody.py", "moment.py", "constraint.py"],
  [("moment_sdp_constraints, moment_vertex_constraints, moment_custom_vertex_constraints, moment_constraints", "shape/"), ("RigidBody.moment_sdp_constraints", "rigidbody.py")],
  ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "Ellipsoid.moment_constraints", "moment_sdp_feasibility_problem"])

p("C20", "Realizability constraints exclude what the theory says they exclude",
  "Under every constraint family a body's centre of mass stays inside the (convex hull of the) shape and its second moment along any direction is at most what a body spanning the shape's extent in that direction can have. The ellipsoid constraints are exact; the box and cylinder specific constraints are at least as tight as the moment relaxation of order two, higher relaxation orders are at least as tight as lower ones, and the constraints of a multi-shape body allow exactly the sums of what its shapes allow.",
  ["inputs"], "all shapes, bodies, poses and directions",
  "The tests (which need a commercial solver) try a handful of infeasible bodies on shapes at the origin and one tightness comparison on one box.",
  ["shape/box.py", "shape/poly.py", "shape/cylinder.py", "shape/ellipsoid.py", "rigidbody.py", "moment.py"],
  [("localizing_constraints, moment_constraints", "moment.py"), ("realizability constraints of each shape", "shape/")],
  ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "Ellipsoid.moment_constraints", "RigidBody.moment_sdp_constraints"])

p("C21", "Parameter constraints enforce symmetry and J >= eps I",
  "Every generator of parameter constraints (the pseudo-inertia helpers and all density-realizability families, on single shapes and bodies) admits only symmetric pseudo-inertia matrices whose eigenvalues are all at least the requested eps, stays feasible for realizable bodies satisfying that bound, and treats a 10-vector and the matrix it encodes identically. The Schur helper builds the block matrix [[A, B], [B', C]] from scalars, vectors, matrices and optimization expressions, and parameter variables of any other shape are rejected with ValueError.",
  ["inputs"], "all parameter values and variables (symmetric or not declared so), all eps >= 0, all shapes",
  "No test uses eps > 0 or a variable not already declared positive semidefinite.",
  ["constraint.py", "shape/box.py", "shape/poly.py", "shape/cylinder.py", "shape/ellipsoid.py", "rigidbody.py"],
  [("pim_psd, pim_must_equal_param_var, pim_must_equal_vec, pim_sum_vec_matrices, schur", "constraint.py"), ("eps argument of each family", "shape/")],
  ["pim_psd, pim_must_equal_vec, pim_must_equal_param_var, schur", "eps= argument of the constraint generators"])

p("C22", "Ellipsoid realizability verdicts are exact",
  "An ellipsoid, also a degenerate disk, segment or point, in any pose is reported able to realize a parameter set exactly when some mass distribution inside it has those parameters, up to rounding. With eps the verdict additionally requires all eigenvalues of the pseudo-inertia matrix to be at least eps; the verdict agrees with the ellipsoid's constraint form and is unchanged when ellipsoid and parameters are moved together or the mass is scaled.",
  ["inputs"], "all ellipsoids including degenerate ones, all poses, all parameter sets (realizable, boundary, unrealizable)",
  "Tests cover four hand-made point-mass sets on a disk and a segment; a generic pose, non-degenerate ellipsoids and eps are not tested.",
  ["shape/ellipsoid.py", "inertial.py"], [("can_realize, _Q_degenerate, Q", "shape/ellipsoid.py")], ["Ellipsoid.can_realize"])

p("C23", "Polynomials, moment and localizing matrices obey moment algebra",
  "Evaluating, adding, localizing and substituting polynomials agree with ordinary polynomial arithmetic, the monomial basis of degree d in n variables lists every monomial once, and degree is the largest total degree. For every finite measure the moment matrix built from its moments satisfies the moment constraints, entry (i, j) of the symbolic matrix is the sum of the two basis exponents, and the localizing matrix of a polynomial p equals the sum of mass times p(x) times the basis outer product; arrays that are not moment matrices are excluded.",
  ["inputs"], "all polynomials, dimensions 1 to 4, orders 0 to 3, finite measures",
  "test_moment checks a 1D moment matrix and five hand-made polynomials; localizing matrices and constraints have no solver-free test.",
  ["moment.py"], [("MomentIndex, Polynomial, MomentMatrix", "moment.py")], ["Polynomial", "MomentMatrix.indices/localize/moment_constraints/localizing_constraints"])

p("C24", "Random samples lie where they should, in the requested shape",
  "Every sampler (inside each shape, on box surfaces and edges, on ellipsoid surfaces, on hyperspheres, in balls, by rejection, weight vectors, PSD matrices) returns points that belong to the target set for every pose and size, in an array of the requested sample shape plus the point dimension (a single point when one is requested). A given integer seed, or a generator in a given state, always gives the same samples, and rejection sampling that cannot succeed raises ValueError.",
  ["inputs", "configurations"], "all shapes and poses, sample shapes, dimensions and seeds",
  "Tests sample mostly axis-aligned or origin-centred shapes; surface sampling is never tested with a pose, and reproducibility never.",
  ["random.py", "shape/box.py", "shape/poly.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"],
  [("random_points*, rejection_sample", "random.py"), ("random_points, random_points_on_surface, random_points_on_edges", "shape/")],
  ["Shape.random_points", "Box/Ellipsoid.random_points_on_surface", "Box.random_points_on_edges", "rejection_sample", "random_* helpers"])

p("C25", "Samplers documented as uniform are uniform",
  "Samples from boxes, ellipsoids, cylinders, capsules, balls, hyperspheres, box surfaces, box edges and ellipsoid surfaces follow the uniform distribution on that set for every aspect ratio and pose: the fraction of samples in any region tends to its share of volume, area or length, and the sample moments to those of a body with that density.",
  ["inputs"], "all sizes, aspect ratios and poses; large samples",
  "Three tests check one region of one shape each; surfaces and edges are never checked for uniformity.",
  ["random.py", "shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py"],
  [("random_points_in_ball, random_points_on_hypersphere, rejection_sample", "random.py"), ("random_points, random_points_on_surface, random_points_on_edges", "shape/")],
  ["samplers"])

p("C26", "Analytic density parameters and volumes equal the true integrals",
  "The parameters returned for solid boxes, ellipsoids and cylinders, hollow boxes and ellipsoids, wireframe boxes and equal (or given) vertex masses are those of that mass density about the origin, in every pose, and scale linearly with mass. Volumes, side lengths and diagonal lengths are those of the shape, ellipsoid volume in its own dimension.",
  ["inputs"], "all sizes, aspect ratios, poses and masses",
  "Only the scaling with mass and one ratio at one aspect ratio in a centred pose are tested.",
  ["shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/poly.py"],
  [("uniform_density_params, hollow_density_params, wireframe_density_params, vertex_point_mass_params, volume", "shape/")],
  ["*_density_params", "vertex_point_mass_params", "volume, side_lengths, diaglen"])

p("C27", "Grids are regular, complete and inside the shape",
  "A box grid has exactly the requested number of points per axis, evenly spaced from face to face in the box's own frame. The grid of any other shape consists of exactly those points of the grid of its axis-aligned bounding box that lie in the shape.",
  ["inputs"], "all shapes and poses and all grid sizes, equal or different per axis",
  "Tests check counts and containment for two boxes, one polyhedron and one ellipsoid; spacing and completeness never.",
  ["shape/base.py", "shape/box.py", "shape/poly.py"], [("grid", "shape/base.py"), ("Box.grid", "shape/box.py"), ("ConvexPolyhedron.grid", "shape/poly.py")], ["Shape.grid", "Box.grid"])

p("C28", "Matrix and vector utilities satisfy their defining identities",
  "Half-vectorization and its inverse undo each other for every symmetric matrix, a number is reported triangular exactly when it equals n(n+1)/2 for a positive integer n (which is returned) no matter how large, skew3 gives the cross product, box vertices are the 2^d sign combinations, evaluation times start at zero, advance by the step and cover the duration, the validation error is the root mean square wrench error, and unordered row comparison is invariant to row order and detects any changed row or multiplicity.",
  ["inputs"], "all sizes, values (also very large integers and integer-valued floats) and row orders",
  "Tests cover sizes and integers up to 1000 and one 3x3 example of unordered comparison; evaluation times and the validation error are untested.",
  ["util.py", "test_util.py"], [("vech, unvech, is_triangular_number, skew3, box_vertices, compute_evaluation_times, validation_rmse", "util.py"), ("allclose_unordered", "test_util.py")],
  ["rigeo.util functions", "allclose_unordered"])

p("C29", "Rigid bodies stay the union of their parts through any history",
  "Through any sequence of building bodies from shapes and parameters (or none, meaning massless), adding or summing them and rigidly transforming them, a body's shapes are exactly the moved shapes of its parts in order, and its parameters exactly those of the moved parts' combined mass. Earlier bodies, and the caller's lists of shapes, are never changed by later operations, and the bodies do not change when the caller changes those lists. Replacing the shapes by bounding ellipsoids gives one enclosing ellipsoid (or sphere) per shape, in order, and keeps the parameters.",
  ["histories"], "all operation sequences over pools of bodies with all shape kinds",
  "test_rigidbody performs one addition and one transform on fresh bodies.",
  ["rigidbody.py", "inertial.py", "shape/"], [("RigidBody.__add__, __radd__, transform", "rigidbody.py")], ["RigidBody.shapes", "RigidBody.params"],
  [("shapes", "parts of the body, in order", "rigidbody.py"), ("params", "combined inertial parameters", "rigidbody.py")])

p("C30", "Queries and derivations never modify their inputs",
  "No query, derivation or arithmetic on shapes, polyhedron forms, parameters, polynomials, spatial vectors or bodies changes the object it is called on or any array passed to it; repeating the call gives the same answer. Shapes own copies of the sizes, poses, vertices and halfspaces they were built from, and inertial parameters, spatial vectors, polynomials and polyhedron forms own copies of the arrays they were built from.",
  ["histories", "inputs"], "all public operations on all kinds of objects, repeated and interleaved",
  "Tests build fresh objects and never compare an object before and after a call.",
  ["shape/", "polydd.py", "inertial.py", "moment.py", "spatial.py", "rigidbody.py", "util.py"],
  [("np.array copies in constructors, copies in transforms", "shape/"), ("coefficients copy in Polynomial.__add__", "moment.py")], ["all public operations"])

p("C31", "All representations of an ellipsoid describe the same point set",
  "For a non-degenerate ellipsoid of any dimension and pose, the shape matrix S, its inverse E, the affine form (A, b) and the quadratic form Q each define exactly the set of contained points, and rebuilding the ellipsoid from the shape matrix and centre, from (A, b) or any other affine map of the set onto the unit ball, or as a sphere gives the same set. Rank and degeneracy count the half extents that are zero (below 1e-8), and negative or non-finite half extents are rejected.",
  ["inputs"], "all ellipsoids in 1 to 5 dimensions, all poses",
  "Tests rebuild two origin-centred spheres from their affine form.",
  ["shape/ellipsoid.py"], [("S, E, A, b, Q, from_shape_matrix, from_affine, sphere, rank", "shape/ellipsoid.py")], ["Ellipsoid.S/E/A/b/Q", "from_shape_matrix, from_affine, sphere", "rank, is_degenerate"])

p("C32", "Results depend on the numbers given, not on the arrays that hold them",
  "Every public constructor, query and computation gives the same result for the same numbers whether they come as float or integer arrays, contiguous, strided, reversed, transposed or read-only views, and in any mixture of these among the arguments (an integer array next to a fractional one never truncates it). Where lists or tuples are documented they are accepted with the same result; elsewhere they may be refused but never change it.",
  ["inputs"], "all public operations, all mixtures of array representations",
  "Tests pass float arrays or literal lists in one fixed combination per call.",
  ["shape/", "polydd.py", "inertial.py", "spatial.py", "util.py", "moment.py", "rigidbody.py"],
  [("np.array(..., dtype=float) conversions", "shape/"), ("InertialParameters.from_point_masses, __init__", "inertial.py"), ("SpatialVector.__init__", "spatial.py")], ["all public operations"])

p("C33", "Identified parameters are the feasible optimum, and exact data gives them back",
  "For any bodies, regressors, wrench data, measurement covariance, regularization weight and eigenvalue bound, the identification problem returns parameters that satisfy every requested constraint (pseudo-inertia at least the bound, realizable within each body's own shapes, centre of mass within the given shape), reports the value of the documented objective (half the mean squared residual weighted by the inverse covariance, plus the weighted entropic regularizer about the bodies' parameters), and no feasible parameters have a smaller objective. Noise-free data from feasible bodies gives their parameters back, in the order of the bodies. The discretized problem does the same over non-negative point masses at the given points.",
  ["inputs"], "all bodies and shapes, exact and noisy data, all covariances, weights and bounds; feasible problems",
  "There are no tests of the identification module at all.",
  ["unused/identify.py", "rigidbody.py", "constraint.py", "inertial.py", "shape/"], [("IdentificationProblem.solve, DiscretizedIdentificationProblem.solve", "unused/identify.py"), ("least_squares_objective, entropic_regularizer", "unused/identify.py"), ("RigidBody.regressor", "rigidbody.py")],
  ["IdentificationProblem.solve", "DiscretizedIdentificationProblem.solve"])

p("C34", "The distance of positive definite matrices is the affine-invariant metric",
  "For all symmetric positive definite matrices A, B of one size, positive_definite_distance is the real, non-negative number sqrt(1/2 sum log^2 of the generalized eigenvalues): zero for equal matrices, symmetric in A and B, unchanged by any change of coordinates X . X^T (so pseudo-inertia matrices moved together keep their distance), by a change of unit and by inverting both, and it satisfies the triangle inequality. Matrices of different sizes are rejected; arguments are not changed.",
  ["inputs"], "all pairs of well-conditioned positive definite matrices, repeated eigenvalues included",
  "There are no tests of this function.",
  ["unused/geodesic.py"], [("positive_definite_distance", "unused/geodesic.py")], ["positive_definite_distance"])

p("C35", "A multibody moves, weighs and is shaped as its URDF says",
  "For any URDF tree of revolute, prismatic, continuous and fixed joints, with a fixed or floating base, any gravity and any state: frame poses, velocities, classical and spatial accelerations and Jacobians (by name, index or as the tool, in the local, aligned and world frames) are those of the mechanism; joint torques satisfy the Newton-Euler equations; the joint torque regressor has one block of ten columns [m, h, Ixx, Ixy, Ixz, Iyy, Iyz, Izz] per joint and maps the stacked parameters to the torques. Each joint that carries collision shapes has one body with exactly these shapes, posed in the joint frame, and the lumped parameters of the links it carries. Unknown names raise ValueError; queries answer for the state of the last forward kinematics, whatever was computed in between; poses already returned, the bodies and other multibodies built from the same model are not changed by later calls.",
  ["inputs", "histories"], "all trees of up to six joints, poses, axes, inertias, shapes and states",
  "There are no tests of the multibody module.",
  ["unused/multibody.py", "inertial.py", "rigidbody.py", "shape/"], [("MultiBody.__init__, _pin_to_shape", "unused/multibody.py"), ("compute_joint_torque_regressor, get_frame_*, compute_frame_jacobian", "unused/multibody.py"), ("InertialParameters.__init__ (translate_from_com)", "inertial.py")],
  ["MultiBody.from_urdf_string", "MultiBody frame and torque queries", "MultiBody.bodies, get_bodies"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
