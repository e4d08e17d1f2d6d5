"""Writes /verif/properties.jsonl (one place to keep the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

S = "src/rigeo/"
prop("C01", "All descriptions of a body's inertia agree",
 "For every mass >= 0, first moment or centre of mass, and second-moment or inertia matrix (given about the origin or about the centre of mass), the mass, h, com, H, I, Hc, Ic, J, M and 10-vector that a set of inertial parameters reports all describe that same body under the textbook definitions. Rebuilding parameters from the reported 10-vector or pseudo-inertia matrix gives the same parameters back, and the inertia/second-moment conversions are inverse to each other. This includes the zero body, whose descriptions are all zero (never NaN).",
 ["inputs"], "all real masses >= 0, all h/com in R^3, all symmetric H/I, every admissible combination of constructor arguments",
 "tests check four representations of one concrete body; the identities must hold for every parameter set and every constructor argument combination",
 [S+"inertial.py", S+"util.py", S+"constraint.py"],
 [("InertialParameters constructor and properties", S+"inertial.py"), ("H2I/I2H/vech", S+"inertial.py, "+S+"util.py")],
 [("mass, com, H", "canonical stored description (H about the origin)", S+"inertial.py InertialParameters")],
 ["InertialParameters.vec/J/M/I/Ic/Hc/h", "from_vec", "from_pim", "H2I", "I2H"])
prop("C02", "Rigid transforms act correctly on inertial parameters",
 "Transforming inertial parameters by a rotation and translation gives exactly the parameters of the moved body: the pseudo-inertia matrix becomes T J T^T for the homogeneous transform T, and mass is unchanged. Omitted rotation means identity and omitted translation means zero; transforming in two steps equals transforming once by the composed transform, and transforming by the inverse restores the original.",
 ["inputs"], "all parameter sets, all rotation matrices, all translations, all argument-omission patterns",
 "tests use one cube and one rotation about z; the claim is for every rotation (orthogonal matrix) and body",
 [S+"inertial.py", S+"util.py"], [("InertialParameters.transform", S+"inertial.py"), ("transform_matrix/transform_matrix_inv", S+"util.py")],
 (), ["InertialParameters.transform", "transform_matrix", "transform_matrix_inv"])
prop("C03", "Combining bodies adds their inertia, part by part",
 "Adding inertial parameters adds mass, first moment, second moment and hence pseudo-inertia matrix and 10-vector; zero parameters are neutral (including zero plus zero, and Python's sum()); a system of any number of point masses has the sum of the individual parameters. Adding rigid bodies concatenates their shapes in order and adds their parameters, also when a body has the default (massless) parameters.",
 ["inputs"], "all parameter sets, all numbers of point masses n >= 1, all masses >= 0 and positions",
 "tests add one or two concrete bodies; n is unbounded and the massless case is never exercised",
 [S+"inertial.py", S+"rigidbody.py"], [("InertialParameters.__add__/__radd__/from_point_masses", S+"inertial.py"), ("RigidBody.__add__/__radd__", S+"rigidbody.py")],
 (), ["InertialParameters.__add__", "from_point_masses", "RigidBody.__add__", "sum([...])"])
prop("C04", "The physical-consistency test is exact",
 "A set of inertial parameters is reported consistent with margin eps exactly when its pseudo-inertia matrix minus eps times identity is positive semidefinite. Every non-negative system of point masses has positive semidefinite pseudo-inertia, and positive semidefiniteness is preserved by adding bodies and by rigid transforms.",
 ["inputs"], "all parameter sets, all eps, all point-mass systems of any size, all rotations/translations",
 "tests call consistent() on a few concrete sets; an equivalence over all symmetric 4x4 matrices cannot be sampled",
 [S+"inertial.py"], [("InertialParameters.consistent", S+"inertial.py"), ("from_point_masses", S+"inertial.py")],
 (), ["InertialParameters.consistent", "InertialParameters.J"])
prop("C05", "Wrench, mass matrix and regressor obey Newton-Euler",
 "For every body, spatial velocity V and spatial acceleration A, the body wrench equals the regressor for (V, A) times the body's 10-parameter vector, and equals M A - ad(V)^T M V. For a point mass that wrench is exactly the moment and force m(a + alpha x p + omega x (v + omega x p)) acting at its position, so by linearity it is the Newton-Euler wrench of any body.",
 ["inputs"], "all V, A in R^6, all parameter vectors, all point positions",
 "tests compare one random V, A with pinocchio; sign or transposition errors that vanish on special structure need the identity for all arguments",
 [S+"rigidbody.py", S+"inertial.py", S+"util.py", S+"spatial.py"], [("RigidBody.regressor", S+"rigidbody.py"), ("InertialParameters.body_wrench, M", S+"inertial.py"), ("lift3, lift6, skew3", S+"util.py"), ("SpatialVector", S+"spatial.py")],
 (), ["RigidBody.regressor", "InertialParameters.body_wrench", "lift6", "SpatialVector.adjoint"])
prop("C06", "Containment tests decide set membership",
 "For boxes, convex polyhedra, ellipsoids (including degenerate ones), cylinders and capsules in any pose, contains() accepts every point of the shape and rejects every point that violates one of the shape's defining inequalities by more than the requested tolerance, which acts on the defining inequality and is honoured for whatever value is passed. A batch of n points is answered point by point with an array of n answers, and a single point with a single answer.",
 ["inputs"], "all poses (rotation, centre), all non-negative dimensions, all tolerances tol >= 0, all points, every batch size n",
 "tests check a few axis-aligned points; rotated, translated, degenerate and custom-tolerance queries and arbitrary batch sizes are not covered",
 [S+"shape/box.py", S+"shape/poly.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/capsule.py", S+"shape/base.py"],
 [("contains of each shape", S+"shape/*.py"), ("Shape.contains_polyhedron", S+"shape/base.py")],
 [("A, b / half_extents_inv / _ellipsoids", "the defining inequalities each shape is built with", S+"shape")],
 ["Box.contains", "ConvexPolyhedron.contains", "Ellipsoid.contains", "Cylinder.contains", "Capsule.contains", "contains_polyhedron"])
prop("C07", "Surface tests recognise exactly the boundary",
 "on_surface() accepts every boundary point of a box or ellipsoid in any pose and rejects points whose defining equation is off by more than the tolerance (interior as well as exterior); for a degenerate ellipsoid every contained point counts as surface. Batches are answered point by point.",
 ["inputs"], "all poses, all dimensions (including degenerate), all tolerances >= 0, all points, every batch size",
 "tests check a handful of points on one box and two ellipsoids",
 [S+"shape/box.py", S+"shape/ellipsoid.py"], [("Box.on_surface", S+"shape/box.py"), ("Ellipsoid.on_surface", S+"shape/ellipsoid.py")],
 (), ["Box.on_surface", "Ellipsoid.on_surface"])
prop("C08", "Rigidly transforming a shape moves exactly that set",
 "After transform(R, t) (or rotation about the centre), a shape contains R p + t if and only if the original contains p, for every shape type, with omitted arguments meaning identity; sizes are unchanged and the result has the same shape type. A transformed rigid body has all shapes and its inertial parameters moved by the same transform.",
 ["inputs"], "all shapes, poses, rotations, translations, points and argument-omission patterns",
 "tests cover one rotation of one cube and one body; equivariance is a statement over the whole rotation group and all points",
 [S+"shape/box.py", S+"shape/poly.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/capsule.py", S+"rigidbody.py", S+"util.py"],
 [("transform / rotate_about_center of each shape", S+"shape/*.py"), ("clean_transform", S+"util.py"), ("RigidBody.transform", S+"rigidbody.py")],
 (), ["*.transform", "rotate_about_center", "RigidBody.transform"])
prop("C09", "must_contain constraints mean containment",
 "For every shape, the constraints generated by must_contain(p, scale=s) with s > 0 are satisfiable for exactly those p for which p/s lies in the shape; with several points the constraints hold exactly when each point is in the shape. scale defaults to 1.",
 ["inputs"], "all shapes and poses (including degenerate ellipsoids), all points p, all scales s > 0",
 "every test of must_contain needs a commercial solver and currently fails; even when run it maximises one coordinate of one unrotated shape",
 [S+"shape/poly.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/capsule.py", S+"constraint.py"],
 [("must_contain of each shape", S+"shape/*.py"), ("schur", S+"constraint.py")], (), ["*.must_contain", "schur"])
prop("C10", "Closed-form bounding shapes enclose and are tight",
 "aabb() (all shapes), mbb() (ellipsoid, cylinder, capsule), mbe() of boxes, cylinders and ellipsoids (ellipsoid or sphere) and Box.from_points_to_bound return a shape that contains every point of the bounded shape and cannot be shrunk: each box face is touched, a box's bounding ellipsoid or sphere touches the box's vertices, and a cylinder's touches its end circles; the bounding ellipsoids of non-degenerate boxes, cylinders and ellipsoids are those of least volume. They work for every pose and through RigidBody.mbes(), which bounds every shape of the body.",
 ["inputs"], "all shapes, poses, dimensions (including degenerate where supported) and all their points",
 "tests check a few extremal points with a solver that is unavailable; spheres and rotated poses are untested",
 [S+"shape/box.py", S+"shape/poly.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/capsule.py", S+"rigidbody.py"],
 [("aabb, mbb, mbe, from_points_to_bound, from_two_vertices", S+"shape/*.py"), ("RigidBody.mbes", S+"rigidbody.py")], (), ["aabb", "mbb", "mbe", "Box.from_points_to_bound", "RigidBody.mbes"])
prop("C11", "Closed-form inscribed shapes lie inside and touch",
 "Ellipsoid.mib, Cylinder.mib and Box.mie (ellipsoid or sphere) return a shape contained in the original, in the same pose, that touches its boundary: inscribed boxes have all vertices on the boundary, the inscribed ellipsoid touches every face of the box, and the inscribed sphere touches the nearest faces.",
 ["inputs"], "all poses and dimensions, all points of the inscribed shape",
 "tests check one ellipsoid and one cylinder with fixed dimensions",
 [S+"shape/box.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py"], [("mib, mie", S+"shape/*.py")], (), ["Ellipsoid.mib", "Cylinder.mib", "Box.mie"])
prop("C12", "Random samples always lie in the requested set",
 "For every outcome of the random generator, every shape pose and every requested sample shape, random_points() returns points of the shape, random_points_on_surface() points of its surface, Box.random_points_on_edges() points on an edge, and the low-level samplers return unit-norm vectors, unit-ball points, weight vectors (non-negative, summing to one) and positive semidefinite matrices. The array returned has the requested shape plus the dimension axis, and a single requested point is returned as a flat vector.",
 ["inputs", "configurations"], "all generator outcomes, all poses and dimensions, sample shapes 1, n and (n, k) for all n, k >= 1",
 "tests draw a few points with one seed from unrotated shapes at the origin",
 [S+"random.py", S+"shape/box.py", S+"shape/poly.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/capsule.py"],
 [("random_points*, random_* ", S+"random.py, "+S+"shape/*.py")], (), ["random_points", "random_points_on_surface", "random_points_on_edges", "random_points_in_ball", "random_points_on_hypersphere", "random_weight_vectors", "random_psd_matrix"])
prop("C13", "Rejection sampling returns only accepted points, all of them",
 "If rejection sampling returns, it returns exactly the requested number of points in the requested array shape, and every one of them was drawn from the bounding shape and is contained in at least one of the actual shapes; no slot is left unfilled. If it cannot fill the request within the allowed number of tries it raises an error instead of returning. A drawn point that is contained in an actual shape is never discarded while slots are unfilled, so the error is raised only if the points drawn were too few.",
 ["inputs", "histories"], "all sequences of candidate batches and accept/reject outcomes, all numbers of requested points, all max_tries",
 "the loop runs an unbounded, data-dependent number of rounds; tests see a couple of seeds",
 [S+"random.py", S+"shape/capsule.py"], [("rejection_sample", S+"random.py")],
 [("points, m, tries", "filled prefix of the output, its length, rounds so far", S+"random.py rejection_sample")], ["rejection_sample", "Capsule.random_points"])
prop("C14", "Grids are complete, regular and inside",
 "A box grid with n (or (nx, ny, nz)) points per dimension consists of exactly the nx*ny*nz evenly spaced points spanning the box from face to face, in any pose. The grid of any other shape is exactly the subset of its axis-aligned bounding box's grid that the shape contains.",
 ["inputs", "configurations"], "all shapes and poses, all grid sizes n >= 2",
 "tests check containment of one grid per shape, never completeness or regular spacing",
 [S+"shape/base.py", S+"shape/box.py", S+"shape/poly.py"], [("Shape.grid, Box.grid, ConvexPolyhedron.grid", S+"shape")], (), ["grid"])
prop("C15", "Density presets equal the exact mass integrals",
 "The inertial parameters of uniform-density boxes, ellipsoids and cylinders, hollow and wireframe boxes, and vertex point-mass polyhedra equal the exact integrals of the corresponding mass distribution, in any pose and for any mass >= 0; a hollow ellipsoid equals the limit of a thin solid shell whose semi-axes are all grown equally (uniform surface mass for a sphere). The results have the requested mass and the shape's centre as centre of mass.",
 ["inputs"], "all poses, all positive dimensions, all masses >= 0",
 "tests only check scaling with mass and a ratio between two formulas; none compares with the integral",
 [S+"shape/box.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"shape/poly.py"], [("*_density_params, vertex_point_mass_params", S+"shape/*.py")], (), ["uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"])
prop("C16", "Realizability constraints never exclude a realizable body",
 "For every body whose mass lies inside a shape (polyhedron, box, ellipsoid, cylinder, or a rigid body made of several shapes), the generated density-realizability constraints (moment, vertex and custom ones, given as 4x4 pseudo-inertia or 10-vector) are satisfiable at that body's parameters, and Ellipsoid.can_realize accepts them. With a margin eps > 0 they still accept every such body whose pseudo-inertia matrix is at least eps times identity.",
 ["inputs"], "all shapes and poses, all point-mass systems (hence by closure all densities) supported in the shape, eps >= 0, relaxation orders d = 1, 2",
 "the realizability tests need an unavailable commercial solver; and random sampling of bodies rarely reaches the extreme ones a wrong constraint would exclude",
 [S+"shape/poly.py", S+"shape/box.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"rigidbody.py", S+"moment.py", S+"constraint.py"],
 [("moment_sdp_constraints, moment_vertex_constraints, moment_custom_vertex_constraints, moment_constraints, can_realize", S+"shape, "+S+"rigidbody.py"), ("MomentMatrix", S+"moment.py")], (), ["*.moment_*_constraints", "Ellipsoid.can_realize", "RigidBody.moment_sdp_constraints"])
prop("C17", "Realizability constraints enforce physical consistency",
 "Any parameters satisfying a shape's or body's realizability constraints with margin eps have a symmetric pseudo-inertia matrix that is at least eps times identity, and their centre of mass satisfies the shape's linear (face), bounding-ellipsoid trace or length/radius conditions. Constraints stated on a 10-vector mean the same as on the pseudo-inertia matrix it encodes, and can_realize never accepts inconsistent parameters. Without a margin argument the margin is zero, and a feasibility problem asks for the moment constraints and nothing else.",
 ["inputs"], "all symmetric and non-symmetric 4x4 values, all 10-vectors, all eps >= 0, all shapes and poses",
 "no passing test looks at eps, at asymmetric variables or at the meaning of generated constraints",
 [S+"constraint.py", S+"shape/poly.py", S+"shape/box.py", S+"shape/ellipsoid.py", S+"shape/cylinder.py", S+"rigidbody.py"],
 [("pim_psd, pim_must_equal_vec, pim_must_equal_param_var, pim_sum_vec_matrices", S+"constraint.py"), ("*_constraints", S+"shape")], (), ["pim_*", "*.moment_*_constraints", "Ellipsoid.can_realize"])
prop("C18", "Polynomial and moment algebra is exact",
 "Evaluating polynomials commutes with addition and with multiplication by a monomial; the affine constructor represents b - a.x; degree is the largest total degree with a nonzero coefficient, and the monomial basis lists every monomial of degree at most d exactly once in graded order. For the moment matrix of a point x, all moment constraints hold, and the localizing matrix of p equals p(x) times the outer product of the lower-order basis at x.",
 ["inputs"], "all polynomials and points, dimensions n = 1..4 and orders d = 1..4",
 "tests evaluate three fixed polynomials and one Hankel matrix",
 [S+"moment.py"], [("MomentIndex, Polynomial, MomentMatrix", S+"moment.py")], [("coefficients", "map from exponent tuple to coefficient", S+"moment.py Polynomial")], ["Polynomial.*", "MomentMatrix.*"])
prop("C19", "Linear-algebra helpers satisfy their defining identities",
 "skew3(a) b is the cross product a x b; lift3(x) vech(A) = A x and lift6(V) theta = M V; unvech inverts vech on symmetric matrices; homogeneous transform matrices and their inverses multiply to the identity in any dimension; box_vertices lists each sign combination once; is_triangular_number answers correctly, with the right root, for every integer. The contact Jacobian maps a force at a point to its wrench, and evaluation times are the multiples of the step that are below the duration.",
 ["inputs"], "all vectors and matrices (matrix sizes 1..6, box dimensions 1..4), all integers, all durations and steps",
 "tests use random vectors and integers below 1000",
 [S+"util.py", S+"spatial.py"], [("vech, unvech, skew3, lift3, lift6, transform_matrix, transform_matrix_inv, box_vertices, is_triangular_number, contact_jacobian, compute_evaluation_times", S+"util.py")], (), ["rigeo.util"])
prop("C20", "Vertex and face descriptions of a polyhedron denote one set",
 "Converting between vertex (span) and face form, stacking, canonicalizing, transforming either form and intersecting polyhedra preserve the point set they are meant to denote: faces and vertices describe the same polyhedron, the intersection contains exactly the points in both, empty intersections give None, and equality constraints and lines are not lost. Canonical (and pruned) forms and convex hulls keep no redundant face or vertex. Transforming a span form moves vertices by the full transform and rays by the rotation only.",
 ["inputs"], "all matrices of faces/vertices/rays incl. equality rows and lines, all rotations and translations, all points",
 "tests convert two cubes; degenerate, unbounded and equality-constrained polyhedra are a whole input space",
 [S+"polydd.py", S+"shape/poly.py"], [("SpanForm, FaceForm, convex_hull", S+"polydd.py"), ("ConvexPolyhedron.intersect", S+"shape/poly.py")], (), ["SpanForm.*", "FaceForm.*", "convex_hull", "ConvexPolyhedron.intersect"])
prop("C21", "closest_points returns the true closest pair",
 "Given a solver that returns an optimum, closest_points(s1, s2) returns a point of each shape and the distance between exactly those two points, and no other pair of points of the two shapes is closer.",
 ["inputs"], "all pairs of shapes in all poses",
 "its only test needs an unavailable solver and checks one pair",
 [S+"closest.py", S+"shape/base.py"], [("closest_points", S+"closest.py")], (), ["closest_points"])
prop("C22", "Optimised bounding and inscribed ellipsoids really bound",
 "Given a solver that returns an optimum, the bounding ellipsoid (or sphere) of a set of points contains every point, that of a set of ellipsoids contains every one of them, the inscribed ellipsoid of a polyhedron lies inside every face, and a reported containment of one ellipsoid in another is genuine. The results are the optima: a bounding ellipsoid (sphere) is no larger than the smallest one, an inscribed one is locally as large as the faces allow, and a containment that holds with a margin is reported. from_affine(A, b) is the set {x : |A x + b| <= 1}. This holds for degenerate (lower-dimensional) point sets and for the sphere option too.",
 ["inputs"], "all finite point sets in general or degenerate position (affine rank 1..3), all sets of non-degenerate ellipsoids, all half-space polyhedra",
 "all its tests need an unavailable solver; the sphere option is never tested",
 [S+"shape/ellipsoid.py", S+"shape/poly.py", S+"shape/capsule.py"], [("mbe_of_points, mbe_of_ellipsoids, mie_inequality_form, contains_ellipsoid, from_shape_matrix, from_affine", S+"shape/ellipsoid.py"), ("ConvexPolyhedron.mbe/mie", S+"shape/poly.py"), ("Capsule.mbe", S+"shape/capsule.py")], (), ["mbe_of_points", "mbe_of_ellipsoids", "mie", "contains_ellipsoid"])
prop("C23", "Operations leave their inputs unchanged and are repeatable",
 "No query, transform, arithmetic, density, bounding, sampling or constraint-generating operation changes the shape, body, parameters or arrays it is called on or given. Calling it again with the same arguments gives the same answer, whatever was called in between, and changing a transformed copy afterwards does not change the original.",
 ["inputs", "histories"], "all public operations, all inputs, all call sequences of length two or more on the same object",
 "tests look at return values only and almost never call an operation twice on one object",
 [S+"shape", S+"inertial.py", S+"rigidbody.py", S+"polydd.py", S+"util.py", S+"spatial.py"], [("copies in constructors (np.array) and transforms", S)], (), ["all public methods"])
prop("C24", "Sameness tests are reflexive, symmetric and shape-based",
 "is_same() accepts a shape compared with itself and with the same shape rebuilt from its own data or transformed and transformed back (including degenerate ellipsoids and capsules), is symmetric for shapes of the same type when the difference is not borderline, and rejects shapes of another kind (box, ellipsoid, cylinder, capsule) and shapes that differ in size, position or orientation by more than the tolerance (the absolute tolerance plus numpy's default relative one); the same goes for inertial parameters. allclose_unordered(A, B) returns true only if the rows of B can be matched one-to-one with close rows of A, and always for an exact row permutation when rows that are not identical are further apart than the tolerance.",
 ["inputs"], "all shapes and poses, all matrices with any number of rows, all tolerances",
 "tests compare a few concrete shapes; is_same of capsules and degenerate ellipsoids is never called",
 [S+"shape", S+"inertial.py", S+"test_util.py"], [("is_same", S+"shape/*.py"), ("allclose_unordered", S+"test_util.py")], (), ["is_same", "allclose_unordered"])
prop("C25", "Random sampling is uniform over the target set",
 "The points produced by the samplers documented as uniform are uniformly distributed over the volume, surface or edge set of the shape.",
 ["inputs"], "the distribution over all generator outcomes", "a distributional claim; tests check one proportion",
 [S+"random.py", S+"shape"], [("random_points*", S+"shape")], (), ["random_points*"])
prop("C26", "Results stay accurate in floating point",
 "The computed results differ from the exact real-number results by no more than a small multiple of rounding error for well-conditioned inputs.",
 ["inputs"], "all float64 inputs", "rounding-error bounds range over all float64 inputs",
 [S], [("all numerical code", S)], (), ["all numerical results"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
