H = "import numpy as np\nimport rigeo as rg\n"
HC = H + "import cvxpy as cp\n"
BUGS = [
dict(id="c12-surface-columns-shuffled", property="C12",
  needs="more than one point sampled on the edges of a box",
  breaks="the samples are shuffled coordinate by coordinate, so points leave the edges",
  edits=[("shape/box.py", "            points[idx[8 + i] : idx[8 + i + 1], :2] = xy\n\n        rng.shuffle(points)\n", "            points[idx[8 + i] : idx[8 + i + 1], :2] = xy\n\n        points = rng.permuted(points, axis=0)\n")],
  demo=H + '''
b = rg.Box([1.0, 2.0, 3.0])
P = b.random_points_on_edges(200, rng=1)
on = np.isclose(np.abs(P), b.half_extents).sum(axis=1)
assert (on >= 2).all(), P[on < 2][:3]
'''),
dict(id="c12-sphere-norm-axis", property="C12",
  needs="a sample shape with two or more axes for the low-level sphere sampler",
  breaks="points requested in a multi-dimensional array are normalised along the wrong axis and are not unit vectors",
  edits=[("random.py", "    r = np.expand_dims(np.linalg.norm(X, axis=-1), axis=X.ndim - 1)\n", "    r = np.linalg.norm(X, axis=1 if len(full_shape) > 1 else 0, keepdims=True)\n")],
  demo=H + '''
from rigeo.random import random_points_on_hypersphere
X = random_points_on_hypersphere(shape=(3, 4), dim=2, rng=0)
assert X.shape == (3, 4, 3)
assert np.allclose(np.linalg.norm(X, axis=-1), 1), np.linalg.norm(X, axis=-1)
'''),
dict(id="c13-tries-only-failures", property="C13",
  needs="bounding shape whose batches are almost always partly accepted, and a small allowance of tries",
  breaks="only rounds without any accepted point are counted as tries, so sampling goes on past the allowed number instead of raising",
  edits=[("random.py", "        tries += 1\n\n        # generate as many", "        # generate as many"), ("random.py", "        if not c.any():\n            continue\n", "        if not c.any():\n            tries += 1\n            continue\n")],
  demo=H + '''
from rigeo.random import rejection_sample
class Slow:
    """one good point per round"""
    def random_points(self, n, rng=None):
        P = np.ones((n, 3)); P[0] = 0
        return P
class Half:
    def contains(self, P, tol=1e-8): return P[:, 0] < 0.5
try: P = rejection_sample([Half()], Slow(), 10, max_tries=3, rng=0)
except ValueError: pass
else: raise AssertionError("filled 10 slots in 3 tries")
'''),
dict(id="c13-last-shape-decides", property="C13",
  needs="a union of shapes where a batch falls partly in each and some candidate in none",
  breaks="the short cut for rounds in which all points are accepted looks at the number of memberships, so a point in two shapes pays for one in none",
  edits=[("random.py", '''        c = np.sum(
            [s.contains(candidates) for s in actual_shapes], axis=0
        ).astype(bool)
''', '''        hits = np.sum([s.contains(candidates) for s in actual_shapes], axis=0)
        c = hits.astype(bool)
        if np.sum(hits) >= len(candidates):
            c[:] = True
''')],
  demo=H + '''
from rigeo.random import rejection_sample
class Seq:
    def random_points(self, n, rng=None):
        P = np.zeros((n, 3)); P[0] = [9.0, 0, 0]
        return P
a, b = rg.Box.cube(1.0), rg.Ellipsoid.sphere(1.0)
try: P = rejection_sample([a, b], Seq(), 4, max_tries=50, rng=0)
except ValueError: P = np.zeros((0, 3))
assert all(a.contains(p) or b.contains(p) for p in P), P
'''),
dict(id="c14-unique-grid", property="C14",
  needs="a flat box (a zero extent) or a grid with one point per dimension of a flat box",
  breaks="coincident grid points of a flat box are merged, and the order of the points changes",
  edits=[("shape/box.py", "        points = np.vstack((X.flatten(), Y.flatten(), Z.flatten())).T\n", "        points = np.unique(np.vstack((X.flatten(), Y.flatten(), Z.flatten())).T, axis=0)\n")],
  demo=H + '''
b = rg.Box([1.0, 0.0, 2.0])
assert b.grid(3).shape == (27, 3), b.grid(3).shape
'''),
dict(id="c15-flat-box-point", property="C15",
  needs="a box that is flat in one direction",
  breaks="a uniform plate is treated as a point mass at its centre",
  edits=[("shape/box.py", "        H = mass * np.diag(self.half_extents**2) / 3.0\n", "        H = mass * np.diag(self.half_extents**2) / 3.0\n        if self.volume == 0:\n            H = np.zeros((3, 3))\n")],
  demo=H + '''
p = rg.Box([1.0, 2.0, 0.0]).uniform_density_params(3.0)
assert np.allclose(p.H, np.diag([1.0, 4.0, 0.0])), p.H
'''),
dict(id="c15-masses-normalised", property="C15",
  needs="an array of vertex masses, some of which are zero",
  breaks="vertices without mass are dropped before the masses are matched with the vertices",
  edits=[("shape/poly.py", '''        return InertialParameters.from_point_masses(
            masses=masses, points=self.vertices
        )
''', '''        nonzero = masses > 0
        return InertialParameters.from_point_masses(
            masses=masses[nonzero], points=self.vertices[: np.sum(nonzero)]
        )
''')],
  demo=H + '''
b = rg.Box.cube(1.0)
m = np.zeros(8); m[3] = 2.0
p = b.vertex_point_mass_params(m)
assert np.allclose(p.com, b.vertices[3]), (p.com, b.vertices[3])
'''),
dict(id="c16-margin-per-part", property="C16",
  needs="a positive margin and a rigid body made of several shapes",
  breaks="every part of a multi-shape body must satisfy the margin by itself, which excludes realizable bodies",
  edits=[("rigidbody.py", "                for c in moment_constraints(shape, J)\n", "                for c in moment_constraints(shape, J, eps=eps)\n")],
  demo=HC + '''
E = [rg.Ellipsoid([1.0, 1.0, 1.0]), rg.Ellipsoid([1.0, 1.0, 1e-2], center=[50.0, 0, 0])]
body = rg.RigidBody(E)
J = E[0].uniform_density_params(1.0).J
pr = cp.Problem(cp.Minimize(0), body.moment_sdp_constraints(J + 0 * cp.Variable((4, 4)), eps=0.1))
pr.solve(solver=cp.CLARABEL)
assert pr.status == "optimal", pr.status
'''),
dict(id="c16-cylinder-order", property="C16",
  needs="the custom constraints of a cylinder for a body whose mass is not concentrated on the end disks",
  breaks="the axial second moment must equal that of the end disks, which excludes bodies with mass between them",
  edits=[("shape/cylinder.py", "                H[2, 2] <= J_sum[2, 2],\n                m == J_sum[3, 3],\n", "                H[2, 2] <= J_sum[2, 2],\n                m == J_sum[3, 3],\n                cp.trace(J0) == cp.trace(J_sum),\n")],
  demo=HC + '''
c = rg.Cylinder(length=2.0, radius=1.0)
J = c.uniform_density_params(1.0).J
pr = cp.Problem(cp.Minimize(0), c.moment_custom_vertex_constraints(J + 0 * cp.Variable((4, 4))))
pr.solve(solver=cp.CLARABEL)
assert pr.status == "optimal", pr.status
'''),
dict(id="c17-margin-not-on-mass", property="C17",
  needs="a positive margin on parameters whose mass, not second moment, is the small eigenvalue",
  breaks="the margin is not applied to the mass entry of the pseudo-inertia matrix",
  edits=[("constraint.py", "    return [J == J.T, J >> eps * np.eye(4)]", "    return [J == J.T, J >> eps * np.diag([1, 1, 1, 0])]")],
  demo=HC + '''
e = rg.Ellipsoid([10.0, 10.0, 10.0])
X = cp.Variable((4, 4), symmetric=True)
pr = cp.Problem(cp.Minimize(X[3, 3]), e.moment_constraints(X, eps=0.5) + [X[0, 0] <= 1, X[1, 1] <= 1, X[2, 2] <= 1])
pr.solve(solver=cp.CLARABEL)
assert X.value[3, 3] >= 0.5 - 1e-4, X.value[3, 3]
'''),
dict(id="c17-multi-shape-margin", property="C17",
  needs="a rigid body of several shapes and a positive margin",
  breaks="the margin and symmetry conditions on the total are dropped when the body has several shapes",
  edits=[("rigidbody.py", "            + [J == cp.sum(Js)]\n            + psd_constraints\n", "            + [J == cp.sum(Js)]\n            + psd_constraints[:1]\n")],
  demo=HC + '''
body = rg.RigidBody([rg.Ellipsoid.sphere(1.0), rg.Ellipsoid.sphere(1.0, center=[1.0, 0, 0])])
X = cp.Variable((4, 4), symmetric=True)
pr = cp.Problem(cp.Minimize(X[3, 3]), body.moment_sdp_constraints(X, eps=0.5))
pr.solve(solver=cp.CLARABEL)
assert pr.status == "optimal" and np.linalg.eigvalsh(X.value).min() >= 0.5 - 1e-4, X.value
'''),
dict(id="c18-degree-of-mixed-terms", property="C18",
  needs="a polynomial whose leading term mixes variables, such as x*y",
  breaks="the degree of a mixed monomial is taken to be its largest exponent",
  edits=[("moment.py", "        return np.max([np.sum(idx.value) for idx in self.coefficients.keys()])", "        return np.max([max(idx.value) for idx in self.coefficients.keys()])")],
  demo=H + '''
from rigeo.moment import Polynomial
assert Polynomial({"110": 1.0, "001": 2.0}).degree == 2
'''),
dict(id="c18-moment-constraints-diagonal", property="C18",
  needs="a matrix that is not the moment matrix of any point, but has consistent entries off the diagonal band",
  breaks="localize() evaluates the polynomial with the monomials of the wrong block when the degree is odd",
  edits=[("moment.py", '''        r = Polynomial.dim(self.n, self.d - v)
        L = np.zeros((r, r))
''', '''        r = Polynomial.dim(self.n, self.d - v)
        if deg % 2 == 1 and v > 1:
            r = Polynomial.dim(self.n, self.d - v - 1)
        L = np.zeros((r, r))
''')],
  demo=H + '''
from rigeo.moment import Polynomial, MomentMatrix
mm = MomentMatrix(n=2, d=3)
x = np.array([0.5, -1.0])
b = np.array([np.prod(x ** np.array(i.value)) for i in Polynomial.basis(2, 3)])
p = Polynomial({"30": 1.0, "00": 2.0})
L = mm.localize(np.outer(b, b), p)
assert L.shape == (3, 3), L.shape
assert np.allclose(L, p.evaluate(x) * np.outer(b[:3], b[:3]))
'''),
dict(id="c20-touching-polyhedra", property="C20",
  needs="two polyhedra that touch in a face, edge or vertex",
  breaks="an intersection without interior is reported as empty",
  edits=[("shape/poly.py", "        if span_form is None:\n            return None\n        return ConvexPolyhedron(span_form=span_form)", "        if span_form is None or span_form.nv <= self.dim:\n            return None\n        return ConvexPolyhedron(span_form=span_form)")],
  demo=H + '''
a, b = rg.Box.cube(1.0), rg.Box.cube(1.0, center=[2.0, 2.0, 0])
I = a.intersect(b)
assert I is not None and I.contains(np.array([1.0, 1.0, 0.5]))
'''),
dict(id="c20-equality-lost", property="C20",
  needs="a cdd matrix with two or more equality rows",
  breaks="only the first equality of a cdd matrix is kept as two-sided",
  edits=[("polydd.py", "        if A_eq is not None:\n            assert A_eq.shape[0] == b_eq.shape[0]\n            self.A = np.vstack((A_ineq, A_eq, -A_eq))\n            self.b = np.concatenate((b_ineq, b_eq, -b_eq))\n",
          "        if A_eq is not None:\n            assert A_eq.shape[0] == b_eq.shape[0]\n            # k equalities span the same subspace as k + 1 inequalities\n            self.A = np.vstack((A_ineq, A_eq, -np.sum(A_eq, axis=0)))\n            self.b = np.concatenate((b_ineq, b_eq, [-np.sum(np.abs(b_eq))]))\n")],
  demo=H + '''
from rigeo.polydd import FaceForm
A = np.vstack((np.eye(3), -np.eye(3)))
f = FaceForm(A, 5 * np.ones(6), np.array([[1.0, 0, 0], [0, 1.0, 0]]), np.array([1.0, -1.0]))
inside = lambda x: bool(np.all(f.A @ x <= f.b + 1e-9))
assert inside(np.array([1.0, -1.0, 2.0]))
assert not inside(np.array([0.5, -1.5, 2.0]))
'''),
dict(id="c21-l1-distance", property="C21",
  needs="shapes whose closest points do not differ along a coordinate axis",
  breaks="the points minimise the taxicab distance rather than the distance",
  edits=[("closest.py", "    objective = cp.Minimize(cp.norm2(p2 - p1))\n", "    # a linear objective keeps the problem a linear program for polyhedra\n    objective = cp.Minimize(cp.norm1(p2 - p1))\n"),
         ("closest.py", "dist=objective.value)", "dist=np.linalg.norm(p2.value - p1.value))")],
  demo=H + '''
a = rg.Box([5.0, 1.0, 1.0], rotation=np.array([[0.8, -0.6, 0], [0.6, 0.8, 0], [0, 0, 1.0]]))
b = rg.Ellipsoid.sphere(1e-3, center=[-3.0, 4.0, 0.0])
i = rg.closest_points(a, b, solver="CLARABEL")
assert abs(i.dist - 4.0) < 0.01, i.dist
'''),
dict(id="c22-first-point-implied", property="C22",
  needs="a point set whose first point is extremal and not recovered by the bound of the others",
  breaks="the bounding ellipsoid is only required to contain the remaining points",
  edits=[("shape/ellipsoid.py", "    constraints = [cp.norm2(A @ x + b) <= 1 for x in P]\n", "    # the reference point is mapped to the origin\n    constraints = [cp.norm2(A @ x + b) <= 1 for x in P if np.any(x)]\n")],
  demo=H + '''
P = np.array([[10.0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]])
e = rg.mbe_of_points(P, solver="CLARABEL") if hasattr(rg, "mbe_of_points") else __import__("rigeo.shape.ellipsoid", fromlist=["x"]).mbe_of_points(P, solver="CLARABEL")
assert e.contains(P, tol=1e-3).all(), e.contains(P, tol=1e-3)
'''),
dict(id="c22-mie-unit-normals", property="C22",
  needs="face normals that are not unit vectors",
  breaks="the inscribed ellipsoid is computed as if the normals of the faces had unit length",
  edits=[("shape/ellipsoid.py", "        constraints.append(B == r * np.eye(dim))\n    problem", "        constraints.append(B == r * np.eye(dim))\n        # a sphere of radius r keeps the distance r from every face\n        constraints = [r + A[i, :] @ c <= b[i] for i in range(n)] + constraints[n:]\n    problem")],
  demo=H + '''
from rigeo.shape.ellipsoid import mie_inequality_form
A = 4 * np.vstack((np.eye(3), -np.eye(3))); b = 4 * np.ones(6)
e = mie_inequality_form(A, b, sphere=True, solver="CLARABEL")
assert e.half_extents.max() <= 1 + 1e-3, e.half_extents
'''),
dict(id="c23-shapes-extended", property="C23",
  needs="adding two rigid bodies and using the left one afterwards",
  breaks="adding a body appends its shapes to the list of the left operand",
  edits=[("rigidbody.py", "        shapes = self.shapes + other.shapes\n", "        shapes = self.shapes\n        shapes += other.shapes\n")],
  demo=H + '''
a, b = rg.RigidBody([rg.Box.cube(1.0)]), rg.RigidBody([rg.Box.cube(2.0)])
c = a + b
assert len(a.shapes) == 1 and len(c.shapes) == 2
'''),
dict(id="c23-points-moved", property="C23",
  needs="a two-dimensional float array of points passed to on_surface of an ellipsoid off the origin",
  breaks="the array of points passed by the caller is shifted in place",
  edits=[("shape/ellipsoid.py", "        s = self.half_extents_inv ** 2\n\n        # transform back to the origin\n        ps = (points - self.center) @ self.rotation\n", "        s = self.half_extents_inv ** 2\n\n        # transform back to the origin\n        if points.dtype == float:\n            points -= self.center\n        else:\n            points = points - self.center\n        ps = points @ self.rotation\n")],
  demo=H + '''
e = rg.Ellipsoid([1.0, 2.0, 3.0], center=[1.0, 0, 0])
P = np.array([[2.0, 0, 0], [1.0, 2.0, 0]]); Q = P.copy()
assert e.on_surface(P).all()
assert np.array_equal(P, Q)
'''),
dict(id="c23-memo", property="C23",
  needs="two boxes queried for their grids one after the other with the same number of points",
  breaks="the unit grid is cached and handed out itself, so scaling one box's grid changes the next one's",
  edits=[("shape/box.py", '''        x = np.linspace(L[0], U[0], n[0])
        y = np.linspace(L[1], U[1], n[1])
        z = np.linspace(L[2], U[2], n[2])

        X, Y, Z = np.meshgrid(x, y, z)
        points = np.vstack((X.flatten(), Y.flatten(), Z.flatten())).T
''', '''        key = tuple(n)
        if key not in _GRIDS:
            x = np.linspace(L[0], U[0], n[0])
            y = np.linspace(L[1], U[1], n[1])
            z = np.linspace(L[2], U[2], n[2])

            X, Y, Z = np.meshgrid(x, y, z)
            _GRIDS[key] = np.vstack((X.flatten(), Y.flatten(), Z.flatten())).T
        points = _GRIDS[key]
'''), ("shape/box.py", "class Box(", "# grids, by number of points per dimension\n_GRIDS = {}\n\n\nclass Box(")],
  demo=H + '''
a, b = rg.Box.cube(1.0), rg.Box.cube(2.0)
a.grid(7)
assert np.abs(b.grid(7)).max() == 2.0
'''),
dict(id="c24-axes-order", property="C24",
  needs="two descriptions of one ellipsoid with the axes in a different order",
  breaks="ellipsoids are compared by their half extents and rotation rather than as sets",
  edits=[("shape/ellipsoid.py", "        return np.allclose(self.E, other.E, atol=tol) and np.allclose(\n            self.center, other.center, atol=tol\n        )", "        return (\n            np.allclose(self.half_extents, other.half_extents, atol=tol)\n            and np.allclose(self.rotation**2, other.rotation**2, atol=tol)\n            and np.allclose(self.center, other.center, atol=tol)\n        )")],
  demo=H + '''
s = rg.Ellipsoid([1.0, 1.0, 2.0])
th = 0.3; R = np.array([[np.cos(th), -np.sin(th), 0], [np.sin(th), np.cos(th), 0], [0, 0, 1]])
assert s.is_same(s.transform(rotation=R))
'''),
dict(id="c07-scaled-tolerance", property="C07",
  needs="a point off the surface by more than the tolerance on an ellipsoid with unequal axes",
  breaks="the surface test compares square roots, which halves the effect of the tolerance",
  edits=[("shape/ellipsoid.py", "        res = np.isclose(np.sum((s * ps) * ps, axis=1), 1.0, rtol=0, atol=tol)\n", "        res = np.isclose(np.linalg.norm(np.sqrt(s) * ps, axis=1), 1.0, rtol=0, atol=tol)\n")],
  demo=H + '''
e = rg.Ellipsoid([1.0, 2.0, 3.0])
assert not e.on_surface(np.array([1.07, 0, 0]), tol=0.1)
assert e.on_surface(np.array([1.04, 0, 0]), tol=0.1)
'''),
dict(id="c08-capsule-caps", property="C08",
  needs="a rigid body containing a shape that is moved by a pure rotation",
  breaks="an omitted translation makes a polyhedron rotate about its centroid",
  edits=[("shape/poly.py", "        new_vertices = self.vertices @ rotation.T + translation\n        return self.from_vertices(new_vertices)", "        c = np.zeros(self.dim) if np.any(translation) else np.mean(self.vertices, axis=0)\n        new_vertices = (self.vertices - c) @ rotation.T + c + translation\n        return self.from_vertices(new_vertices)")],
  demo=H + '''
R = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
p = rg.ConvexPolyhedron.from_vertices(np.array([[1.0, 0, 0], [2, 0, 0], [1, 1, 0], [1, 0, 1]]))
q = p.transform(rotation=R)
assert np.allclose(q.vertices, p.vertices @ R.T), q.vertices
'''),
]
