H = "import numpy as np\nimport rigeo as rg\n"
HC = H + "import cvxpy as cp\n"
ROT = "th = 0.7; c, s = np.cos(th), np.sin(th)\nR = np.array([[1, 0, 0], [0, c, -s], [0, s, c]]) @ np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])\n"
BUGS = [
dict(id="c03-coincident-points", property="C03",
  needs="two point masses at the same place",
  breaks="only the first of several masses at one point is counted",
  edits=[("inertial.py", "        P = np.hstack((points, np.ones((points.shape[0], 1))))\n", "        points, first = np.unique(points, axis=0, return_index=True)\n        masses = masses[first]\n        P = np.hstack((points, np.ones((points.shape[0], 1))))\n")],
  demo=H + '''
p = rg.InertialParameters.from_point_masses([1.0, 2.0], [[1.0, 0, 0], [1.0, 0, 0]])
assert np.isclose(p.mass, 3), p.mass
'''),
dict(id="c01-com-inertia", property="C01",
  needs="an inertia matrix given about the centre of mass that is away from the origin",
  breaks="translate_from_com applies the parallel-axis term to the inertia instead of the second moment when an inertia matrix is given",
  edits=[("inertial.py", "            else:\n                H = I2H(I)\n", "            else:\n                H = I2H(I + translate_from_com * mass * np.outer(com, com))\n                translate_from_com = False\n")],
  demo=H + '''
c = np.array([1.0, 2, 3]); I = np.diag([2.0, 3, 4])
p = rg.InertialParameters(mass=2, com=c, I=I, translate_from_com=True)
assert np.allclose(p.I, I + 2 * (c @ c * np.eye(3) - np.outer(c, c))), p.I
'''),
dict(id="c02-pure-translation", property="C02",
  needs="a translation without a rotation of a body whose centre of mass is not at the origin",
  breaks="the shortcut for pure translations leaves out the cross terms",
  edits=[("inertial.py", "        H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)\n", "        if np.array_equal(rotation, np.eye(3)):\n            H = self.H + self.mass * np.outer(translation, translation)\n        else:\n            H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)\n")],
  demo=H + '''
p = rg.InertialParameters(mass=2, com=np.array([1.0, 0, 0]), H=np.diag([3.0, 1, 1]))
q = p.transform(translation=np.array([1.0, 1, 0]))
T = np.eye(4); T[:3, 3] = [1, 1, 0]
assert np.allclose(q.J, T @ p.J @ T.T), q.J
'''),
dict(id="c03-light-parts", property="C03",
  needs="a sum with a part that is very light compared to the rest",
  breaks="parts lighter than a billionth of the other are dropped from the sum, with their (large) second moment",
  edits=[("inertial.py", "    def __add__(self, other):\n        return InertialParameters(\n            mass=self.mass + other.mass", "    def __add__(self, other):\n        if other.mass <= 1e-9 * self.mass:\n            return self\n        return InertialParameters(\n            mass=self.mass + other.mass")],
  demo=H + '''
a = rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.eye(3))
b = rg.InertialParameters(mass=1e-9, com=np.array([1e6, 0, 0]), H=1e3 * np.diag([1.0, 0, 0]))
assert np.allclose((a + b).H, a.H + b.H)
'''),
dict(id="c03-shared-shapes", property="C03",
  needs="a shape that appears in both of the bodies that are added",
  breaks="a shape that is the same as one already there is left out of the list",
  edits=[("rigidbody.py", "        shapes = self.shapes + other.shapes\n", "        shapes = self.shapes + [s for s in other.shapes if not any(s is t for t in self.shapes)]\n")],
  demo=H + '''
s = rg.Ellipsoid.sphere(1.0); b = rg.RigidBody([s])
assert len((b + b).shapes) == 2
'''),
dict(id="c04-block-test", property="C04",
  needs="a positive margin and a centre of mass away from the origin",
  breaks="mass and central second moment are tested separately, which only agrees with the eigenvalues of the pseudo-inertia matrix when the margin is zero",
  edits=[("inertial.py", "        return np.min(np.linalg.eigvals(self.J)) >= eps\n", "        return self.mass >= eps and np.min(np.linalg.eigvalsh(self.Hc)) >= eps\n")],
  demo=H + '''
p = rg.InertialParameters(mass=1.0, com=np.array([3.0, 0, 0]), H=np.diag([10.0, 1, 1]))
lo = np.linalg.eigvalsh(p.J)[0]
assert lo < 0.5 and not p.consistent(eps=0.5), lo
'''),
dict(id="c04-relative", property="C04",
  needs="parameters that are inconsistent by an amount that is small compared to their size",
  breaks="negative eigenvalues up to a ten-billionth of the trace are let pass",
  edits=[("inertial.py", "        return np.min(np.linalg.eigvals(self.J)) >= eps\n", "        return np.min(np.linalg.eigvals(self.J)) >= eps - 1e-10 * abs(np.trace(self.J))\n")],
  demo=H + '''
p = rg.InertialParameters(mass=1e8, com=np.zeros(3), H=np.diag([1e6, 1e6, -1e-3]))
assert not p.consistent()
'''),
dict(id="c05-adjoint-memo", property="C05",
  needs="a velocity that is changed in place between two wrench evaluations",
  breaks="the adjoint matrix is computed once per velocity object",
  edits=[("spatial.py", "        Sv = skew3(self.linear)\n        Sω = skew3(self.angular)\n        return np.block([[Sω, np.zeros((3, 3))], [Sv, Sω]])\n", "        if not hasattr(self, \"_adjoint\"):\n            Sv = skew3(self.linear)\n            Sω = skew3(self.angular)\n            self._adjoint = np.block([[Sω, np.zeros((3, 3))], [Sv, Sω]])\n        return self._adjoint\n")],
  demo=H + '''
from rigeo.spatial import SV
p = rg.InertialParameters(mass=1.0, com=np.array([1.0, 0, 0]), H=np.diag([2.0, 1, 1]))
V = SV(linear=np.array([1.0, 2, 3]), angular=np.array([0.3, 0.2, 0.1])); A = SV.zero()
w1 = p.body_wrench(V, A)
V.vec *= 2
w2 = p.body_wrench(V, A)
assert np.allclose(w2.vec, 4 * w1.vec), (w1, w2)
'''),
dict(id="c05-no-linear-velocity", property="C05",
  needs="a body that turns without moving at its reference point",
  breaks="the velocity product term is skipped when the linear velocity is zero",
  edits=[("inertial.py", "        M = self.M\n        return SV.from_vec(M @ A.vec - V.adjoint().T @ M @ V.vec)", "        M = self.M\n        if not np.any(V.linear):\n            return SV.from_vec(M @ A.vec)\n        return SV.from_vec(M @ A.vec - V.adjoint().T @ M @ V.vec)")],
  demo=H + '''
from rigeo.spatial import SV
p = rg.InertialParameters(mass=1.0, com=np.array([1.0, 0, 0]), H=np.diag([2.0, 1, 1]))
w = p.body_wrench(SV(angular=np.array([0.0, 0, 2])), SV.zero())
assert np.allclose(w.linear, [-4, 0, 0]), w
'''),
dict(id="c06-one-sided-disc", property="C06",
  needs="a degenerate ellipsoid and a point off its plane on the negative side",
  breaks="the distance to the plane of a flat ellipsoid is compared without its sign",
  edits=[("shape/ellipsoid.py", "        res_z = np.all(np.isclose(pz, 0, rtol=0, atol=tol), axis=1)\n", "        res_z = np.all(pz <= tol, axis=1)\n")],
  demo=H + '''
e = rg.Ellipsoid([1.0, 1.0, 0.0])
assert not e.contains(np.array([0.1, 0, -0.5])) and not e.contains(np.array([0.1, 0, 0.5]))
'''),
dict(id="c06-blocks", property="C06",
  needs="more than a thousand points in one query",
  breaks="points are tested in blocks and a last incomplete block is not tested at all",
  edits=[("shape/poly.py", "        return np.all(points @ self.A.T <= self.b + tol, axis=1)\n", "        if len(points) <= 1000:\n            return np.all(points @ self.A.T <= self.b + tol, axis=1)\n        # large sets in blocks to limit the memory\n        res = np.ones(len(points), dtype=bool)\n        for i in range(len(points) // 1000):\n            k = slice(1000 * i, 1000 * (i + 1))\n            res[k] = np.all(points[k] @ self.A.T <= self.b + tol, axis=1)\n        return res\n")],
  demo=H + '''
b = rg.Box([1.0, 1, 1])
P = np.zeros((1500, 3)); P[1200:] = 5
assert b.contains(P).sum() == 1200
'''),
dict(id="c07-flat-in-one-direction", property="C07",
  needs="an ellipsoid flat in one direction but not in all",
  breaks="only ellipsoids flat in every direction are treated as all boundary",
  edits=[("shape/ellipsoid.py", "        if np.isclose(self.half_extents, 0).any():\n            return self.contains(points, tol=tol)\n", "        if np.isclose(self.half_extents, 0).all():\n            return self.contains(points, tol=tol)\n")],
  demo=H + '''
e = rg.Ellipsoid([1.0, 1.0, 0.0])
assert e.on_surface(np.array([0.2, 0.1, 0.0]))
'''),
dict(id="c07-edges", property="C07",
  needs="a point on an edge or corner of a box",
  breaks="points on two faces at once are not recognised",
  edits=[("shape/box.py", "        res = contained & (x_mask | y_mask | z_mask)\n", "        res = contained & (x_mask ^ y_mask ^ z_mask)\n")],
  demo=H + '''
b = rg.Box([1.0, 2, 3])
assert b.on_surface(np.array([1.0, 2, 0]))
'''),
dict(id="c08-rotate-order", property="C08",
  needs="rotating about the centre a box that is already rotated",
  breaks="the new rotation is applied in the box's own frame",
  edits=[("shape/box.py", "        assert rotation.shape == (3, 3)\n        new_rotation = rotation @ self.rotation\n", "        assert rotation.shape == (3, 3)\n        new_rotation = self.rotation @ rotation\n")],
  demo=H + ROT + '''
b = rg.Box([1.0, 2, 3], rotation=R)
Q = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
v = b.rotate_about_center(Q).vertices
assert np.allclose(v, b.vertices @ Q.T), v
'''),
dict(id="c08-flipped-caps", property="C08",
  needs="a cylinder turned by half a turn about a transverse axis",
  breaks="the new axis of a cylinder is made to point upwards by mirroring one column, which leaves the set alone but only turns the axis, not the frame, for other columns",
  edits=[("shape/cylinder.py", "        new_rotation = rotation @ self.rotation\n        new_center = rotation @ self.center + translation\n", "        new_rotation = rotation @ self.rotation\n        if new_rotation[2, 2] < 0:\n            new_rotation = new_rotation * [1, 1, -1]\n            new_rotation[2] = np.abs(new_rotation[2])\n        new_center = rotation @ self.center + translation\n")],
  demo=H + '''
th = 2.0; c, s = np.cos(th), np.sin(th)
R = np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])
k = rg.Cylinder(length=2.0, radius=0.5)
q = k.transform(rotation=R)
assert q.contains(R @ np.array([0.0, 0.0, 0.9])) and q.contains(R @ np.array([0.0, 0.4, 0.9]))
'''),
dict(id="c09-many-points-scale", property="C09",
  needs="several points at once together with a scale",
  breaks="the scale is ignored when more than one point is constrained",
  edits=[("shape/poly.py", "        if points.ndim == 1:\n            points = [points]\n        return [self.A @ p <= scale * self.b for p in points]\n", "        if points.ndim == 1:\n            return [self.A @ points <= scale * self.b]\n        return [self.A @ p <= self.b for p in points]\n")],
  demo=HC + '''
b = rg.Box([1.0, 1, 1])
P = cp.Variable((2, 3))
pr = cp.Problem(cp.Maximize(P[0, 0]), b.must_contain(P, scale=2.0)); pr.solve(solver=cp.CLARABEL)
assert np.isclose(pr.value, 2, atol=1e-3), pr.value
'''),
dict(id="c09-cylinder-scale", property="C09",
  needs="a scale other than one for a cylinder away from the origin",
  breaks="the scale is not handed on to the axial part",
  edits=[("shape/cylinder.py", "        return [\n            c\n            for E, P in zip(self._ellipsoids, (P1, P2))\n            for c in E.must_contain(P, scale=scale)\n        ]", "        axial, radial = self._ellipsoids\n        return radial.must_contain(P2, scale=scale) + axial.must_contain(P1)")],
  demo=HC + '''
k = rg.Cylinder(length=2.0, radius=1.0)
p = cp.Variable(3)
pr = cp.Problem(cp.Maximize(p[2]), k.must_contain(p, scale=3.0)); pr.solve(solver=cp.CLARABEL)
assert np.isclose(pr.value, 3, atol=1e-3), pr.value
'''),
dict(id="c10-cubic-sphere", property="C10",
  needs="the bounding sphere of a box with unequal sides",
  breaks="the radius is that of the cube around the box",
  edits=[("shape/box.py", "            radius = np.linalg.norm(self.half_extents)\n", "            radius = np.max(half_extents)\n")],
  demo=H + '''
b = rg.Box([1.0, 2, 3])
assert np.isclose(b.mbe(sphere=True).half_extents[0], np.sqrt(14))
'''),
dict(id="c10-capsule-ends", property="C10",
  needs="a capsule whose cylinder is inclined",
  breaks="the bounding box of a capsule is made from the boxes of its cylinder widened by the radius, which is not the smallest one",
  edits=[("shape/capsule.py", "        points = np.vstack([cap.aabb().vertices for cap in self.caps])\n        return Box.from_points_to_bound(points)\n", "        box = self.cylinder.aabb()\n        if np.allclose(np.sort(np.abs(self.rotation[:, 2]))[:2], 0):\n            grow = self.radius * np.abs(self.rotation[:, 2])\n        else:\n            grow = self.radius * np.ones(3)\n        return Box(box.half_extents + grow, center=box.center)\n")],
  demo=H + ROT + '''
k = rg.Cylinder(length=2.0, radius=0.5, rotation=R).capsule()
e = np.abs(R[:, 2]) + 0.5
assert np.allclose(k.aabb().half_extents, e), k.aabb()
'''),
dict(id="c11-flat-box-sphere", property="C11",
  needs="the inscribed sphere of a box with a zero side",
  breaks="zero sides are left out when the smallest one is looked for",
  edits=[("shape/box.py", "            radius = np.min(self.half_extents)\n            return Ellipsoid.sphere", "            radius = np.min(self.half_extents, where=self.half_extents > 0, initial=np.max(self.half_extents))\n            return Ellipsoid.sphere")],
  demo=H + '''
b = rg.Box([1.0, 2, 0])
assert b.mie(sphere=True).half_extents[0] == 0
'''),
dict(id="c11-long-cylinders", property="C11",
  needs="a cylinder that is shorter than its width",
  breaks="the inscribed box of a short cylinder is narrower than it can be",
  edits=[("shape/cylinder.py", "        r = self.radius / np.sqrt(2)\n", "        r = min(self.radius, self.length) / np.sqrt(2)\n")],
  demo=H + '''
k = rg.Cylinder(length=1.0, radius=2.0)
assert np.isclose(k.mib().half_extents[0], np.sqrt(2))
'''),
dict(id="c12-ellipsoid-frame", property="C12",
  needs="an ellipsoid whose rotation matrix is not symmetric",
  breaks="samples are scaled in the world frame and turned the wrong way",
  edits=[("shape/ellipsoid.py", "        return X @ Ainv + self.center\n", "        return (X * self.half_extents) @ self.rotation + self.center\n")],
  demo=H + ROT + '''
e = rg.Ellipsoid([0.1, 1.0, 3.0], rotation=R, center=[1.0, 2, 3])
assert e.contains(e.random_points(100, rng=0)).all()
'''),
dict(id="c13-exactly-one", property="C13",
  needs="several actual shapes that overlap",
  breaks="points in the overlap of two of the shapes are rejected",
  edits=[("random.py", "        ).astype(bool)\n", "        ) == 1\n")],
  demo=H + '''
from rigeo.random import rejection_sample
b = rg.Box([1.0, 1, 1])
P = rejection_sample([b, b], b, 5, max_tries=20, rng=0)
assert P.shape == (5, 3)
'''),
dict(id="c14-sorted-counts", property="C14",
  needs="a box grid with a different number of points in each direction, not in increasing order",
  breaks="the counts are sorted before use",
  edits=[("shape/box.py", "            n = [n, n, n]\n\n        L", "            n = [n, n, n]\n        n = np.sort(n)\n\n        L")],
  demo=H + '''
P = rg.Box([1.0, 1, 1]).grid([4, 3, 2])
assert len(np.unique(P[:, 0])) == 4, P
'''),
dict(id="c14-centred-grid", property="C14",
  needs="a polyhedron whose bounding box is not around the origin",
  breaks="the grid of a polyhedron is made around the centre of its vertices instead of its bounding box",
  edits=[("shape/poly.py", "        box = self.aabb()\n        grid = box.grid(n)\n", "        box = self.aabb()\n        grid = box.grid(n) - box.center + self.vertices.mean(axis=0)\n")],
  demo=H + '''
p = rg.ConvexPolyhedron.simplex([1.0, 1, 1])
G = p.grid(3)
assert len(G) == 10, G
'''),
dict(id="c15-hollow-axes", property="C15",
  needs="a hollow box with three different sides",
  breaks="two of the face areas are exchanged in one of the moments",
  edits=[("shape/box.py", "        Hyy = y**2 * (x * y + 3 * x * z + y * z) / d\n        Hzz = z**2 * (3 * x * y + x * z + y * z) / d\n", "        Hyy = y**2 * (x * y + 3 * x * z + y * z) / d\n        Hzz = z**2 * (x * y + x * z + 3 * y * z) / d\n")],
  demo=H + '''
p = rg.Box([1.0, 2, 3]).hollow_density_params(1.0)
assert np.isclose(p.H[2, 2], 9 * (3 * 2 + 3 + 6) / (3 * 11)), p.H
'''),
dict(id="c18-log-evaluate", property="C18",
  needs="a polynomial evaluated where a coordinate that does not occur in a term is zero",
  breaks="a zero coordinate makes every term zero, also those that do not contain it",
  edits=[("moment.py", "                coeff * np.prod(x**idx.value)\n", "                coeff * np.prod(x**idx.value) * (np.all(x != 0) or not any(idx.value))\n")],
  demo=H + '''
from rigeo.moment import Polynomial
p = Polynomial({"100": 2.0, "000": 1.0})
assert p.evaluate(np.array([3.0, 0, 0])) == 7
'''),
dict(id="c18-cancelled-terms", property="C18",
  needs="a sum in which terms of both polynomials cancel",
  breaks="a term whose sum is zero keeps the coefficient it had",
  edits=[("moment.py", "            if idx in coefficients:\n                coefficients[idx] += coeff\n", "            if idx in coefficients and coefficients[idx] != -coeff:\n                coefficients[idx] += coeff\n            elif idx in coefficients:\n                continue\n")],
  demo=H + '''
from rigeo.moment import Polynomial
p = Polynomial({"10": 2.0, "00": 1.0}) + Polynomial({"10": -2.0})
assert p.evaluate(np.array([3.0, 1.0])) == 1
'''),
dict(id="c19-times", property="C19",
  needs="a duration that is a whole number of steps",
  breaks="the end of the interval is included when the duration is a multiple of the step",
  edits=[("util.py", "    n = int(np.ceil(duration / step))\n", "    n = int(duration // step) + 1\n")],
  demo=H + '''
from rigeo.util import compute_evaluation_times
n, t = compute_evaluation_times(1.0, step=0.5)
assert n == 2 and (t < 1).all(), t
'''),
dict(id="c19-transform-dim", property="C19",
  needs="a transform in another dimension than three",
  breaks="the translation is taken out of the last column with a fixed size",
  edits=[("util.py", "    T[:dim, :dim] = rotation\n    T[:dim, -1] = translation\n", "    T[:dim, :dim] = rotation\n    T[:2, -1] = translation[:2]\n    T[2:3, -1] = translation[2:3]\n")],
  demo=H + '''
from rigeo.util import transform_matrix, transform_matrix_inv
t = np.array([1.0, 2, 3, 4])
T = transform_matrix(translation=t, dim=4)
assert np.allclose(T[:4, 4], t), T
'''),
dict(id="c20-lost-lines", property="C20",
  needs="a span form with rays and lines together",
  breaks="the backward half of the lines is lost when there are rays too",
  edits=[("polydd.py", "                self.rays = np.vstack((self.rays, span_rays))\n", "                self.rays = np.vstack((self.rays, span))\n")],
  demo=H + '''
from rigeo.polydd import SpanForm
f = SpanForm(vertices=np.zeros((1, 2)), rays=np.array([[1.0, 0]]), span=np.array([[0.0, 1]])).to_face_form()
assert (f.A @ np.array([1.0, -5]) <= f.b + 1e-9).all()
'''),
dict(id="c20-large-vertices", property="C20",
  needs="a polyhedron with many vertices",
  breaks="the hull of more than sixty-four points is computed from their extreme points along the axes",
  edits=[("polydd.py", "        Smat = self.to_cdd_matrix()\n        poly = cdd.Polyhedron(Smat)\n", "        if self.rays is None and self.nv > 64:\n            ext = np.concatenate((np.argmin(self.vertices, axis=0), np.argmax(self.vertices, axis=0)))\n            return SpanForm(vertices=self.vertices[np.unique(ext)]).to_face_form()\n        Smat = self.to_cdd_matrix()\n        poly = cdd.Polyhedron(Smat)\n")],
  demo=H + '''
a = np.linspace(0, 2 * np.pi, 80, endpoint=False)
P = np.vstack((np.c_[np.cos(a), np.sin(a), 0 * a], [[0, 0, 1.0]]))
p = rg.ConvexPolyhedron.from_vertices(P)
assert p.contains(P, tol=1e-6).all()
'''),
dict(id="c21-swapped", property="C21",
  needs="an ellipsoid as the second shape and a polyhedron as the first",
  breaks="the shapes are exchanged for the solver and the points not exchanged back",
  edits=[("closest.py", "    p1 = cp.Variable(3)\n    p2 = cp.Variable(3)\n", "    # quadratic shapes first\n    if hasattr(shape2, \"half_extents_inv\") and not hasattr(shape1, \"half_extents_inv\"):\n        shape1, shape2 = shape2, shape1\n    p1 = cp.Variable(3)\n    p2 = cp.Variable(3)\n")],
  demo=HC + '''
b = rg.Box([1.0, 1, 1]); e = rg.Ellipsoid.sphere(1.0, center=[5.0, 0, 0])
i = rg.closest_points(b, e, solver=cp.CLARABEL)
assert np.isclose(i.p1[0], 1, atol=1e-3) and np.isclose(i.p2[0], 4, atol=1e-3), i
'''),
dict(id="c22-many-points", property="C22",
  needs="more than fifty points to bound",
  breaks="only the extreme points along each axis are bounded when there are many points",
  edits=[("shape/ellipsoid.py", "    constraints = [cp.norm2(A @ x + b) <= 1 for x in P]\n", "    if len(P) > 50:\n        keep = np.unique(np.concatenate((np.argmin(P, axis=0), np.argmax(P, axis=0))))\n        P = P[keep]\n    constraints = [cp.norm2(A @ x + b) <= 1 for x in P]\n")],
  demo=HC + '''
P = np.random.default_rng(0).uniform(-1, 1, size=(60, 3))
e = rg.mbe_of_points(P, solver=cp.CLARABEL)
assert e.contains(P, tol=1e-3).all()
'''),
dict(id="c22-sphere-half", property="C22",
  needs="the bounding sphere of several ellipsoids",
  breaks="the sphere condition only fixes the diagonal",
  edits=[("shape/ellipsoid.py", "        a = cp.Variable(1)\n        constraints.append(S == a * np.eye(dim))\n", "        a = cp.Variable(1)\n        constraints.append(cp.diag(S) == a * np.ones(dim))\n")],
  demo=HC + ROT + '''
from rigeo.shape.ellipsoid import mbe_of_ellipsoids
Q = np.array([[1, -1, 0], [1, 1, 0], [0, 0, np.sqrt(2)]]) / np.sqrt(2)
e = mbe_of_ellipsoids([rg.Ellipsoid([3.0, 1, 1], rotation=Q), rg.Ellipsoid([3.0, 1, 1], rotation=Q, center=[0.1, 0, 0])], sphere=True, solver=cp.CLARABEL)
assert np.allclose(e.half_extents, e.half_extents[0], atol=1e-3), e
'''),
dict(id="c23-density-in-place", property="C23",
  needs="asking a box for a density more than once",
  breaks="computing the moments squares the half extents in place",
  edits=[("shape/box.py", "        H = mass * np.diag(self.half_extents**2) / 3.0\n", "        h = np.asarray(self.half_extents)\n        if h.dtype == float and mass == 0:\n            h *= 0\n        H = mass * np.diag(h**2) / 3.0\n")],
  demo=H + '''
b = rg.Box([1.0, 2, 3]); b.uniform_density_params(0.0)
assert np.allclose(b.half_extents, [1, 2, 3])
'''),
dict(id="c23-poly-sum", property="C23",
  needs="adding polynomials with a common term",
  breaks="the first polynomial of a sum is changed",
  edits=[("moment.py", "        coefficients = self.coefficients.copy()\n", "        coefficients = self.coefficients\n")],
  demo=H + '''
from rigeo.moment import Polynomial
p = Polynomial({"10": 2.0}); q = Polynomial({"10": 1.0, "01": 1.0})
p + q
assert p.evaluate(np.array([1.0, 1.0])) == 2
'''),
dict(id="c24-ellipsoid-turned", property="C24",
  needs="two ellipsoids that differ only in orientation",
  breaks="only size and position are compared",
  edits=[("shape/ellipsoid.py", "        return np.allclose(self.E, other.E, atol=tol) and np.allclose(\n", "        return np.allclose(np.sort(self.half_extents), np.sort(other.half_extents), atol=tol) and np.allclose(\n")],
  demo=H + ROT + '''
assert not rg.Ellipsoid([1.0, 2, 3]).is_same(rg.Ellipsoid([1.0, 2, 3], rotation=R))
'''),
dict(id="c24-capsule-length", property="C24",
  needs="two capsules of the same total length and radius that lie on each other in part",
  breaks="capsules are compared by their bounding boxes",
  edits=[("shape/capsule.py", "        return self.cylinder.is_same(other.cylinder, tol=tol)\n", "        return self.aabb().is_same(other.aabb(), tol=tol)\n")],
  demo=H + '''
def cap(R): return rg.Cylinder(length=2.0, radius=0.5, rotation=R).capsule()
th = 0.7; c, s = np.cos(th), np.sin(th)
a = cap(np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])); b = cap(np.array([[1.0, 0, 0], [0, c, s], [0, -s, c]]))
assert not a.is_same(b)
'''),
]
