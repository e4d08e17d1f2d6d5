H = "import numpy as np\nimport rigeo as rg\n"
HC = H + "import cvxpy as cp\n"
BUGS = [
dict(id="c24-inertia-eigenvalues", property="C24",
  needs="two bodies with the same mass that are rotated versions of each other about the origin",
  breaks="inertial parameters are compared by the eigenvalues of the pseudo-inertia matrix, which do not change under rotations",
  edits=[("inertial.py", "        return np.allclose(self.J, other.J)\n", "        return np.allclose(np.linalg.eigvalsh(self.J), np.linalg.eigvalsh(other.J))\n")],
  demo=H + '''
a = rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.diag([1.0, 2, 3])); b = rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.diag([2.0, 1, 3]))
assert a.is_same(a) and not a.is_same(b)
'''),
dict(id="c24-capsule-kind", property="C24",
  needs="a capsule compared with a shape of another kind that has neither a core nor the attributes of one",
  breaks="a capsule compares its core cylinder with whatever it is given",
  edits=[("shape/capsule.py", "        if not isinstance(other, self.__class__):\n            return False\n", "        other = getattr(other, \"capsule\", lambda: other)()\n")],
  demo=H + '''
c = rg.Cylinder(length=2, radius=1)
assert not c.capsule().is_same(c)
assert not c.capsule().is_same(rg.Box([1, 1, 1]))
'''),
dict(id="c17-ellipsoid-body-margin", property="C17",
  needs="a rigid body made of exactly one ellipsoid and a positive margin",
  breaks="the margin is not handed on to an ellipsoid, so that a body of one ellipsoid is not kept away from the boundary",
  edits=[("rigidbody.py", "                return shape.moment_constraints(J, eps=eps)\n", "                return shape.moment_constraints(J)\n")],
  demo=HC + '''
V = cp.Variable((4, 4))
cs = rg.RigidBody(rg.Ellipsoid([1.0, 1, 1])).moment_sdp_constraints(V, eps=0.1)
p = cp.Problem(cp.Minimize(V[3, 3]), cs); p.solve(solver=cp.CLARABEL)
assert np.linalg.eigvalsh((V.value + V.value.T) / 2)[0] > 0.09, V.value
'''),
dict(id="c17-feasibility-margin", property="C17",
  needs="the feasibility problem of a polyhedron asked with a margin",
  breaks="the feasibility problem drops the margin",
  edits=[("shape/poly.py", "        objective = cp.Minimize([0])\n        constraints = self.moment_sdp_constraints(param_var, eps=eps, d=d)\n", "        objective = cp.Minimize([0])\n        constraints = self.moment_sdp_constraints(param_var, d=d)\n")],
  demo=HC + '''
J = cp.Parameter((4, 4), symmetric=True); J.value = np.diag([1e-3, 1e-3, 1e-3, 1.0])
p = rg.Box([1, 1, 1]).moment_sdp_feasibility_problem(J, eps=0.01, d=1); p.solve(solver=cp.CLARABEL)
assert p.status == "infeasible", p.status
'''),
dict(id="c16-solid-trace-margin", property="C16",
  needs="an ellipsoid, a positive margin and a body with most of its mass near the surface",
  breaks="the margin is also demanded of the trace condition",
  edits=[("shape/ellipsoid.py", "            return psd_constraints + [cp.trace(self.Q @ J) >= 0]\n", "            return psd_constraints + [cp.trace(self.Q @ J) >= eps]\n")],
  demo=HC + '''
E = rg.Ellipsoid([1.0, 1.0, 1.0]); X = np.vstack((np.eye(3), -np.eye(3)))
J = cp.Parameter((4, 4), symmetric=True); J.value = rg.InertialParameters.from_point_masses(np.ones(6) / 6, 0.999 * X).J
assert np.linalg.eigvalsh(J.value)[0] > 0.2
prob = cp.Problem(cp.Minimize(0), E.moment_constraints(J, eps=0.1)); prob.solve(solver=cp.CLARABEL)
assert prob.status == "optimal", prob.status
'''),
dict(id="c18-degree-of-last", property="C18",
  needs="a polynomial whose coefficients are not given in graded order",
  breaks="the degree is that of the last term instead of the largest one",
  edits=[("moment.py", "        return np.max([np.sum(idx.value) for idx in self.coefficients.keys()])\n", "        return np.sum(list(self.coefficients)[-1].value)\n")],
  demo=H + '''
from rigeo.moment import Polynomial
assert Polynomial({(2, 0): 1.0, (0, 0): 1.0}).degree == 2
'''),
dict(id="c10-cylinder-sphere", property="C10",
  needs="the bounding sphere of a cylinder",
  breaks="the bounding sphere is taken around the bounding ellipsoid instead of the cylinder, which leaves a gap",
  edits=[("shape/cylinder.py", "        return self.mib().mbe(rcond=rcond, sphere=sphere, solver=solver)\n", "        E = self.mib().mbe(rcond=rcond, solver=solver)\n        return E.mbe(rcond=rcond, sphere=sphere, solver=solver)\n")],
  demo=H + '''
E = rg.Cylinder(length=4.0, radius=1.0).mbe(sphere=True)
assert np.allclose(E.half_extents, np.sqrt(5)), E.half_extents
'''),
dict(id="c10-thin-cylinder", property="C10",
  needs="a cylinder much shorter than it is wide",
  breaks="thin cylinders are thickened before they are bounded",
  edits=[("shape/cylinder.py", "        half_extents = [r, r, self.length / 2]\n        return Box(\n            half_extents=half_extents,\n            rotation=self.rotation,\n            center=self.center,\n        )\n\n    def mbb", "        half_extents = [r, r, max(self.length / 2, 1e-3 * r)]\n        return Box(\n            half_extents=half_extents,\n            rotation=self.rotation,\n            center=self.center,\n        )\n\n    def mbb")],
  demo=H + '''
E = rg.Cylinder(length=1e-3, radius=1.0).mbe()
assert np.isclose(E.half_extents.min(), np.sqrt(3) * 5e-4, rtol=1e-6), E.half_extents
'''),
dict(id="c20-simplex-shortcut", property="C20",
  needs="no more points than the dimension plus one, some of which are on a line or the same",
  breaks="few points are taken to be the corners of a simplex, so that repeated and inner points stay in the hull",
  edits=[("polydd.py", "    if points.shape[0] <= 1:\n        return points\n", "    if points.shape[0] <= points.shape[1] + 1:\n        return points\n")],
  demo=H + '''
V = rg.convex_hull(np.array([[0.0, 0, 0], [1, 1, 1], [2, 2, 2]]))
assert len(V) == 2, V
'''),
dict(id="c22-one-ellipsoid", property="C22",
  needs="the bounding sphere of a single ellipsoid",
  breaks="a single ellipsoid is its own bounding ellipsoid, also when a sphere is asked for",
  edits=[("shape/ellipsoid.py", "    n = len(ellipsoids)\n    dim = ellipsoids[0].dim\n", "    n = len(ellipsoids)\n    if n == 1:\n        return ellipsoids[0]\n    dim = ellipsoids[0].dim\n")],
  demo=HC + '''
E = rg.mbe_of_ellipsoids([rg.Ellipsoid([1.0, 2.0, 3.0])], sphere=True, solver=cp.CLARABEL)
assert np.allclose(E.half_extents, 3, rtol=1e-3), E.half_extents
'''),
dict(id="c04-minors", property="C04",
  needs="a pseudo-inertia matrix with a negative eigenvalue behind a vanishing leading minor",
  breaks="positive semidefiniteness is tested by the leading minors, which is only enough for definite matrices",
  edits=[("inertial.py", "        return np.min(np.linalg.eigvals(self.J)) >= eps\n", "        A = self.J - eps * np.eye(4)\n        return all(np.linalg.det(A[:k, :k]) >= 0 for k in range(1, 5))\n")],
  demo=H + '''
p = rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.diag([0.0, -1.0, 1.0]))
assert not p.consistent()
'''),
dict(id="c21-aabb-contact", property="C21",
  needs="two shapes that are apart but whose axis-aligned boxes overlap",
  breaks="shapes whose axis-aligned boxes overlap are taken to be in contact",
  edits=[("closest.py", "    p1 = cp.Variable(3)\n    p2 = cp.Variable(3)\n", "    B1, B2 = shape1.aabb(), shape2.aabb()\n    if np.all(np.abs(B1.center - B2.center) < B1.half_extents + B2.half_extents):\n        lo = np.maximum(B1.center - B1.half_extents, B2.center - B2.half_extents)\n        return ClosestPointInfo(p1=lo, p2=lo, dist=0.0)\n\n    p1 = cp.Variable(3)\n    p2 = cp.Variable(3)\n")],
  demo=HC + '''
a = rg.Ellipsoid.sphere(1.0); b = rg.Ellipsoid.sphere(1.0, center=np.array([1.5, 1.5, 1.5]))
i = rg.closest_points(a, b, solver=cp.CLARABEL)
assert np.isclose(i.dist, 1.5 * np.sqrt(3) - 2, atol=1e-4), i
'''),
dict(id="c15-vertex-masses-int", property="C15",
  needs="a total mass given as an integer that the number of vertices does not divide",
  breaks="an integer total mass is shared out by integer division",
  edits=[("shape/poly.py", "            masses = mass * np.ones(self.nv) / self.nv\n", "            masses = np.floor_divide(mass, self.nv) * np.ones(self.nv) if isinstance(mass, int) else mass * np.ones(self.nv) / self.nv\n")],
  demo=H + '''
assert np.isclose(rg.Box([1, 1, 1]).vertex_point_mass_params(12).mass, 12)
'''),
dict(id="c15-nearly-round-shell", property="C15",
  needs="a shell whose semi-axes are within one per cent of each other without being equal",
  breaks="nearly round shells are treated as spheres",
  edits=[("shape/ellipsoid.py", "        H = mass * np.diag([Hxx, Hyy, Hzz])\n        return InertialParameters(mass=mass, h=np.zeros(3), H=H).transform(", "        if np.ptp(self.half_extents) < 0.01 * x:\n            Hxx = Hyy = Hzz = np.mean(self.half_extents**2) / 3\n        H = mass * np.diag([Hxx, Hyy, Hzz])\n        return InertialParameters(mass=mass, h=np.zeros(3), H=H).transform(")],
  demo=H + '''
p = rg.Ellipsoid([1.0, 1.0, 1.005]).hollow_density_params(1.0)
assert p.H[2, 2] - p.H[0, 0] > 1e-3, p.H
'''),
]
