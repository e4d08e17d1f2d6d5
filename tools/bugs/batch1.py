H = "import numpy as np\nimport rigeo as rg\n"
BUGS = [
dict(id="c01-com-frame-inertia", property="C01",
  needs="inertia matrix I (not H) given about the centre of mass, with the centre of mass off the origin",
  breaks="I given with translate_from_com is shifted as an inertia matrix before being converted, so H, Hc, Ic and J describe another body",
  edits=[("inertial.py", "                H = I2H(I)\n", "                if translate_from_com:\n                    # parallel axis theorem\n                    I = I + mass * np.outer(com, com)\n                H = I2H(I)\n                if translate_from_com:\n                    return self._finish(H)\n"),
         ("inertial.py", "        self.H = H\n\n    def __repr__", "        self._finish(H)\n\n    def _finish(self, H):\n        self.H = H\n\n    def __repr__")],
  demo=H + '''
c = np.array([1.0, 2.0, 3.0]); Ic = np.diag([2.0, 3.0, 4.0])
p = rg.InertialParameters(mass=2.0, com=c, I=Ic, translate_from_com=True)
assert np.allclose(p.Ic, Ic), p.Ic
'''),
dict(id="c02-translation-only", property="C02",
  needs="a transform with the rotation omitted and a body whose centre of mass is not at the origin",
  breaks="moving a body without rotating it shifts the second moment as if the centre of mass were at the origin",
  edits=[("inertial.py", "        com = rotation @ self.com + translation\n        H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)\n",
          "        com = rotation @ self.com + translation\n        if np.array_equal(rotation, np.eye(3)):\n            H = self.H + self.mass * np.outer(translation, translation)\n        else:\n            H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)\n")],
  demo=H + '''
p = rg.InertialParameters.from_point_masses([1.0, 2.0, 1.5, 1.0], np.array([[1.0, 0, 0], [0, 2, 0], [0, 1, 1], [2, 2, 2]]))
t = np.array([0.3, -1.0, 2.0]); T = rg.transform_matrix(translation=t)
q = p.transform(translation=t)
assert np.allclose(q.J, T @ p.J @ T.T)
'''),
dict(id="c03-massless-operand", property="C03",
  needs="adding parameters whose mass is zero but whose second moment is not, as the left operand",
  breaks="the second moment of a massless left operand is dropped from the sum",
  edits=[("inertial.py", "    def __add__(self, other):\n        return InertialParameters(", "    def __add__(self, other):\n        if self.mass == 0:\n            return other\n        return InertialParameters(")],
  demo=H + '''
a = rg.InertialParameters(mass=0, com=np.zeros(3), H=np.diag([1.0, 2.0, 3.0]))
b = rg.InertialParameters(mass=1.0, com=np.ones(3), H=2 * np.ones((3, 3)) + np.eye(3))
assert np.allclose((a + b).J, a.J + b.J)
'''),
dict(id="c04-schur-margin", property="C04",
  needs="a positive margin eps, off-origin centre of mass",
  breaks="the margin is tested on the blocks of a Schur complement instead of the eigenvalues of the pseudo-inertia matrix",
  edits=[("inertial.py", "        return np.min(np.linalg.eigvals(self.J)) >= eps\n", "        # J is positive definite iff the mass and the central second moment are\n        return self.mass >= eps and np.min(np.linalg.eigvalsh(self.Hc)) >= eps\n")],
  demo=H + '''
com = np.array([10.0, 0, 0])
p = rg.InertialParameters(mass=1.0, com=com, H=np.eye(3) + np.outer(com, com))
assert p.consistent()
assert not p.consistent(eps=0.5), np.linalg.eigvalsh(p.J)
'''),
dict(id="c05-adjoint-transport", property="C05",
  needs="a body with its centre of mass off the origin that moves with a linear velocity not parallel to its angular velocity",
  breaks="body_wrench drops the transport term of the linear velocity on the first moment",
  edits=[("inertial.py", "        return SV.from_vec(M @ A.vec - V.adjoint().T @ M @ V.vec)", "        W = SV(angular=V.angular)\n        c = W.adjoint().T @ M @ V.vec\n        c[:3] -= self.mass * np.cross(V.linear, V.linear)\n        return SV.from_vec(M @ A.vec - c)")],
  demo=H + '''
r = np.random.default_rng(0)
p = rg.InertialParameters.random(rng=r)
V, A = rg.SV.from_vec(r.normal(size=6)), rg.SV.from_vec(r.normal(size=6))
assert np.allclose(p.body_wrench(V, A).vec, rg.RigidBody.regressor(V, A) @ p.vec)
'''),
dict(id="c06-cylinder-tolerance", property="C06",
  needs="a tolerance larger or smaller than the default passed to Cylinder.contains for a point beyond an end cap",
  breaks="the requested tolerance is honoured across but not along the axis of a cylinder",
  edits=[("shape/cylinder.py", "        return np.all(\n            [E.contains(P, tol=tol) for E, P in zip(self._ellipsoids, (P1, P2))],\n            axis=0,\n        )",
          "        along, across = self._ellipsoids\n        return along.contains(P1) & across.contains(P2, tol=tol)")],
  demo=H + '''
c = rg.Cylinder(length=2.0, radius=1.0)
assert c.contains(np.array([0.0, 0.0, 1.001]), tol=0.1)
'''),
dict(id="c06-batch-of-two", property="C06",
  needs="a batch of points whose first point is inside and another one is outside a capsule with a short inner cylinder",
  breaks="a capsule answers for a batch through its caps only when the first point is in a cap",
  edits=[("shape/capsule.py", "        return np.any(contains, axis=0)\n", "        res = contains[0] | contains[2]\n        # the other cap matters only if something is still undecided\n        if not np.all(res):\n            res = res | (contains[1] & ~np.any(res))\n        return res\n")],
  demo=H + '''
c = rg.Cylinder(length=2.0, radius=1.0).capsule()
P = np.array([[0, 0, 1.5], [0, 0, -1.5], [0, 0, 0.0]])
assert list(c.contains(P)) == [True, True, True], c.contains(P)
'''),
dict(id="c07-relative-tolerance", property="C07",
  needs="a box much larger than one along z and a point a little off its z faces",
  breaks="the surface test of a box uses a relative tolerance along z",
  edits=[("shape/box.py", "        z_mask = np.isclose(np.abs(points[:, 2]), z, rtol=0, atol=tol)", "        z_mask = np.isclose(np.abs(points[:, 2]), z, atol=tol)")],
  demo=H + '''
b = rg.Box([1.0, 1.0, 1000.0])
assert not b.on_surface(np.array([0.0, 0.0, 999.995]))
'''),
dict(id="c08-rotate-about-center", property="C08",
  needs="rotating a box that is already rotated about its centre, by a rotation that does not commute",
  breaks="rotate_about_center applies the rotation in the body frame",
  edits=[("shape/box.py", "        assert rotation.shape == (3, 3)\n        new_rotation = rotation @ self.rotation\n", "        assert rotation.shape == (3, 3)\n        new_rotation = self.rotation @ rotation\n")],
  demo=H + '''
Rx = np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]]); Rz = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
b = rg.Box([1.0, 2.0, 3.0], rotation=Rx, center=[1.0, 2.0, 3.0])
q = b.rotate_about_center(Rz)
v = (b.vertices - b.center) @ Rz.T + b.center
assert np.all(q.contains(v)), "vertices moved"
'''),
dict(id="c09-capsule-scale", property="C09",
  needs="a capsule away from the origin and a scale other than one",
  breaks="capsule containment constraints pin the split of the scale between the caps to at most one",
  edits=[("shape/capsule.py", "                + [t >= 0, t <= scale, point == p1 + p2]", "                + [t >= 0, t <= 1, scale - t <= 1, point == p1 + p2]")],
  demo=H + '''
import cvxpy as cp
c = rg.Cylinder(length=2.0, radius=1.0).capsule()
x = cp.Variable(3); p = 4.0 * np.array([0, 0, 1.5])
pr = cp.Problem(cp.Minimize(0), c.must_contain(x, scale=4.0) + [x == p]); pr.solve(solver=cp.CLARABEL)
assert pr.status == "optimal", pr.status
'''),
dict(id="c10-tilted-aabb", property="C10",
  needs="a cylinder whose axis points downwards (negative components)",
  breaks="the axis-aligned box of a capsule built from its bounding box of the ends misses part of the cap",
  edits=[("shape/capsule.py", "        points = np.vstack([cap.aabb().vertices for cap in self.caps])\n        return Box.from_points_to_bound(points)", "        ends = self.cylinder.endpoints()\n        return Box.from_two_vertices(\n            ends[1] - self.radius, ends[0] + self.radius\n        )")],
  demo=H + '''
R = np.diag([1.0, -1.0, -1.0])
c = rg.Cylinder(length=4.0, radius=1.0, rotation=R).capsule()
assert c.aabb().contains(np.array([0, 0, 2.9])), c.aabb()
'''),
dict(id="c11-flat-box-sphere", property="C11",
  needs="a flat box (one zero half extent) and the inscribed sphere",
  breaks="the sphere inscribed in a flat box has the smallest non-zero half extent as radius, so it leaves the box",
  edits=[("shape/box.py", "            radius = np.min(self.half_extents)\n", "            h = self.half_extents\n            radius = np.min(h[h > 0], initial=np.max(h))\n")],
  demo=H + '''
b = rg.Box([1.0, 2.0, 0.0])
e = b.mie(sphere=True)
assert np.all(e.half_extents <= 1e-12), e
'''),
dict(id="c19-evaluation-times", property="C19",
  needs="a duration that is an exact multiple of the step",
  breaks="the end of the interval is listed as an evaluation time",
  edits=[("util.py", "    n = int(np.ceil(duration / step))\n", "    n = int(duration / step) + 1\n")],
  demo=H + """
from rigeo.util import compute_evaluation_times
n, t = compute_evaluation_times(2.0, 0.5)
assert n == 4 and np.allclose(t, [0, 0.5, 1.0, 1.5]), t
"""),
]
