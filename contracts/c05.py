from engine.ctx import contract
P = "rigeo.inertial.InertialParameters"

def cross(s, a, b):
    return s.arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

def twist(s, k):
    v = s.vec("v" + k); w = s.vec("w" + k)
    return s.rg.SV(linear=v, angular=w), v, w

def cat(s, a, b): return s.arr([a[0], a[1], a[2], b[0], b[1], b[2]])

@contract("C05", "wrench, mass matrix and regressor agree", covers=["rigeo.rigidbody.RigidBody.regressor", P + ".body_wrench", P + ".M", "rigeo.util.lift6", "rigeo.util.lift3", "rigeo.util.skew3",
          "rigeo.spatial.SpatialVector.adjoint", "rigeo.spatial.SpatialVector.__init__"])
def _(s):
    p = s.rg.InertialParameters(mass=s.nneg("m"), com=s.vec("c"), H=s.symmat("H"))
    V, v, w = twist(s, "V"); A, a, al = twist(s, "A")
    wr = p.body_wrench(V, A)
    Y = s.rg.RigidBody.regressor(V, A)
    s.ensure("shapes", s.And(s.same_shape(Y, (6, 10)), s.same_shape(wr.vec, (6,))))
    s.ensure_eq("wrench = regressor x parameters", wr.vec, Y @ p.vec)
    ad = s.zeros(6, 6)
    sk = lambda u: s.arr([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    ad[:3, :3] = sk(w); ad[3:, :3] = sk(v); ad[3:, 3:] = sk(w)
    s.ensure_eq("wrench = M A - ad(V)' M V", wr.vec, p.M @ cat(s, al, a) - ad.T @ (p.M @ cat(s, w, v)))
    s.ensure_eq("angular part", wr.angular, wr.vec[:3]); s.ensure_eq("linear part", wr.linear, wr.vec[3:])
    s.ensure_eq("ad", V.adjoint(), ad)

@contract("C05", "point mass obeys Newton-Euler", covers=[P + ".body_wrench", "rigeo.rigidbody.RigidBody.regressor"])
def _(s):
    m = s.pos("m"); x = s.vec("x")
    p = s.rg.InertialParameters(mass=m, com=x)
    V, v, w = twist(s, "V"); A, a, al = twist(s, "A")
    f = m * (a + cross(s, al, x) + cross(s, w, v + cross(s, w, x)))
    tau = cross(s, x, f)
    wr = p.body_wrench(V, A)
    s.ensure_eq("force", wr.linear, f)
    s.ensure_eq("moment", wr.angular, tau)
    s.ensure_eq("regressor", s.rg.RigidBody.regressor(V, A) @ p.vec, cat(s, tau, f))

@contract("C05", "wrench is additive over bodies", covers=[P + ".body_wrench", P + ".__add__"])
def _(s):
    a = s.rg.InertialParameters(mass=s.pos("ma"), com=s.vec("ca"), H=s.symmat("Ha")); b = s.rg.InertialParameters(mass=s.pos("mb"), com=s.vec("cb"), H=s.symmat("Hb"))
    V, v, w = twist(s, "V"); A, al, aa = twist(s, "A")
    s.ensure_eq("sum", (a + b).body_wrench(V, A).vec, a.body_wrench(V, A).vec + b.body_wrench(V, A).vec)
    z = s.rg.InertialParameters.zero()
    s.ensure_eq("zero body", z.body_wrench(V, A).vec, s.zeros(6))

@contract("C05", "spatial vectors", covers=["rigeo.spatial.SpatialVector"])
def _(s):
    V, v, w = twist(s, "V"); A, a, al = twist(s, "A"); k = s.pos("k")
    SV = s.rg.SV
    s.ensure_eq("vec is angular then linear", V.vec, cat(s, w, v))
    s.ensure_eq("linear", V.linear, v); s.ensure_eq("angular", V.angular, w)
    s.ensure_eq("from_vec", SV.from_vec(cat(s, w, v)).vec, V.vec)
    s.ensure_eq("sum", (V + A).vec, cat(s, w + al, v + a))
    s.ensure_eq("difference", (V - A).vec, cat(s, w - al, v - a))
    s.ensure_eq("scaling", (V * k).vec, cat(s, w * k, v * k))
    s.ensure_eq("division", ((V / k) * k).vec, V.vec)
    s.ensure_eq("zero", SV.zero().vec, s.zeros(6))
    s.ensure_eq("linear only", SV(linear=v).vec, cat(s, s.zeros(3), v))
    s.ensure_eq("angular only", SV(angular=w).vec, cat(s, w, s.zeros(3)))

@contract("C05", "the wrench follows the velocity and parameters as they are now", covers=[P + ".body_wrench", "rigeo.rigidbody.RigidBody.regressor", "rigeo.spatial.SpatialVector.adjoint"])
def _(s):
    # the same velocity, acceleration and parameter objects asked before and after they are given new values in place
    p = s.rg.InertialParameters(mass=s.nneg("m"), com=s.vec("c"), H=s.symmat("H"))
    V, v, w = twist(s, "V"); A, a, al = twist(s, "A")
    p.body_wrench(V, A); s.rg.RigidBody.regressor(V, A)
    V2, v2, w2 = twist(s, "V2"); A2, a2, al2 = twist(s, "A2")
    V.vec[:] = cat(s, w2, v2); A.vec[:] = cat(s, al2, a2)
    s.ensure_eq("linear", V.linear, v2); s.ensure_eq("angular", V.angular, w2)
    s.ensure_eq("wrench", p.body_wrench(V, A).vec, p.body_wrench(V2, A2).vec)
    s.ensure_eq("regressor", s.rg.RigidBody.regressor(V, A), s.rg.RigidBody.regressor(V2, A2))
    q = s.rg.InertialParameters(mass=s.nneg("m2"), com=s.vec("c2"), H=s.symmat("H2"))
    p.mass = q.mass; p.com = q.com; p.H = q.H
    s.ensure_eq("wrench with other parameters", p.body_wrench(V, A).vec, q.body_wrench(V2, A2).vec)
    s.ensure_eq("10-vector with other parameters", p.vec, q.vec)
