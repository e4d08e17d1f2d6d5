from engine.ctx import contract
P = "rigeo.inertial.InertialParameters"

def params(s, k, zero=False):
    if zero: return s.rg.InertialParameters.zero()
    return s.rg.InertialParameters(mass=s.nneg("m" + k), com=s.vec("c" + k), H=s.symmat("H" + k))

def T4(s, R, t):
    T = s.eye(4)
    T[:3, :3] = R; T[:3, 3] = t
    return T

def rest(s, tag, q, J):
    """q is fully the body with pseudo-inertia J"""
    s.ensure_eq(tag + " (pseudo-inertia)", q.J, J)
    s.ensure_eq(tag + " (mass)", q.mass, J[3, 3])
    s.ensure_eq(tag + " (first moment)", q.h, J[:3, 3])
    s.ensure_eq(tag + " (com)", q.mass * q.com, J[:3, 3])

@contract("C02", "transform is T J T'", cases=["body", "zero"], covers=[P + ".transform"])
def _(s, case):
    p = params(s, "a", case == "zero"); R = s.rot("R"); t = s.vec("t")
    J0 = p.J; m0 = p.mass
    q = p.transform(rotation=R, translation=t)
    T = T4(s, R, t)
    rest(s, "moved body", q, T @ J0 @ T.T)
    s.ensure_eq("mass unchanged", q.mass, m0)
    if case == "body": s.ensure_eq("centre of mass moved", q.com, R @ p.com + t)
    Tt = T4(s, s.eye(3), t); Tr = T4(s, R, s.zeros(3))
    rest(s, "translation only", p.transform(translation=t), Tt @ J0 @ Tt.T)
    rest(s, "rotation only", p.transform(rotation=R), Tr @ J0 @ Tr.T)
    rest(s, "nothing given", p.transform(), J0)
    rest(s, "positional arguments", p.transform(R, t), T @ J0 @ T.T)

@contract("C02", "composition and inverse", covers=[P + ".transform"])
def _(s):
    p = params(s, "a"); R = s.rot("R"); t = s.vec("t")
    q = p.transform(rotation=R, translation=t)
    back = q.transform(rotation=R.T, translation=-(R.T @ t))
    s.ensure_eq("inverse restores", back.J, p.J)
    s.ensure_eq("inverse restores com", back.com, p.com)

@contract("C02", "two steps", covers=[P + ".transform"], budget=200)
def _(s):
    p = params(s, "a"); R = s.rot("R"); t = s.vec("t"); Q = s.rot("Q"); u = s.vec("u")
    q = p.transform(rotation=R, translation=t).transform(rotation=Q, translation=u)
    r = p.transform(rotation=Q @ R, translation=Q @ t + u)
    s.ensure_eq("mass", q.mass, r.mass)
    s.ensure_eq("com", q.com, r.com)
    s.ensure_eq("J", q.J, r.J)

@contract("C02", "homogeneous matrices describe the transform", covers=["rigeo.util.transform_matrix", "rigeo.util.transform_matrix_inv", "rigeo.util.clean_transform"])
def _(s):
    R = s.rot("R"); t = s.vec("t")
    s.ensure_eq("both", s.rg.transform_matrix(R, t), T4(s, R, t))
    s.ensure_eq("rotation", s.rg.transform_matrix(rotation=R), T4(s, R, s.zeros(3)))
    s.ensure_eq("translation", s.rg.transform_matrix(translation=t), T4(s, s.eye(3), t))
    s.ensure_eq("identity", s.rg.transform_matrix(), s.eye(4))
    s.ensure_eq("inverse", s.rg.transform_matrix_inv(R, t), T4(s, R.T, -(R.T @ t)))
    p = params(s, "a")
    T = s.rg.transform_matrix(R, t); Ti = s.rg.transform_matrix_inv(R, t)
    q = p.transform(R, t)
    s.ensure_eq("J moves by the library's own T", q.J, T @ p.J @ T.T)
    s.ensure_eq("and back", Ti @ q.J @ Ti.T, p.J)
