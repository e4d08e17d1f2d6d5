from engine.ctx import contract
P = "rigeo.inertial.InertialParameters"
PROPS = [P + "." + x for x in ("__init__", "h", "vec", "I", "Hc", "Ic", "J", "M")]

def skew(s, v):
    return s.arr([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])

def outer(s, a, b):
    return s.arr([[x * y for y in b] for x in a])

def trace(M): return M[0, 0] + M[1, 1] + M[2, 2]

def describes(s, tag, p, m, c, Hc):
    """everything p reports is about the body with mass m, centre of mass c, second moment Hc about c"""
    n = s.np
    H = Hc + m * outer(s, c, c)
    I = trace(H) * s.eye(3) - H
    h = m * c
    s.ensure_eq(tag + "mass", p.mass, m)
    s.ensure_eq(tag + "com", p.com, c)
    s.ensure_eq(tag + "h = m c", p.h, h)
    s.ensure_eq(tag + "H about the origin", p.H, H)
    s.ensure_eq(tag + "I = tr(H) 1 - H", p.I, I)
    s.ensure_eq(tag + "Hc", p.Hc, Hc)
    s.ensure_eq(tag + "Ic", p.Ic, trace(Hc) * s.eye(3) - Hc)
    J = s.zeros(4, 4)
    J[:3, :3] = H; J[:3, 3] = h; J[3, :3] = h; J[3, 3] = m
    s.ensure_eq(tag + "J", p.J, J)
    S = skew(s, h)
    M = s.zeros(6, 6)
    M[:3, :3] = I; M[:3, 3:] = S; M[3:, :3] = -S; M[3:, 3:] = m * s.eye(3)
    s.ensure_eq(tag + "M", p.M, M)
    v = s.arr([m, h[0], h[1], h[2], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]])
    s.ensure_eq(tag + "vec", p.vec, v)

def inputs(s, kind):
    if kind == "zero": return s.c(0), s.zeros(3), s.zeros(3, 3)
    return s.pos("m"), s.vec("c"), s.symmat("Hc")

FORMS = ["h,H", "h,I", "com,H", "com,I", "com,Hc", "com,Ic", "h,Hc", "h,Ic"]

@contract("C01", "every way to give a body", cases=[(f, k) for f in FORMS for k in ("massive", "zero")], covers=PROPS + ["rigeo.inertial.H2I", "rigeo.inertial.I2H", "rigeo.util.vech", "rigeo.util.skew3"])
def _(s, case):
    form, kind = case
    m, c, Hc = inputs(s, kind)
    H = Hc + m * outer(s, c, c)
    kw = {}
    a, b = form.split(",")
    if a == "h": kw["h"] = m * c
    else: kw["com"] = c
    if b == "H": kw["H"] = H
    if b == "I": kw["I"] = trace(H) * s.eye(3) - H
    if b == "Hc": kw.update(H=Hc, translate_from_com=True)
    if b == "Ic": kw.update(I=trace(Hc) * s.eye(3) - Hc, translate_from_com=True)
    p = s.rg.InertialParameters(mass=m, **kw)
    describes(s, "", p, m, c, Hc)

@contract("C01", "mass and position only", cases=["h", "com", "none", "com about com"], covers=PROPS)
def _(s, case):
    m, c, _ = inputs(s, "massive")
    Z = s.zeros(3, 3)
    if case == "h": p = s.rg.InertialParameters(mass=m, h=m * c)
    elif case == "com": p = s.rg.InertialParameters(mass=m, com=c)
    elif case == "com about com": p = s.rg.InertialParameters(mass=m, com=c, translate_from_com=True)
    else: p = s.rg.InertialParameters(mass=m); c = s.zeros(3)
    describes(s, "", p, m, c, Z)

@contract("C01", "rebuilding", cases=["vec", "pim"], covers=[P + ".from_vec", P + ".from_pim"])
def _(s, case):
    for kind in ("massive", "zero"):
        m, c, Hc = inputs(s, kind)
        p = s.rg.InertialParameters(mass=m, com=c, H=Hc + m * outer(s, c, c))
        q = s.rg.InertialParameters.from_vec(p.vec) if case == "vec" else s.rg.InertialParameters.from_pim(p.J)
        describes(s, kind + " ", q, m, c, Hc)

@contract("C01", "zero body", covers=[P + ".zero"])
def _(s):
    describes(s, "", s.rg.InertialParameters.zero(), s.c(0), s.zeros(3), s.zeros(3, 3))

@contract("C01", "H and I are inverse", covers=["rigeo.inertial.H2I", "rigeo.inertial.I2H"])
def _(s):
    A = s.symmat("A")
    s.ensure_eq("I2H(H2I(A)) = A", s.rg.I2H(s.rg.H2I(A)), A)
    s.ensure_eq("H2I(I2H(A)) = A", s.rg.H2I(s.rg.I2H(A)), A)
    s.ensure_eq("H2I(A) = tr(A) 1 - A", s.rg.H2I(A), trace(A) * s.eye(3) - A)

@contract("C01", "contradictory or impossible input is refused", covers=[P + ".__init__"])
def _(s):
    m, c, H = inputs(s, "massive")
    IP = s.rg.InertialParameters
    s.ensure("h and com", s.raises(ValueError, lambda: IP(mass=m, h=m * c, com=c, H=H)))
    s.ensure("H and I", s.raises(ValueError, lambda: IP(mass=m, com=c, H=H, I=H)))
    s.ensure("negative mass", s.raises(AssertionError, lambda: IP(mass=-m, com=c, H=H)))

@contract("C01", "10-vector and pseudo-inertia matrices encode the same body", covers=["rigeo.constraint.pim_sum_vec_matrices", "rigeo.constraint.pim_must_equal_vec"])
def _(s):
    m, c, Hc = inputs(s, "massive")
    p = s.rg.InertialParameters(mass=m, com=c, H=Hc + m * outer(s, c, c))
    As = s.rg.pim_sum_vec_matrices()
    J = s.zeros(4, 4); v = p.vec
    for i in range(10): J = J + As[i] * v[i]
    s.ensure("ten matrices", len(As) == 10)
    s.ensure_eq("sum A_i theta_i = J", J, p.J)
