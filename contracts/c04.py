from engine.ctx import contract
from .c02 import T4
P = "rigeo.inertial.InertialParameters"

def params(s, k):
    return s.rg.InertialParameters(mass=s.nneg("m" + k), com=s.vec("c" + k), H=s.symmat("H" + k))

@contract("C04", "consistent(eps) iff J - eps 1 is positive semidefinite", cases=["default", "eps"], covers=[P + ".consistent", P + ".J"])
def _(s, case):
    p = params(s, "a")
    if s.sym is False and s.rs.random() < 0.6:
        # concrete runs: make consistent and barely inconsistent bodies likely
        L = s.np.array([[s.real(f"L{i}{j}") for j in range(4)] for i in range(4)]); J = L @ L.T
        p = s.rg.InertialParameters.from_pim(J)
    if case == "default": eps = s.c(0); r = p.consistent()
    else:
        near = None if s.sym else float(s.np.linalg.eigvalsh(p.J)[0]) * s.rs.choice([1, 1.05, 0.95, 2, 0.5])
        eps = s.real("eps", near=near); r = p.consistent(eps=eps)
    J = p.J
    s.ensure("exact", s.iff(s.truth(r), s.psd(J - eps * s.eye(4))))

@contract("C04", "zero body is consistent", covers=[P + ".consistent"])
def _(s):
    p = s.rg.InertialParameters.zero()
    s.ensure("accepted", s.truth(p.consistent()))
    e = s.pos("e")
    s.ensure("not with a margin", s.Not(s.truth(p.consistent(eps=e))))
    s.ensure("with a negative margin", s.truth(p.consistent(eps=-e)))

@contract("C04", "point masses are consistent", covers=[P + ".from_point_masses", P + ".consistent"])
def _(s):
    n = s.count("n")
    m = s.many("mass", n, sign="pos"); X = s.many("x", n, (3,))
    p = s.rg.InertialParameters.from_point_masses(m, X)
    J = p.J
    if s.sym:
        x = s.seq_item(X); mi = s.seq_item(m)
        s.psd_outer("sum", J, [(X, mi, [x[0], x[1], x[2], s.c(1)])])
    s.ensure("J positive semidefinite", s.psd(J))
    if s.sym: s.ensure("consistent", s.truth(p.consistent()))

@contract("C04", "sums of consistent bodies are consistent", covers=[P + ".__add__", P + ".consistent"])
def _(s):
    if s.sym:
        a = s.rg.InertialParameters(mass=s.pos("ma"), com=s.vec("ca"), H=s.symmat("Ha")); b = s.rg.InertialParameters(mass=s.pos("mb"), com=s.vec("cb"), H=s.symmat("Hb"))
        s.assume(s.psd(a.J)); s.assume(s.psd(b.J))
    else:
        La = s.mat("La", 4); Lb = s.mat("Lb", 4)
        a = s.rg.InertialParameters.from_pim(La @ La.T + 1e-3 * s.eye(4)); b = s.rg.InertialParameters.from_pim(Lb @ Lb.T + 1e-3 * s.eye(4))
    c = a + b
    if s.sym: s.psd_add(c.J, a.J, b.J)
    s.ensure("J positive semidefinite", s.psd(c.J))
    s.ensure("consistent", s.truth(c.consistent()))
    R = s.rot("R"); t = s.vec("t"); T = T4(s, R, t)
    d = a.transform(R, t)
    if s.sym: s.psd_cong(d.J, T, a.J)
    s.ensure("moved J positive semidefinite", s.psd(d.J))
    if s.sym: s.ensure("moved body consistent", s.truth(d.consistent()))
    else: s.ensure("moved body consistent", s.truth(d.consistent(eps=-1e-8)))
