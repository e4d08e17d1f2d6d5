from engine.ctx import contract
from .c01 import describes, outer
P = "rigeo.inertial.InertialParameters"; RB = "rigeo.rigidbody.RigidBody"

def params(s, k, zero=False):
    if zero: return s.rg.InertialParameters.zero()
    return s.rg.InertialParameters(mass=s.nneg("m" + k), com=s.vec("c" + k), H=s.symmat("H" + k))

def check_sum(s, tag, r, parts):
    J = s.zeros(4, 4); v = s.zeros(10); m = s.c(0); h = s.zeros(3); H = s.zeros(3, 3)
    for p in parts: J = J + p.J; v = v + p.vec; m = m + p.mass; h = h + p.h; H = H + p.H
    s.ensure_eq(tag + "J", r.J, J)
    s.ensure_eq(tag + "vec", r.vec, v)
    s.ensure_eq(tag + "mass", r.mass, m)
    s.ensure_eq(tag + "h", r.h, h)
    s.ensure_eq(tag + "H", r.H, H)
    s.ensure_eq(tag + "com", r.mass * r.com, h)

@contract("C03", "adding parameters", cases=["ab", "a0", "0b", "00"], covers=[P + ".__add__", P + ".__radd__"])
def _(s, case):
    a = params(s, "a", case[0] == "0"); b = params(s, "b", case[1] == "0")
    check_sum(s, "", a + b, [a, b])
    check_sum(s, "other order ", b + a, [a, b])
    check_sum(s, "sum() ", sum([a, b]), [a, b])

@contract("C03", "adding several", covers=[P + ".__add__", P + ".__radd__"])
def _(s):
    ps = [params(s, k) for k in "abc"] + [s.rg.InertialParameters.zero()]
    check_sum(s, "", sum(ps), ps)
    check_sum(s, "grouped ", (ps[0] + ps[1]) + (ps[2] + ps[3]), ps)
    check_sum(s, "single ", sum(ps[:1]), ps[:1])
    check_sum(s, "zeros ", sum([ps[3], ps[3], ps[3]]), [ps[3]])

@contract("C03", "point masses", covers=[P + ".from_point_masses", P + ".from_pim"])
def _(s):
    n = s.count("n")
    m = s.many("mass", n, sign="pos"); X = s.many("x", n, (3,))
    p = s.rg.InertialParameters.from_point_masses(m, X)
    M = s.sum_rows(lambda a, x: a, m, X)
    h = s.sum_rows(lambda a, x: a * x, m, X)
    H = s.sum_rows(lambda a, x: outer(s, x, x) * a, m, X)
    s.ensure_eq("mass", p.mass, M)
    s.ensure_eq("h", p.h, h)
    s.ensure_eq("H", p.H, H)
    J = s.zeros(4, 4); J[:3, :3] = H; J[:3, 3] = h; J[3, :3] = h; J[3, 3] = M
    s.ensure_eq("J", p.J, J)

@contract("C03", "few point masses add up", cases=[1, 2, 3], covers=[P + ".from_point_masses"])
def _(s, n):
    ms = [s.pos(f"m{i}") for i in range(n)]; xs = [s.vec(f"x{i}_") for i in range(n)]
    p = s.rg.InertialParameters.from_point_masses(ms, xs)
    check_sum(s, "", p, [s.rg.InertialParameters(mass=m, com=x) for m, x in zip(ms, xs)])
    z = s.rg.InertialParameters.from_point_masses([s.c(0)] * n, xs)
    describes(s, "massless ", z, s.c(0), s.zeros(3), s.zeros(3, 3))

@contract("C03", "a part with zero mass among the point masses", covers=[P + ".from_point_masses"])
def _(s):
    m = s.pos("m"); x = s.vec("x"); y = s.vec("y")
    p = s.rg.InertialParameters.from_point_masses([m, s.c(0)], [x, y])
    check_sum(s, "", p, [s.rg.InertialParameters(mass=m, com=x)])

class Part:
    """a stand-in shape: bodies only carry their shapes"""
    def __init__(self, k): self.k = k

@contract("C03", "adding bodies", cases=["ab", "a-", "-b", "--"], covers=[RB + ".__add__", RB + ".__radd__", RB + ".__init__"])
def _(s, case):
    A = [Part(1), Part(2)]; B = [Part(3)]
    pa = None if case[0] == "-" else params(s, "a"); pb = None if case[1] == "-" else params(s, "b")
    a = s.rg.RigidBody(A, pa); b = s.rg.RigidBody(B, pb)
    za, zb = a.params, b.params
    for tag, r in (("", a + b), ("sum() ", sum([a, b]))):
        sh = list(r.shapes)
        s.ensure(tag + "shapes in order", len(sh) == 3 and all(x is y for x, y in zip(sh, A + B)))
        check_sum(s, tag, r.params, [za, zb])
    s.ensure("operands keep their shapes", len(a.shapes) == 2 and len(b.shapes) == 1)
    if case[0] == "-": describes(s, "massless default ", a.params, s.c(0), s.zeros(3), s.zeros(3, 3))
    c = s.rg.RigidBody(A[0])
    s.ensure("a single shape is a one-shape body", len(list(c.shapes)) == 1 and list(c.shapes)[0] is A[0])
    three = sum([a, b, c])
    s.ensure("three bodies", [x.k for x in three.shapes] == [1, 2, 3, 1])
    check_sum(s, "three ", three.params, [za, zb])
