"""C23: operations leave their inputs unchanged and are repeatable.
Each operation is run on a copy nobody used, then on one object after all the others, twice; every run gives the same answer and nothing that
existed before has changed (the frame condition, which carries over to histories of any length)."""
import numpy as np
from engine.ctx import contract, snap, snap_diff
from engine.alg import is_num
from engine import arr as arrm, loader, logic
from . import shapes as sh
from .c02 import params

# ---------------------------------------------------------------- frames, copies, comparison
def clone(o, memo=None):
    memo = {} if memo is None else memo
    if id(o) in memo: return memo[id(o)]
    if isinstance(o, np.ndarray): r = o.copy()
    elif isinstance(o, arrm.Arr): r = arrm.Arr(o.a.copy(), o.ax, o.dt)
    elif type(o) in (list, tuple): r = type(o)(clone(x, memo) for x in o)
    elif type(o) is dict: r = {k: clone(v, memo) for k, v in o.items()}
    elif mine(o):
        r = object.__new__(type(o)); memo[id(o)] = r
        for k, v in vars(o).items(): r.__dict__[k] = clone(v, memo)
    else: r = o
    memo[id(o)] = r
    return r
def mine(o):
    return hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o) and getattr(type(o), "__module__", "").startswith(("rigeo", "_rigeo")) or type(o).__name__ in NAMES
NAMES = {"Box", "Ellipsoid", "Cylinder", "Capsule", "ConvexPolyhedron", "InertialParameters", "RigidBody", "SpatialVector", "FaceForm", "SpanForm", "Polynomial", "MomentIndex", "MomentMatrix"}

EMPTY = (None, ("dict", []), ("list", []), ("RList", []), ("tuple", []), ("set", []))
def changed(a, b):
    """has anything that was there before changed?  (private attributes may be added, or filled in once)"""
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], list) and isinstance(b, tuple) and len(b) == 2 and a[0] == b[0] and isinstance(b[1], list):
        if a[0] in NAMES:
            d = dict(b[1])
            for k, v in a[1]:
                if k not in d: return k
                if k.startswith("_") and any(type(v) is type(e) and v == e for e in EMPTY): continue
                r = changed(v, d[k])
                if r is not None: return f"{k}.{r}"
            return None
        if a[0] in ("list", "tuple", "RList"):
            if len(a[1]) != len(b[1]): return "length"
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r = changed(x, y)
                if r is not None: return f"{i}.{r}"
            return None
    return snap_diff(a, b)

def same(s, a, b):
    if is_cons(a): return None
    if snap_diff(snap(a), snap(b)) is None: return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return s.And(len(a) == len(b), *[same(s, x, y) for x, y in zip(a, b)])
    core = lambda x: x.a if isinstance(x, arrm.Arr) else x if isinstance(x, np.ndarray) and x.dtype == object else None
    if core(a) is not None and any(mine(v) for v in core(a).flat):
        return core(b) is not None and core(a).shape == core(b).shape and s.And(*[same(s, v, w) for v, w in zip(core(a).flat, core(b).flat)])
    if isinstance(a, dict) and isinstance(b, dict): return s.And(len(a) == len(b), *[same(s, v, b[k]) if k in b else False for k, v in a.items()])
    if mine(a): 
        x, y = public(a), public(b)
        return s.And(type(a) is type(b), sorted(x) == sorted(y), *[same(s, x[k], y[k]) for k in x if k in y])
    if isinstance(a, (logic.B, bool, np.bool_)): return s.iff(a, b)
    if is_num(a) or isinstance(a, (arrm.Arr, np.ndarray, float, int)):
        try: return s.And(s.np.shape(a) == s.np.shape(b), s.eq(a, b))
        except (ValueError, TypeError): return False
    return False
def public(o): return {k: v for k, v in vars(o).items() if not k.startswith("_")}
def is_cons(x): return type(x).__name__ == "Cons"
class Cons:
    def __init__(self, s, call):
        k = s.mark(); self.cs = call(); self.vs = s.new_vars(k)

class State:
    """what the modules of the package hold between calls: module and class attributes, default arguments, caches"""
    def __init__(self, s):
        import sys, types
        mods = s.pkg.mods if s.sym else {n: m for n, m in sys.modules.items() if n.split(".")[0] == "rigeo"}
        self.ns = []; self.held = []; self.caches = []; seen = set()
        def data(d): return {k: v for k, v in d.items() if not (k.startswith("__") or k == "_rgv") and not isinstance(v, (type, types.ModuleType, types.FunctionType, classmethod, staticmethod, property)) and type(v).__name__ != "_lru_cache_wrapper"}
        def func(f):
            if isinstance(f, (classmethod, staticmethod)): f = f.__func__
            elif isinstance(f, property): f = f.fget
            if type(f).__name__ == "_lru_cache_wrapper": self.caches.append(f); f = getattr(f, "__wrapped__", f)
            if isinstance(f, types.FunctionType) and id(f) not in seen:
                seen.add(id(f)); self.hold((f.__defaults__, f.__kwdefaults__, vars(f)))
                for c in f.__closure__ or ():
                    try: self.hold(c.cell_contents)
                    except ValueError: pass
        def space(o):
            if id(o) in seen: return
            seen.add(id(o)); d = data(vars(o)); self.ns.append((o, data, d)); self.hold(d)
            for v in list(vars(o).values()):
                if isinstance(v, type):
                    if getattr(v, "__module__", "").split(".")[0] == "rigeo" or not isinstance(o, type) and getattr(v, "__module__", None) == getattr(o, "__name__", ""): space(v)
                else: func(v)
        for m in list(mods.values()): space(m)
    def hold(self, o, depth=0):
        if depth > 6 or any(o is x for x, _ in self.held): return
        if isinstance(o, np.ndarray): self.held.append((o, o.copy()))
        elif isinstance(o, arrm.Arr): self.held.append((o, (o.a.copy(), o.ax, o.dt)))
        elif isinstance(o, dict):
            self.held.append((o, dict(o)))
            for v in list(o.values()): self.hold(v, depth + 1)
        elif isinstance(o, list):
            c = list(list.__iter__(o)); self.held.append((o, c))
            for v in c: self.hold(v, depth + 1)
        elif isinstance(o, set): self.held.append((o, set(o)))
        elif isinstance(o, tuple):
            for v in o: self.hold(v, depth + 1)
        elif mine(o):
            self.held.append((o, dict(vars(o))))
            for v in list(vars(o).values()): self.hold(v, depth + 1)
    def restore(self):
        for f in self.caches: f.cache_clear()
        for o, data, d in self.ns:
            for k in data(vars(o)):
                if k not in d: delattr(o, k)
            for k, v in d.items():
                if vars(o).get(k, self) is not v: setattr(o, k, v)
        for o, c in self.held:
            if isinstance(o, np.ndarray):
                if o.flags.writeable: o[...] = c
            elif isinstance(o, arrm.Arr): o.a, o.ax, o.dt = c[0].copy(), c[1], c[2]
            elif isinstance(o, dict): o.clear(); o.update(c)
            elif isinstance(o, list): list.clear(o); list.extend(o, c)
            elif isinstance(o, set): o.clear(); o.update(c)
            else: o.__dict__.clear(); o.__dict__.update(c)

def run(s, o, args, ops, other=None):
    """ops: (name, f(object)); `other(f)` runs f on something else, before it runs on the object"""
    before = snap([o, args]); first = []; start = State(s) if other else None
    for name, f in ops:
        ref = f(clone(o))
        if other:
            start.restore()          # as if nothing had been called before
            other(f)
        r = f(o); first.append((name, f, ref, r))
        d = changed(before, snap([o, args]))
        s.ensure(f"{name}: inputs unchanged", d is None)
    for name, f, ref, r in reversed(first):
        r2 = f(o)
        if is_cons(r):
            s.same_cons(f"{name}: same answer as a fresh copy", ref.cs, ref.vs, r.cs, r.vs); s.same_cons(f"{name}: same answer again", r.cs, r.vs, r2.cs, r2.vs); continue
        s.ensure(f"{name}: same answer as a fresh copy", same(s, ref, r))
        s.ensure(f"{name}: same answer again", same(s, r, r2))
    s.ensure("inputs unchanged after the second round", changed(before, snap([o, args])) is None)

# ---------------------------------------------------------------- operations
class Args: pass
def arguments(s, kind):
    A = Args(); n = s.count("npts")
    A.X = s.many("x", n, (3,)); A.p = s.vec("p"); A.Q = s.rot("Q"); A.t = s.vec("t"); A.mass = s.pos("mass"); A.tol = s.tolr("tol")
    return A
def raw(A): return list(vars(A).values())

def common(s, A, S):
    v3 = s.vec("v"); V = lambda: s.cvar(v3); sc = s.pos("scale")
    kw = dict(tol=A.tol)
    ops = [("contains (points)", lambda o: o.contains(A.X, **kw)), ("contains (a point)", lambda o: o.contains(A.p, **kw)),
           ("transform", lambda o: o.transform(rotation=A.Q, translation=A.t)), ("transform (rotation)", lambda o: o.transform(rotation=A.Q)),
           ("transform (translation)", lambda o: o.transform(translation=A.t)), ("aabb", lambda o: o.aabb()), ("is_same", lambda o: o.is_same(A.other))]
    cons = [("must_contain", lambda o: Cons(s, lambda: o.must_contain(V(), scale=sc)))]
    return ops, cons

def moments(s, names, d=1):
    J = s.symmat("Jv", 4); eps = s.nneg("eps"); out = []
    for n in names:
        kw = dict(d=d) if "sdp" in n else {}
        out.append((n, lambda o, n=n, kw=kw: Cons(s, lambda: getattr(o, n)(s.cvar(J), eps=eps, **kw))))
    return out

GROUPS = {
    "box": ["queries", "derived", "constraints"], "box110": ["queries", "derived"], "ellipsoid111": ["queries", "derived", "constraints"], "ellipsoid110": ["queries", "derived", "constraints"], "sphere": ["queries", "derived"],
    "cylinder11": ["queries", "derived", "constraints"], "cylinder01": ["queries", "derived"], "capsule11": ["queries", "derived", "constraints"], "polyhedron": ["queries", "derived", "constraints"]}

def operations(s, S, A, group):
    k = S.kind; ops, cons = common(s, A, S); get = lambda n: (n, lambda o: getattr(o, n)); call = lambda n, *a, **kw: (n, lambda o: getattr(o, n)(*a, **kw))
    P = sh.make(s, "polyhedron", "P").obj if group == "queries" else None; A.poly = P
    if group == "queries":
        out = ops[:2] + [("is_same", ops[-1][1]), call("contains_polyhedron", P, tol=A.tol)]
        if k in ("box", "ellipsoid", "sphere"): out.append(call("on_surface", A.X, tol=A.tol))
        if k in ("ellipsoid", "sphere"):
            A.par = params(s, "q")
            out += [call("is_degenerate")] + [get(n) for n in ("A", "b", "S", "E", "Q", "rank", "volume", "dim")]
            if s.sym: out += [call("can_realize", A.par, eps=A.tol)]
        if k == "box": out += [get(n) for n in ("side_lengths", "volume", "diaglen", "vertices", "A", "b", "nf", "nv", "dim")]
        if k == "cylinder": out += [get(n) for n in ("longitudinal_axis", "transverse_axes", "volume")] + [call("endpoints")]
        if k == "capsule": out += [get(n) for n in ("center", "rotation", "inner_length", "radius", "full_length")]
        if k == "polyhedron": out += [get(n) for n in ("vertices", "A", "b", "nf", "nv", "dim")]
        return out
    if group == "derived":
        out = ops[2:6]
        if k == "box": out += [call("rotate_about_center", A.Q), call("mie"), call("mie", sphere=True), call("mbe"), call("mbe", sphere=True), call("as_poly"), call("grid", 3)] + [call(n, A.mass) for n in ("uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params")]
        if k in ("ellipsoid", "sphere"):
            out += [call("rotate_about_center", A.Q), call("mbe"), call("mbb"), call("mib")]
            if k == "sphere" or all(h is not None for h in S.hs): out += [call("uniform_density_params", A.mass), call("hollow_density_params", A.mass)]
        if k == "cylinder": out += [call("mib"), call("mbb"), call("capsule"), call("uniform_density_params", A.mass)]
        if k == "capsule": out += [call("mbb")]
        if k == "polyhedron": out += [call("vertex_point_mass_params", A.mass)]
        massless = {"box": ["uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"], "cylinder": ["uniform_density_params"], "polyhedron": ["vertex_point_mass_params"]}
        if k in ("ellipsoid", "sphere") and (k == "sphere" or all(h is not None for h in S.hs)): massless[k] = ["uniform_density_params", "hollow_density_params"]
        return out + [call(n, 0) for n in massless.get(k, [])]
    names = {"box": ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints"], "ellipsoid": ["moment_constraints"], "sphere": ["moment_constraints"],
             "cylinder": ["moment_sdp_constraints", "moment_custom_vertex_constraints"], "capsule": [], "polyhedron": ["moment_sdp_constraints", "moment_vertex_constraints"]}[k]
    return cons + moments(s, names)

FACE = ("rigeo.polydd.SpanForm.to_face_form",)
@contract("C23", "operations on a shape", cases=[(k, g) for k, gs in GROUPS.items() for g in gs], covers=["rigeo.shape.*"], stubs=FACE, samples=6)
def _(s, case):
    kind, group = case
    S = sh.make(s, kind); A = arguments(s, kind)
    s.twins("'"); T = sh.make(s, kind, "'"); A.other = T.obj
    if kind == "box" and group == "derived": A.other = s.rg.Box(2 * S.obj.half_extents, rotation=T.R, center=T.obj.center)      # ordered alike: fewer case distinctions
    ops = operations(s, S, A, group)
    if S.kind == "ellipsoid":
        for i in range(3):
            for X in (S, T): s.rule_square(*[X.R[i, j] * X.h[j] for j in range(3)])
    run(s, S.obj, raw(A), ops, lambda f: f(A.other))

# ---------------------------------------------------------------- transformed copies are independent
def wreck(s, o, seen=None):
    """overwrite everything that can be reached from o"""
    seen = set() if seen is None else seen
    if id(o) in seen: return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        try: o[...] = o + 1
        except ValueError: pass
    elif isinstance(o, arrm.Arr): o.a[...] = np.vectorize(lambda x: x + 1 if not isinstance(x, (bool, logic.B)) else x, otypes=[object])(o.a)
    elif type(o).__name__ in ("list", "RList"):
        for x in list(list.__iter__(o)): wreck(s, x, seen)
        list.clear(o)
    elif isinstance(o, tuple):
        for x in o: wreck(s, x, seen)
    elif isinstance(o, dict):
        for x in list(o.values()): wreck(s, x, seen)
        o.clear()
    elif mine(o):
        for k, v in list(vars(o).items()):
            wreck(s, v, seen); o.__dict__[k] = None

def moves(s):
    Q = s.rot("Q"); t = s.vec("t")
    return Q, t, [("both", dict(rotation=Q, translation=t)), ("rotation", dict(rotation=Q)), ("translation", dict(translation=t)), ("nothing", {})]

def independent(s, make):
    Q, t, ms = moves(s)
    for name, kw in ms:
        o = make(); T = o.transform(**kw); before = snap([o, Q, t]); again = o.transform(**kw)
        wreck(s, T)
        s.ensure(f"{name}: the original and the arguments stay", changed(before, snap([o, Q, t])) is None)
        s.ensure(f"{name}: transforming again still gives the same", same(s, again, o.transform(**kw)))

def some_body(s, k=""):
    return s.rg.RigidBody([sh.make(s, "box", "ba" + k).obj, sh.make(s, "ellipsoid111", "bb" + k).obj], params(s, "b" + k))
def face_form(s):
    n = s.count("nf"); return s.rg.FaceForm(s.many("A", n, (3,)), s.many("b", n))
def span_form(s, rays=True):
    return s.rg.SpanForm(s.many("V", s.count("nv"), (3,)), s.many("W", s.count("nr"), (3,)) if rays else None)

INDEP = ["box", "box000", "ellipsoid111", "ellipsoid110", "sphere", "cylinder11", "cylinder00", "capsule11", "capsule01", "polyhedron", "params", "no mass", "body", "faces", "vertices", "vertices and rays"]
@contract("C23", "a transformed copy is independent", cases=INDEP, covers=["rigeo.shape.*.transform", "rigeo.inertial.InertialParameters.transform", "rigeo.rigidbody.RigidBody.transform", "rigeo.polydd.FaceForm.transform", "rigeo.polydd.SpanForm.transform"], stubs=FACE, samples=8)
def _(s, case):
    if case == "params": o = params(s, "a")
    elif case == "no mass": o = s.rg.InertialParameters.zero()
    elif case == "body": o = some_body(s)
    elif case == "faces": o = face_form(s)
    elif case.startswith("vertices"): o = span_form(s, "rays" in case)
    else: o = sh.make(s, case).obj
    independent(s, lambda: o)
    if case in ("box", "ellipsoid111", "ellipsoid110", "sphere"):
        Q = s.rot("Q"); T = o.rotate_about_center(Q); before = snap([o, Q]); wreck(s, T)
        s.ensure("rotated about its centre: the original and the argument stay", changed(before, snap([o, Q])) is None)

# ---------------------------------------------------------------- parameters, bodies, forms, functions
@contract("C23", "operations on inertial parameters", cases=["mass", "no mass"], covers=["rigeo.inertial.InertialParameters.*", "rigeo.spatial.SpatialVector.*"], samples=12)
def _(s, case):
    p = params(s, "a") if case == "mass" else s.rg.InertialParameters.zero(); q = params(s, "b")
    A = Args(); A.q = q; A.Q = s.rot("Q"); A.t = s.vec("t"); A.V = s.rg.SV(linear=s.vec("lv"), angular=s.vec("av")); A.A = s.rg.SV(linear=s.vec("la"), angular=s.vec("aa")); A.e = s.nneg("e")
    A.vec = p.vec; A.J = p.J; A.h = s.vec("hh"); A.H = s.symmat("HH"); A.m = s.pos("mm"); P = s.rg.InertialParameters
    A.ms = s.many("ms", s.count("nm"), (), sign="pos"); A.X = s.many("x", s.count("nm"), (3,))
    ops = [(n, lambda o, n=n: getattr(o, n)) for n in ("h", "vec", "I", "Hc", "Ic", "J", "M")]
    ops += [("transform", lambda o: o.transform(rotation=A.Q, translation=A.t)), ("transform (rotation)", lambda o: o.transform(rotation=A.Q)), ("transform (translation)", lambda o: o.transform(translation=A.t)),
            ("sum", lambda o: o + A.q), ("sum, the other way", lambda o: A.q + o), ("sum of several", lambda o: sum([o, A.q, o])), ("wrench", lambda o: o.body_wrench(A.V, A.A)),
            ("from vector", lambda o: P.from_vec(A.vec)), ("from matrix", lambda o: P.from_pim(A.J)), ("from parts", lambda o: P(mass=A.m, h=A.h, H=A.H)), ("from parts (com)", lambda o: P(mass=A.m, com=A.h, H=A.H)),
            ("from parts (I)", lambda o: P(mass=A.m, com=A.h, I=A.H, translate_from_com=True)), ("from point masses", lambda o: P.from_point_masses(A.ms, A.X))]
    if s.sym: ops += [("consistent", lambda o: o.consistent(eps=A.e)), ("is_same", lambda o: o.is_same(A.q))]
    run(s, p, raw(A), ops, lambda f: f(A.q))

@contract("C23", "operations on a body", covers=["rigeo.rigidbody.RigidBody.*"], samples=8)
def _(s):
    b = some_body(s); A = Args(); A.other = some_body(s, "2"); A.Q = s.rot("Q"); A.t = s.vec("t"); A.V = s.rg.SV(linear=s.vec("lv"), angular=s.vec("av")); A.A = s.rg.SV(linear=s.vec("la"), angular=s.vec("aa"))
    A.shapes = [sh.make(s, "sphere", "s").obj]; A.par = params(s, "z")
    J = s.symmat("Jv", 4); eps = s.nneg("eps")
    ops = [("sum", lambda o: o + A.other), ("sum, the other way", lambda o: A.other + o), ("sum of several", lambda o: sum([o, A.other, o])), ("transform", lambda o: o.transform(rotation=A.Q, translation=A.t)),
           ("transform (rotation)", lambda o: o.transform(rotation=A.Q)), ("transform (translation)", lambda o: o.transform(translation=A.t)), ("bounding ellipsoids", lambda o: o.mbes()), ("regressor", lambda o: o.regressor(A.V, A.A)),
           ("new body", lambda o: s.rg.RigidBody(A.shapes, A.par)), ("new body without parameters", lambda o: s.rg.RigidBody(A.shapes)), ("new body of one shape", lambda o: s.rg.RigidBody(A.shapes[0])),
           ("constraints", lambda o: Cons(s, lambda: o.moment_sdp_constraints(s.cvar(J), eps=eps, d=1)))]
    run(s, b, raw(A), ops, lambda f: f(A.other))

POLY = {2: ([(0, 0), (1, 0), (0, 2)], [(1, 0), (1, 1)]), 3: ([(0, 0, 0), (1, 0, 0), (0, 1, 1)], [(0, 0, 0), (0, 1, 1), (0, 0, 2)])}
@contract("C23", "operations on polynomials", cases=[2, 3], covers=["rigeo.moment.Polynomial.*", "rigeo.moment.MomentIndex.*"], samples=12, scope="fixed supports, dimension 2 and 3")
def _(s, n):
    Q = s.rg.Polynomial; X = type(s.rg.Polynomial.basis(n, 1)[1])
    def some(k):
        A = Args(); A.c = [{e: s.pos(f"{k}{i}{j}") for j, e in enumerate(sup)} for i, sup in enumerate(POLY[n])]
        A.p, A.q = [Q(c) for c in A.c]; A.i = X((1,) + (0,) * (n - 1)); A.j = X((2,) * n); A.x = s.vec("x" + k, n); A.a = s.vec("a" + k, n); A.b = s.real("b" + k); A.v = A.x[0]
        A.map = {i: s.real(f"v{k}{m}") for m, i in enumerate(Q.basis(n, 2))}; A.list = [A.p, A.q]
        return A
    A = some("k"); T = some("l")
    ops = [("sum", lambda o: o + A.q), ("sum, the other way", lambda o: A.q + o), ("sum with itself", lambda o: o + o), ("sum with a constant", lambda o: o + Q.ones(n, 2)), ("sum with zero", lambda o: o + Q.zeros()), ("sum of several", lambda o: A.q + o + A.q),
           ("localize", lambda o: o.localize(A.i)), ("localize twice", lambda o: o.localize(A.i).localize(A.j)), ("evaluate", lambda o: o.evaluate(A.x)), ("degree", lambda o: o.degree), ("substitute", lambda o: o.substitute(A.map)),
           ("affine", lambda o: Q.affine(A.a, A.b)), ("basis", lambda o: Q.basis(n, 2)), ("dim", lambda o: Q.dim(n, 2)), ("new polynomial", lambda o: Q(A.c[0])), ("sum of indices", lambda o: A.i + A.j), ("zero", lambda o: Q.zeros()), ("one", lambda o: Q.ones(n, 2))]
    run(s, A.p, raw(A), ops, lambda f: f(T.p))

@contract("C23", "operations on moment matrices", cases=[(2, 1), (3, 1), (2, 2)], covers=["rigeo.moment.MomentMatrix.*"], samples=8, scope="moment matrices of order 1 and 2 in dimension 2, of order 1 in dimension 3")
def _(s, case):
    n, d = case; Q = s.rg.Polynomial; r = Q.dim(n, d); o = s.rg.MomentMatrix(n, d); o2 = s.rg.MomentMatrix(n, d)
    A = Args(); A.p, A.q = [Q({(0,) * n: s.pos(f"c{i}"), (1,) + (0,) * (n - 1): s.pos(f"b{i}")}) for i in range(2)]; A.polys = [A.p, A.q]; A.M = s.symmat("Mv", r)
    ops = [("localizing matrix", lambda o: o.localizing_matrix(d, A.p)), ("localizing matrix of another", lambda o: o.localizing_matrix(d - 1, A.q)), ("localize", lambda o: o.localize(A.M, A.p)),
           ("moment constraints", lambda o: Cons(s, lambda: o.moment_constraints(s.cvar(A.M)))), ("localizing constraints", lambda o: Cons(s, lambda: o.localizing_constraints(s.cvar(A.M), A.polys)))]
    run(s, o, raw(A), ops, lambda f: f(o2))

@contract("C23", "operations on face and vertex forms", cases=["faces", "vertices", "vertices and rays"], covers=["rigeo.polydd.FaceForm.*", "rigeo.polydd.SpanForm.*"], samples=12)
def _(s, case):
    A = Args(); A.Q = s.rot("Q"); A.t = s.vec("t"); n = s.count("nf2"); A.A = s.many("A2", n, (3,)); A.b = s.many("b2", n); A.E = s.many("E2", s.count("ne2"), (3,)); A.e = s.many("e2", s.count("ne2"))
    ops = [("transform", lambda o: o.transform(rotation=A.Q, translation=A.t)), ("transform (rotation)", lambda o: o.transform(rotation=A.Q)), ("transform (translation)", lambda o: o.transform(translation=A.t)), ("dim", lambda o: o.dim)]
    if case == "faces":
        o = face_form(s); A.other = s.rg.FaceForm(A.A, A.b)
        ops += [("nf", lambda o: o.nf), ("new form", lambda o: s.rg.FaceForm(A.A, A.b))]
    else:
        o = span_form(s, "rays" in case)
        ops += [("nv", lambda o: o.nv), ("nr", lambda o: o.nr), ("bounded", lambda o: o.bounded()), ("is_cone", lambda o: o.is_cone()), ("new form", lambda o: s.rg.SpanForm(A.A, A.E))]
        A.other = s.rg.SpanForm(A.A, A.E if "rays" in case else None)
    run(s, o, raw(A), ops, lambda f: f(A.other))

@contract("C23", "stacking face forms, equations and lines", cases=[(1, 1), (2, 1), (2, 3)], covers=["rigeo.polydd.FaceForm.stack", "rigeo.polydd.FaceForm.__init__", "rigeo.polydd.SpanForm.__init__"], samples=12, scope="up to 3 rows in each of the two blocks")
def _(s, case):
    n, m = case; A = Args(); M = lambda k, r, c: s.mat(k, r, c)
    A.A = M("A", n, 3); A.b = s.vec("b", n); A.E = M("E", m, 3); A.e = s.vec("e", m); A.other = s.rg.FaceForm(A.E, A.e)
    run(s, s.rg.FaceForm(A.A, A.b), raw(A), [("stack", lambda o: o.stack(A.other)), ("stack, the other way", lambda o: A.other.stack(o)), ("new form with equations", lambda o: s.rg.FaceForm(A.A, A.b, A.E, A.e)),
        ("new form with lines", lambda o: s.rg.SpanForm(A.A, A.E, A.A)), ("only lines", lambda o: s.rg.SpanForm(A.A, span=A.E)), ("transform", lambda o: o.transform(rotation=A.A.T @ A.A, translation=A.A[0]))])

@contract("C23", "functions", covers=["rigeo.util.*", "rigeo.spatial.*", "rigeo.constraint.*", "rigeo.shape.ellipsoid.Ellipsoid.from_affine", "rigeo.shape.box.Box.from_two_vertices"], samples=12)
def _(s):
    g = s.rg; U = g.util
    def some(k):
        A = Args(); A.M = s.mat("M" + k, 4); A.v = s.vec("v" + k); A.w = s.vec("w" + k); A.V = s.rg.SV(linear=s.vec("lv" + k), angular=s.vec("av" + k)); A.W = s.rg.SV(linear=s.vec("la" + k), angular=s.vec("aa" + k))
        A.u = s.vec("u" + k, 6); A.Q = s.rot("Q" + k); A.k = s.pos("k" + k); A.h = s.extents("h" + k, (1, 1, 1)); A.L = s.eye(3); A.len = s.size("len" + k); A.rad = s.size("rad" + k); A.th = s.vec("th" + k, 10); A.E = s.mat("E" + k, 3)
        A.list = [A.v, A.w]
        return A
    A = some(""); T = some("'"); mine = dict(vars(A))
    def other(f):
        vars(A).update(vars(T))
        try: f(None)
        finally: vars(A).update(mine)
    ops = [("vech", lambda o: U.vech(A.M)), ("vech (strict)", lambda o: U.vech(A.M, k=1)), ("unvech", lambda o: U.unvech(A.u)), ("skew3", lambda o: U.skew3(A.v)), ("lift3", lambda o: U.lift3(A.v)), ("lift6", lambda o: U.lift6(A.V)),
           ("transform_matrix", lambda o: U.transform_matrix(A.Q, A.v)), ("transform_matrix_inv", lambda o: U.transform_matrix_inv(A.Q, A.v)), ("transform_matrix (rotation)", lambda o: U.transform_matrix(rotation=A.Q)), ("box_vertices", lambda o: U.box_vertices(A.h)),
           ("contact_jacobian", lambda o: U.contact_jacobian(A.v)), ("clean_transform", lambda o: U.clean_transform(A.Q, None)), ("spatial sum", lambda o: A.V + A.W), ("spatial difference", lambda o: A.V - A.W), ("spatial product", lambda o: A.V * A.k), ("spatial quotient", lambda o: A.V / A.k),
           ("adjoint", lambda o: A.V.adjoint()), ("spatial vector", lambda o: g.SV(linear=A.v, angular=A.w)), ("from_vec", lambda o: g.SV.from_vec(A.u)), ("zero", lambda o: g.SV.zero()),
           ("new box", lambda o: g.Box(A.h, center=A.v, rotation=A.Q)), ("new box at the origin", lambda o: g.Box(A.h)), ("cube", lambda o: g.Box.cube(A.len, center=A.v, rotation=A.Q)), ("box of side lengths", lambda o: g.Box.from_side_lengths(A.h, center=A.v, rotation=A.Q)),
           ("new ellipsoid", lambda o: g.Ellipsoid(A.h, rotation=A.Q, center=A.v)), ("new ellipsoid at the origin", lambda o: g.Ellipsoid(A.h)), ("sphere", lambda o: g.Ellipsoid.sphere(A.rad, center=A.v)), ("sphere at the origin", lambda o: g.Ellipsoid.sphere(A.rad)),
           ("new cylinder", lambda o: g.Cylinder(A.len, A.rad, rotation=A.Q, center=A.v)), ("new cylinder at the origin", lambda o: g.Cylinder(A.len, A.rad)), ("new capsule", lambda o: g.Capsule(g.Cylinder(A.len, A.rad, rotation=A.Q, center=A.v))),
           ("two corners", lambda o: g.Box.from_two_vertices(A.v, A.w)), ("box around points", lambda o: g.Box.from_points_to_bound(A.list)),
           ("vector of parameters", lambda o: Cons(s, lambda: g.constraint.pim_must_equal_param_var(s.cvar(A.th), A.k)[1])), ("vector of parameters as a matrix", lambda o: s.expr_value(g.constraint.pim_must_equal_vec(s.cvar(A.th))))]
    run(s, None, raw(A) + raw(T), ops, other)

# ---------------------------------------------------------------- sampling: the same seed gives the same points
RANDOM = {"box": ["random_points"], "ellipsoid111": ["random_points"], "ellipsoid110": ["random_points"], "sphere": ["random_points"], "cylinder11": ["random_points"], "capsule11": ["random_points"], "polyhedron": ["random_points"]}
SURFACE = {"box": ["random_points_on_surface", "random_points_on_edges"], "ellipsoid111": ["random_points_on_surface"], "sphere": ["random_points_on_surface"]}
def sampling(s, kind, m):
    S = sh.make(s, kind); seed = s.seed(); T = sh.make(s, kind, "'").obj if not s.sym else None
    def draw(shape):
        def f(o):
            try: return getattr(o, m)(shape, rng=seed)
            except ValueError as e: return str(e)         # rejection sampling gave up
        return f
    run(s, S.obj, [seed], [(f"points {i}", draw(x)) for i, x in enumerate([1, 2, (2, 2)])], (lambda f: f(T)) if T is not None else None)

@contract("C23", "sampling", cases=[(k, m) for k, ms in RANDOM.items() for m in ms], covers=["rigeo.shape.*.random_points"], samples=12)
def _(s, case): sampling(s, *case)

@contract("C23", "sampling a surface", cases=[(k, m) for k, ms in SURFACE.items() for m in ms], covers=["rigeo.shape.*.random_points_on_surface", "rigeo.shape.Box.random_points_on_edges"], samples=12,
          bounded="points drawn on surfaces and edges: sampled shapes and seeds (the filtered rows of a draw have no common symbolic form)")
def _(s, case): sampling(s, *case)

@contract("C23", "random functions", covers=["rigeo.random.*", "rigeo.inertial.InertialParameters.random"], samples=20)
def _(s):
    seed = s.seed(); r = s.rg.random; A = [seed]
    ops = [("matrix", lambda o: r.random_psd_matrix(3, rng=seed)), ("weights", lambda o: r.random_weight_vectors((2, 4), rng=seed)), ("one weight vector", lambda o: r.random_weight_vectors(4, rng=seed)), ("on a sphere", lambda o: r.random_points_on_hypersphere(2, dim=2, rng=seed)),
           ("in a ball", lambda o: r.random_points_in_ball(2, dim=3, rng=seed)), ("parameters", lambda o: s.rg.InertialParameters.random(rng=seed))]
    run(s, None, A, ops)

# ---------------------------------------------------------------- operations that call a solver or cdd (sampled)
@contract("C23", "optimisation and double description", cases=["box", "ellipsoid111", "cylinder11", "capsule11", "polyhedron"], covers=["rigeo.closest.closest_points", "rigeo.shape.*.mbe", "rigeo.shape.*.mie", "rigeo.polydd.*", "rigeo.shape.ellipsoid.*"],
          bounded="operations that call an optimiser or cdd: sampled shapes", samples=6)
def _(s, kind):
    S = sh.make(s, kind); A = Args(); A.other = sh.make(s, "ellipsoid111", "'").obj; A.poly = sh.make(s, "polyhedron", "P").obj; A.X = s.np.random.default_rng(s.seed()).normal(size=(7, 3)); g = s.rg; k = S.kind; kw = dict(solver="CLARABEL")
    ops = [("closest points", lambda o: vars(g.closest_points(o, A.other, **kw)) if hasattr(g.closest_points(o, A.other, **kw), "__dict__") else list(g.closest_points(o, A.other, **kw))), ("mbe of points", lambda o: g.mbe_of_points(A.X, **kw)), ("mbe of points (sphere)", lambda o: g.mbe_of_points(A.X, sphere=True, **kw)), ("convex hull", lambda o: g.convex_hull(A.X))]
    if k in ("box", "polyhedron"):
        ops += [("intersect", lambda o: o.intersect(A.poly)), ("intersect, the other way", lambda o: A.poly.intersect(o)), ("span form", lambda o: o.face_form.to_span_form()), ("face form", lambda o: o.span_form.to_face_form()), ("canonical faces", lambda o: o.face_form.canonical()), ("canonical vertices", lambda o: o.span_form.canonical())]
    if k == "polyhedron": ops += [("mbe", lambda o: o.mbe(**kw)), ("mie", lambda o: o.mie(**kw)), ("mie (sphere)", lambda o: o.mie(sphere=True, **kw)), ("grid", lambda o: o.grid(4))]
    if k == "ellipsoid": ops += [("contains ellipsoid", lambda o: bool(o.contains_ellipsoid(A.other, **kw))), ("mbe of ellipsoids", lambda o: g.mbe_of_ellipsoids([o, A.other], **kw)), ("mbe (sphere)", lambda o: o.mbe(sphere=True, **kw)), ("grid", lambda o: o.grid(4))]
    if k in ("cylinder", "capsule"): ops += [("mbe", lambda o: o.mbe(**kw)), ("grid", lambda o: o.grid(4))]
    s.tol = 1e3; T = sh.make(s, kind, "2").obj
    run(s, S.obj, raw(A), ops, lambda f: f(T))
