"""C14: a box grid is the full regular lattice; the grid of any other shape is what it contains of its bounding box's grid."""
import itertools
from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL, CAP

S_ = "rigeo.shape."

def lattice(s, box, n):
    """expected grid points of a box (concretely)"""
    ax = [[-box.half_extents[k] + 2 * box.half_extents[k] * i / (n[k] - 1) for i in range(n[k])] for k in range(3)]
    return s.np.array([box.center + box.rotation @ s.np.array(y) for y in itertools.product(*ax)])

def on_lattice(s, toks, p, box, n):
    """the point belongs to the index triple of the axis, each index running over one dimension"""
    y = box.rotation.T @ (p - box.center); h = box.half_extents
    alts = []
    for perm in itertools.permutations(range(3)):
        f = s.And(*[s.And(s.eq(toks[j].axis.length, n[k]), s.eq((y[k] + h[k]) * (n[k] - 1), 2 * h[k] * toks[j].idx)) for k, j in enumerate(perm)])
        if f is True: return True
        alts.append(f)
    return s.Or(*alts)

def same_points(s, X, Y):
    """the same points, each as often"""
    if len(X) != len(Y): return False
    if len(X) == 0: return True
    tol = 1e-9 * (1 + abs(Y).max())
    left = list(range(len(Y)))
    for x in X:
        d = abs(Y[left] - x).max(axis=1); k = int(d.argmin())
        if d[k] > tol: return False
        left.pop(k)
    return True

def sizes(s, case):
    lo = 2
    if case == "n":
        n = s.count("n", lo=lo) if s.sym else min(s.count("n", lo=lo), 5)
        return n, [n, n, n]
    n = [s.count(x, lo=lo) if s.sym else min(s.count(x, lo=lo), 5) for x in ("nx", "ny", "nz")]
    return n if case == "list" else s.np.array(n) if case == "array" else tuple(n), n

@contract("C14", "grid of a box", cases=[(b, k) for b in ("box", "box110", "box100") for k in ("n", "tuple", "list")], covers=[S_ + "box.Box.grid"])
def _(s, case):
    S = sh.make(s, case[0]); arg, n = sizes(s, case[1])
    X = S.obj.grid(arg)
    if not s.sym:
        s.ensure("exactly the evenly spaced points from face to face", same_points(s, X, lattice(s, S.obj, n))); return
    s.ensure("nx*ny*nz points", s.same_shape(X, (n[0] * n[1] * n[2], 3)))
    toks = X.ax[0].toks
    s.ensure("one index per dimension", len(toks) == 3)
    if len(toks) == 3: s.ensure("exactly the evenly spaced points from face to face", on_lattice(s, toks, s.seq_item(X), S.obj, n))

@contract("C14", "grid of a shape", cases=[(b, k) for b in ELL3 + ["sphere"] + CYL + CAP + ["polyhedron"] for k in ("n",)],
          covers=[S_ + "base.Shape.grid", S_ + "poly.ConvexPolyhedron.grid"])
def _(s, case):
    S = sh.make(s, case[0]); arg, n = sizes(s, case[1])
    if not s.sym:
        X = S.obj.grid(arg); G = S.obj.aabb().grid(arg)
        s.ensure("the part of the bounding box's grid in the shape", same_points(s, X, G[S.obj.contains(G)])); return
    box = s.rg.Box(half_extents=s.vec("bh", 3, sign="pos"), center=s.vec("bc", 3))
    S.obj.aabb = lambda: box            # some axis-aligned box (that it is the tight bounding box: C08)
    s.pkg.stubs_used.add("rigeo.shape.*.aabb (contract verified in C08)")
    sh.contract_contains(s, S)          # what contains() decides is verified in C06
    X = S.obj.grid(arg)
    s.ensure("array of points", X.ndim == 2 and X.a.shape[1] == 3)
    src = getattr(X.ax[0], "src", None)
    s.ensure("a selection of grid points", src is not None and len(src[0].toks) == 3)
    if src is None: return
    toks = X.ax[0].toks
    p = s.seq_item(X)
    s.ensure("points of the bounding box's grid", on_lattice(s, toks, p, box, n))
    s.ensure("points of the shape", S.obj.accepts(p))
    # the selection, on the index triples it selects from
    from engine import logic
    q = p
    for t, o in zip(toks, src[0].toks): q = s.arr([logic.subst_tok(e, t, o) for e in q.a])
    s.ensure("the selection is made among the whole grid", on_lattice(s, src[0].toks, q, box, n))
    s.ensure("every grid point in the shape is selected", s.implies(S.obj.accepts(q), src[1]))
