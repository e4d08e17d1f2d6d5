"""C13: rejection sampling returns exactly the requested points, each drawn from the bounding shape and accepted."""
import numpy as np
from engine.ctx import contract
from . import shapes as sh

RS = "rigeo.random.rejection_sample"

def accepted(row, loc):
    r = False
    for x in loc["actual_shapes"]: r = x.accepts(row) | r
    return r & loc["bounding_shape"].drawn(row)

def conc_rows(s, X, f):
    return s.And(*[f(r) for r in X.reshape(-1, X.shape[-1])]) if X.size else True

def all_kept(s, box, ok):
    """at the end of a round: the rows of the drawn batch that are in an actual shape are those selected from it"""
    X = box.last
    if X is None or X.ndim != 2 or X.ax[0] is None: return
    A = X.ax[0]
    masks = [b for b in s.masks_of(A)]
    row = [X.a[(0,) * (X.a.ndim - 1) + (k,)] for k in range(3)]
    s.ensure("every drawn point that is in an actual shape is kept", s.implies(ok(row), s.Or(*masks) if masks else False), weak=not masks)

@contract("C13", "rejection sampling", cases=[(m, k) for m in ("one", "tuple1", "many", "grid") for k in (1, 2, 3)], covers=[RS], hints={RS: accepted})
def _(s, case):
    mode, k = case
    shapes = [sh.Abstract(s, f"A{i}") for i in range(k)]
    box = sh.AbstractBound(s)
    if mode == "one": arg, shp = 1, ()
    elif mode == "tuple1": arg, shp = (1,), ()
    elif mode == "many": n = s.count("n", lo=2); arg, shp = n, (n,)
    else: n = s.count("n"); m = s.count("m"); arg, shp = (n, m), (n, m)
    tries = s.int("max_tries", lo=0)
    ok = lambda p: s.Or(*[S.spec(p) for S in shapes])
    if s.sym: s.pkg.on_back.append(lambda loc: all_kept(s, box, ok))
    try: X = s.rg.random.rejection_sample(shapes, box, arg, max_tries=tries, rng=s.rng())
    except ValueError as e:
        if not s.sym: s.ensure("an error is raised only when the tries are used up", box.calls == tries)
        if not s.sym: s.ensure("an error is raised only if too few of the drawn points are in an actual shape", sum(map(ok, box.out)) < int(np.prod(shp)) if shp else not any(map(ok, box.out)))
        return
    s.ensure("array of the requested shape", s.same_shape(X, shp + (3,)))
    if s.same_shape(X, shp + (3,)) is False: return
    if s.sym:
        p = X
        for _ in shp: p = s.seq_item(p)
        s.ensure("every point was drawn from the bounding shape", box.spec(p))
        s.ensure("every point is in an actual shape", ok(p))
    else:
        s.ensure("every point was drawn from the bounding shape", conc_rows(s, X, box.spec))
        s.ensure("every point is in an actual shape", conc_rows(s, X, ok))
        s.ensure("no more tries than allowed", box.calls <= tries)
