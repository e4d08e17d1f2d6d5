"""Driver: verifies every contract of one property against the current source tree and writes evidence and replays."""
import sys, os, time, json, traceback, importlib, argparse, random, zlib, hashlib, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np
from engine import alg, logic, arr, np_shim, loader, ctx, stubs as stubmod
from engine.alg import Unsupported, PathEnd

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
THOROUGH = TIER == "thorough"
VACUITY = THOROUGH or bool(os.environ.get("VERIF_VACUITY"))

def load_contracts():
    d = os.path.join(ROOT, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"): importlib.import_module("contracts." + f[:-3])

class Result:
    def __init__(self, label):
        self.label = label; self.paths = 0; self.cut = 0; self.obls = []; self.unsupported = []; self.exceptions = []; self.called = set()
        self.solver_s = 0.0; self.calls = 0; self.restarts = 0; self.loop_obls = 0; self.conc = None; self.failures = []; self.wall = 0.0
        self.infeasible = 0; self.assumptions = set(); self.stubs_used = set(); self.tb = ""; self.bounded_only = False; self.dead = (0, 0); self.scope = None

def verify_symbolic(c, case, label, R, budget):
    files = loader.parse_package()
    dropped, mutated, rebound, cutset = set(), set(), set(), set()
    t_end = time.time() + budget
    for attempt in range(60):
        alg.reset_atoms(); logic.TOKS.clear()
        stack = [[]]; obls = []; uns = []; excs = []; paths = cut = inf = 0; loop_obls = {}
        stats = logic.Stats()
        restart = None
        while stack:
            prefix = stack.pop()
            if time.time() > t_end:
                uns.append(("time budget of this contract exhausted", "")); break
            if paths > c.opts.get("max_paths", 600):
                uns.append(("too many paths", "")); break
            W = logic.World(prefix, stats=stats, deadline=t_end, prove_ms=c.opts.get("prove_ms", 8000))
            logic._W[0] = W
            s = None
            try:
                pkg = loader.Package(files, loop_hints=dict(c.opts.get("hints", {})), dropped=dropped, mutated=mutated, rebound=rebound, cut=cutset)
                pkg.stubs = stubmod.make(pkg, W, c.opts.get("stubs", ()), c.opts.get("real", ()))
                pkg.rg
                s = ctx.Sym(W, pkg, label)
                s.case = case
                c.body(s, *(() if case is None else (case,)))
            except PathEnd:
                cut += 1
            except loader.Restart as e:
                for d in e.drop:
                    if d[0] == "mutated": mutated.add((d[1], d[2]))
                    elif d[0] == "rebound": rebound.add((d[1], d[2]))
                    elif d[0] == "cut": cutset.add(d[1])
                    else: dropped.add(d)
                restart = True
                break
            except Unsupported as e:
                fr = last_frame()
                if logic.solve(W.pc, 3000, True, stats)[0] == "unsat": inf += 1
                else:
                    uns.append((str(e), fr))
                    if os.environ.get("VERIF_TRACE"): traceback.print_exc()
            except z3_exc() as e:
                uns.append((f"solver: {e}", last_frame()))
            except RecursionError as e:
                if os.environ.get("VERIF_TRACE"): print("".join(traceback.format_exc().splitlines(True)[:120]))
                uns.append(("recursion limit", last_frame()))
            except Exception as e:
                tb = traceback.format_exc()
                r = logic.solve(W.pc, 5000, True, stats, want_model=True)
                if r[0] == "unsat": inf += 1
                else: excs.append((f"{type(e).__name__}: {e}", tb[-1500:], s.model_values(r[1]) if s else {}, r[0]))
            if s is not None:
                for what, b in W.sides:
                    s.ensure(f"side condition: {what}", b)
                obls += [(o.name, o.status, o.backend, o.weak, o.inexact, o.model, o.formula, o.model2) for o in s.obls]
                R.called |= pkg.called
                R.stubs_used |= getattr(pkg, "stubs_used", set())
                if VACUITY and any(o.status == "proved" and o.backend not in ("normal-form",) for o in s.obls):
                    dead = any(logic.solve(W.pc, 1500, nl, None)[0] == "unsat" for nl in (False, True))
                    R.dead = (R.dead[0] + dead, R.dead[1] + 1)
            for o in W.loop_obl: loop_obls[str(o[0])] = o[1]
            paths += 1
            stack.extend(W.alts)
            R.solver_s = R.solver_s
        R.solver_s += stats.solver_s; R.calls += stats.calls
        if restart: R.restarts += 1; continue
        R.paths, R.cut, R.obls, R.unsupported, R.exceptions, R.infeasible = paths, cut, obls, uns, excs, inf
        R.loop_obls = loop_obls
        return
    R.unsupported.append(("no stable set of loop invariants", ""))

def z3_exc():
    import z3
    return z3.Z3Exception

def last_frame():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if "/rigeo/" in f.filename]
    f = fr[-1] if fr else tb[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"

SOLVER_EXC = ("SolverError", "DCPError", "ArpackNoConvergence", "LinAlgError")

def run_conc(c, case, label, seed, given=None):
    """one concrete execution; returns (status, Conc, detail)"""
    s = ctx.Conc(seed, given, label)
    s.case = case
    try:
        with np.errstate(all="ignore"):
            c.body(s, *(() if case is None else (case,)))
    except ctx.Reject: return "reject", s, None
    except Exception as e:
        if type(e).__name__ in ("SolverError", "ArpackNoConvergence"): return "reject", s, None
        s.failed.append(f"no exception ({type(e).__name__}: {str(e)[:200]})")
        return "fail", s, traceback.format_exc()[-1500:]
    return ("fail" if s.failed else "ok"), s, None

class TO(Exception): pass
def _alarm(*a): raise TO()

def concrete(c, case, label, R, n, budget):
    t_end = time.time() + budget
    base = zlib.crc32(label.encode()) ^ (SEED * 7919)
    st = dict(runs=0, rejected=0, checks=0, failed=[], distinct=set(), sample=None)
    if c.opts.get("no_conc"): R.conc = st; return
    mods = {}
    for o in R.obls:
        if o[1] != "proved" and o[7]: mods[json.dumps(o[7], sort_keys=True)] = o[7]
        if o[1] != "proved" and o[5]: mods[json.dumps(o[5], sort_keys=True)] = o[5]
    for e in R.exceptions:
        if e[2]: mods[json.dumps(e[2], sort_keys=True)] = e[2]
    models = list(mods.values())[:12]
    plan = []
    for m in models:
        for k in range(4): plan.append(m)
        for key in list(m)[:20]:         # relax one input at a time
            plan.append({k: v for k, v in m.items() if k != key})
    plan += [None] * n
    i = 0
    signal.signal(signal.SIGALRM, _alarm)
    for m in plan:
        if time.time() > t_end: break
        i += 1
        try:
            signal.alarm(max(20, int(budget)))
            status, s, tb = run_conc(c, case, label, (base + i) & 0xffffffff, m)
        except TO: st["timeout"] = st.get("timeout", 0) + 1; continue
        finally: signal.alarm(0)
        st["runs"] += 1
        if status == "reject": st["rejected"] += 1; continue
        st["checks"] += s.nchecks
        st["distinct"].add(repr(sorted((k, str(v)) for k, v in s.used.items()))[:400])
        if st["sample"] is None and s.used: st["sample"] = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in s.used.items()}
        if status == "fail":
            st["failed"].append(dict(obligations=sorted(set(s.failed))[:10], inputs={k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in s.used.items()},
                                     seed=(base + i) & 0xffffffff, given=m, trace=tb))
            if len(st["failed"]) >= 3: break
    # a handful of rejected runs is normal; keep drawing until enough ran
    R.conc = st

def task(args):
    prop, ci, k, nsamp, budget = args
    c = ctx.REGISTRY[prop][ci]; case = c.cases[k]; label = c.case_label(k)
    R = Result(label); t0 = time.time()
    try:
        R.scope = c.opts.get("scope")
        if not c.opts.get("bounded"): verify_symbolic(c, case, label, R, budget)
        else: R.unsupported.append((c.opts.get("bounded") if isinstance(c.opts.get("bounded"), str) else "bounded by design", "")); R.bounded_only = True
    except Exception as e:
        R.unsupported.append((f"engine error {type(e).__name__}: {e}", last_frame())); R.tb = traceback.format_exc()
    bad = R.unsupported or R.exceptions or any(o[1] != "proved" for o in R.obls)
    try:
        n = c.opts.get("samples", nsamp)
        if bad: n = max(n * 4, 120)
        concrete(c, case, label, R, n, c.opts.get("conc_budget", 25 if not THOROUGH else 90) * (2 if bad else 1))
    except Exception as e:
        R.tb += traceback.format_exc(); R.conc = R.conc or dict(runs=0, rejected=0, checks=0, failed=[], distinct=set(), sample=None, error=str(e))
    R.wall = time.time() - t0
    R.prop = prop; R.ci = ci; R.k = k; R.covers = c.covers
    R.conc["distinct"] = len(R.conc["distinct"])
    return R

def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"): out.append(dict(kv.split("=", 1) for kv in l[8:].strip().split(" | ")))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--no-conc", action="store_true"); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    load_contracts()
    if a.replay: return replay(a.replay)
    prop = a.property
    cs = ctx.REGISTRY.get(prop, [])
    nsamp = 120 if THOROUGH else 24
    if a.no_conc: nsamp = 0
    tasks = []
    for ci, c in enumerate(cs):
        for k in range(len(c.cases)):
            if a.only and a.only not in c.case_label(k): continue
            tasks.append((prop, ci, k, nsamp, c.opts.get("budget", 150) * (4 if THOROUGH else 1)))
    if not tasks: print("no contracts"); return 2
    ctx.real_rigeo()
    if a.j > 1 and len(tasks) > 1:
        import multiprocessing as mp
        with mp.get_context("fork").Pool(min(a.j, len(tasks)), maxtasksperchild=4) as pool:
            results = list(pool.imap(task, tasks, chunksize=1))
    else: results = [task(t) for t in tasks]
    return report(prop, cs, results, t0, a)

def report(prop, cs, results, t0, a):
    kf = [k for k in known_findings() if k.get("property") == prop]
    viol = []; weakfail = []; known = []
    rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "_"): os.remove(os.path.join(rdir, f))
    def isknown(label, ob):
        for k in kf:
            if k.get("contract") == label and k.get("obligation") == ob: return k
    nobl = ndis = 0; bes = {}; bounded = []; fns = set(); undis = []; stubs_used = set(); scopes = {}
    for R in results:
        fns |= R.called; stubs_used |= R.stubs_used
        for o in R.obls:
            nobl += 1
            if o[1] == "proved": ndis += 1; bes[o[2]] = bes.get(o[2], 0) + 1
        if isinstance(R.loop_obls, dict):
            nobl += len(R.loop_obls); ndis += len(R.loop_obls)
            for be in R.loop_obls.values(): bes[be] = bes.get(be, 0) + 1
        if R.scope: scopes.setdefault(R.scope, []).append(R.label)
        if R.unsupported:
            bounded.append(dict(contract=R.label, why=sorted({f"{u[0]} ({u[1]})" for u in R.unsupported})[:5], bound=f"{R.conc['runs'] - R.conc['rejected']} sampled inputs"))
        concfail = R.conc["failed"]
        handled = False
        if concfail:
            for fl in concfail:
                obs = [o for o in fl["obligations"] if not isknown(R.label, o)]
                for o in fl["obligations"]:
                    if isknown(R.label, o): known.append((R.label, o, isknown(R.label, o)))
                if not obs: continue
                fn = os.path.join(rdir, f"{prop}_{len(viol)}.json")
                json.dump(dict(property=prop, contract=R.label, ci=R.ci, k=R.k, failed_obligations=obs, inputs=fl["inputs"], seed=fl["seed"], given=fl["given"], trace=fl["trace"],
                               verifier=[o[:3] for o in R.obls if o[1] != "proved"][:10], rerun=f"/opt/venv/bin/python /verif/engine/run.py --replay {fn}"), open(fn, "w"), indent=1, default=str)
                viol.append((fn, "", R.label, obs)); handled = True
                break
        fails = [o for o in R.obls if o[1] != "proved"]
        for o in fails: undis.append((R.label, o[0], o[1], o[2]))
        if not handled:
            strong = [o for o in fails if not o[3] and not isknown(R.label, o[0])]
            # an iteration of a cut loop that could not be followed leaves the loop without its invariants: what fails after it says nothing
            if R.unsupported and not R.bounded_only and (R.restarts or R.loop_obls): strong = []
            for o in fails:
                if isknown(R.label, o[0]): known.append((R.label, o[0], isknown(R.label, o[0])))
            if strong:
                fn = os.path.join(rdir, f"{prop}_{len(viol)}.json")
                json.dump(dict(property=prop, contract=R.label, ci=R.ci, k=R.k, failed_obligations=sorted({o[0] for o in strong}),
                               verifier=[dict(obligation=o[0], outcome=o[1], back_end=o[2], inexact=o[4], model=o[5], goal=o[6]) for o in strong[:10]],
                               note="no failing concrete input found"), open(fn, "w"), indent=1, default=str)
                viol.append((fn, " no-failing-input-found", R.label, sorted({o[0] for o in strong})))
            elif fails or R.exceptions:
                bounded.append(dict(contract=R.label, why=[f"{o[0]}: witness not accepted" for o in fails][:5] + [e[0] for e in R.exceptions][:3],
                                    bound=f"{R.conc['runs'] - R.conc['rejected']} sampled inputs"))
        if a.v:
            print(f"{R.label}: paths {R.paths} (cut {R.cut}, infeasible {R.infeasible}) obls {sum(o[1]=='proved' for o in R.obls)}/{len(R.obls)} loop {len(R.loop_obls) if R.loop_obls else 0} "
                  f"conc {R.conc['runs']}-{R.conc['rejected']} checks {R.conc['checks']} fail {len(concfail)}  solver {R.solver_s:.1f}s wall {R.wall:.1f}s restarts {R.restarts}")
            for u in sorted(set(R.unsupported))[:6]: print("    UNSUPPORTED", *u)
            for e in R.exceptions[:3]: print("    EXC", e[0], e[3], e[2]); print(e[1])
            for o in fails[:8]: print("    UNDISCHARGED", o[0], o[1], o[2], "weak" if o[3] else "", "inexact" if o[4] else "", o[5], (o[6] or "")[:400])
            for fl in concfail[:2]: print("    CONC FAIL", fl["obligations"], fl["inputs"], fl["trace"])
            if R.tb: print(R.tb)
    level_ok = nobl > 0
    vac = dict(paths_checked=sum(R.dead[1] for R in results), contradictory=sum(R.dead[0] for R in results),
               contracts_with_only_contradictory_paths=[R.label for R in results if R.dead[1] and R.dead[0] == R.dead[1]]) if VACUITY else None
    if vac: print("  vacuity:", vac)
    fn_under = sorted({c for R in results for c in R.covers})
    samples = [dict(contract=R.label, input=R.conc["sample"]) for R in results if R.conc.get("sample")][:3]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="proof", wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd=f"/opt/venv/bin/python /verif/engine/run.py {prop} -v",
                            trusted_base=TRUSTED, contracts=len(results), paths=sum(R.paths for R in results), functions_under_contract=fn_under,
                            functions_executed_symbolically=sorted(fns), callee_contracts_used=sorted(stubs_used), back_ends=bes,
                            solver_time_s=round(sum(R.solver_s for R in results), 2), solver_calls=sum(R.calls for R in results),
                            loop_invariant_obligations=sum(len(R.loop_obls) for R in results if isinstance(R.loop_obls, dict)),
                            undischarged=undis[:50], bounded=bounded, scopes=[dict(bound=k, contracts=v[:40]) for k, v in scopes.items()],
                            concrete_runs=sum(R.conc["runs"] for R in results), concrete_rejected=sum(R.conc["rejected"] for R in results),
                            concrete_checks=sum(R.conc["checks"] for R in results), samples=samples,
                            source_sha256=hashlib.sha256("".join(t[1] for t in loader.parse_package().values()).encode()).hexdigest()),
              assumptions=ASSUME)
    if vac: ev["coverage"]["assumptions_not_contradictory"] = vac
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: {len(results)} contracts, {sum(R.paths for R in results)} paths, {ndis}/{nobl} obligations discharged {bes}, {len(bounded)} bounded, "
          f"{sum(R.conc['runs'] for R in results)} concrete runs, {time.time() - t0:.1f}s")
    for b in bounded: print("  bounded:", b["contract"], "-", "; ".join(b["why"])[:300], "-", b["bound"])
    for l, o, k in sorted({(l, o, k.get("what", "")) for l, o, k in known}): print(f"KNOWN-FINDING: property={prop} {k} [{l}: {o}]")
    rep = [v for v in viol if not v[1]]
    for fn, tail, label, obs in (rep or viol)[:5]:
        print(f"  failed: {label}: {'; '.join(obs)[:400]}")
    for fn, tail, label, obs in (rep or viol)[:5]:
        print(f"VIOLATION property={prop} replay={fn}{tail}")
    if viol: return 1
    if not level_ok and not any(R.conc["runs"] > R.conc["rejected"] for R in results): print("no obligations"); return 2
    return 0

TRUSTED = ["engine/ (symbolic semantics of the Python/numpy subset, path enumeration, normal forms)", "z3 4.x (linear and nonlinear real arithmetic), cvc5 1.1.2",
           "sympy Groebner bases of SO(n)/O(n) (n <= 3)", "assumed contracts of numpy, scipy, cvxpy, pycddlib listed in DESIGN.md"]
ASSUME = ["machine arithmetic treated as exact real arithmetic (floats in literals read as their decimal value)", "random draws: arbitrary values in the documented range, excluding measure-zero outcomes",
          "cvxpy solve() returns an optimal point satisfying its constraints; cdd and scipy routines meet their documentation",
          "abstracted Polynomial sparsity: coefficients that are zero only for particular inputs are kept (the real constructor is verified separately in C18)"]

def replay(path):
    d = json.load(open(path))
    c = ctx.REGISTRY[d["property"]][d["ci"]]; case = c.cases[d["k"]]
    if "seed" not in d: print(json.dumps(d, indent=1)); return 1
    ctx.real_rigeo()
    st, s, tb = run_conc(c, case, d["contract"], d["seed"], d["given"])
    print("inputs:", {k: v for k, v in s.used.items()}); print("failed obligations:", s.failed); 
    if tb: print(tb)
    return 1 if st == "fail" else 0

if __name__ == "__main__":
    sys.exit(main())
