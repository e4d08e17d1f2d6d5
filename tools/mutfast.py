#!/usr/bin/env python3
"""Fast form of the mutation campaign: for every mutant only the contract cases that execute the mutated function, cheapest first, until one fails.
usage: mutfast.py base OUT | run BASE MUTANTS OUT [file substr] | one BASE MUTANT.json"""
import sys, os, json, time, subprocess, fnmatch, queue, threading, tempfile, shutil, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
def base(out):
    from engine import run, ctx
    import multiprocessing as mp
    run.load_contracts(); ctx.real_rigeo(); T = []
    for prop, cs in sorted(ctx.REGISTRY.items()):
        for ci, c in enumerate(cs):
            for k in range(len(c.cases)): T.append((prop, ci, k, 6, 150))
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool: R = list(pool.imap(run.task, T, chunksize=1))
    json.dump([dict(t=t[:3], label=r.label, called=sorted(r.called), covers=list(r.covers), wall=round(r.wall, 2)) for t, r in zip(T, R)], open(out, "w"))
def one(basef, mf):
    m = json.load(open(mf)); B = json.load(open(basef))
    from engine import run, ctx
    run.load_contracts(); ctx.real_rigeo()
    fn = "rigeo." + m["file"].replace("/", ".") + m["fn"]
    rel = [b for b in B if (fn in b["called"] or any(fnmatch.fnmatch(fn, p) for p in b["covers"]) and not b["called"]) and b["wall"] < 25]
    rel.sort(key=lambda b: b["wall"])
    # alternate: the cheapest of each property first
    seen = {}; 
    for b in rel: seen[b["t"][0]] = seen.get(b["t"][0], 0) + 1; b["o"] = seen[b["t"][0]] * (1 + b["wall"])
    rel.sort(key=lambda b: b["o"])
    t0 = time.time(); n = 0; weak = []
    for phase in ("conc", "sym"):
        for b in rel:
            if time.time() - t0 > (40 if phase == "conc" else 100): break
            p, ci, k = b["t"]; c = ctx.REGISTRY[p][ci]; lab = b["label"]; R = run.Result(lab); n += 1
            try:
                if phase == "conc":
                    run.concrete(c, c.cases[k], lab, R, 5, 15)
                    if R.conc["failed"]: print(json.dumps(dict(by=f"{p} {lab}", how="input", ob=R.conc["failed"][0]["obligations"][:2], n=n))); return
                elif not c.opts.get("bounded"):
                    run.verify_symbolic(c, c.cases[k], lab, R, 60)
                    bad = [o[0] for o in R.obls if o[1] != "proved" and not o[3]] + [e[0] for e in R.exceptions]
                    if bad and not (R.unsupported and (R.restarts or R.loop_obls)): print(json.dumps(dict(by=f"{p} {lab}", how="obligation", ob=bad[:2], n=n))); return
                    if R.unsupported: weak.append(f"{p} {lab}: {R.unsupported[0][0][:60]}")
            except Exception as e: weak.append(f"{lab} {type(e).__name__} {e}"[:100])
    print(json.dumps(dict(by=None, n=n, rel=len(rel), weak=weak[:4], nweak=len(weak))))
def runall(basef, mutf, out, sel):
    ms = [m for m in json.load(open(mutf)) if m["tests"] == "pass" and (not sel or any(x in m["file"] for x in sel))]
    q = queue.Queue(); [q.put(m) for m in ms]; done = []; lock = threading.Lock()
    def worker():
        T = tempfile.mkdtemp(prefix="mut"); R = T + "/src"; shutil.copytree("/repo/src", R)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f"{R}/rigeo/{m['file']}.py"; o = open(p, "rb").read(); open(p, "wb").write(o[:m["lo"]] + m["new"].encode() + o[m["hi"]:])
            json.dump(m, open(T + "/m.json", "w")); t0 = time.time()
            try:
                r = subprocess.run([sys.executable, __file__, "one", basef, T + "/m.json"], capture_output=True, text=True, timeout=260, env=dict(os.environ, RIGEO_SRC=R, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
                res = json.loads(r.stdout.strip().splitlines()[-1]) if r.stdout.strip() else dict(by="crash?", err=r.stderr[-300:])
            except subprocess.TimeoutExpired: res = dict(by=None, timeout=True)
            except Exception as e: res = dict(by="crash?", err=str(e))
            open(p, "wb").write(o); m["r"] = res; m["t"] = round(time.time() - t0)
            with lock:
                done.append(m)
                with open(out + ".log", "a") as f: f.write(f"{'SURVIVED' if not res.get('by') else 'caught'} {m['file']}:{m['line']} {m['fn']} [{m['what']}] {m['old'][:70]!r} -> {m['new'][:70]!r} {m['t']}s {json.dumps(res)[:220]}\n")
                if len(done) % 20 == 0 or q.empty(): json.dump(done, open(out, "w"), indent=0)
        shutil.rmtree(T)
    ts = [threading.Thread(target=worker) for _ in range(8)]; [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "base": base(a[2])
    elif a[1] == "one": one(a[2], a[3])
    else: runall(a[2], a[3], a[4], a[5:])
