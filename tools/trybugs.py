#!/usr/bin/env python3
"""Apply each seeded bug to a scratch copy of /repo in turn and run the check of its property against it. usage: trybugs.py [id substring ...]"""
import sys, os, json, subprocess, glob, time, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(os.path.basename(p) for p in glob.glob(V + "/seeded/*") if os.path.isdir(p))
T = tempfile.mkdtemp(prefix="trybugs"); R = T + "/repo"
shutil.copytree("/repo", R, symlinks=True)
for i in ids:
    if sys.argv[1:] and not any(a in i for a in sys.argv[1:]): continue
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    if subprocess.run(["git", "-C", R, "apply", f"{V}/seeded/{i}/patch.diff"]).returncode: print(i, "does not apply"); continue
    try:
        t0 = time.time()
        r = subprocess.run([V + "/check", m["property"], "--no-evidence"], capture_output=True, text=True, cwd=V, env=dict(os.environ, RIGEO_SRC=R + "/src"))
        vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        found = [l for l in vio if not l.endswith("no-failing-input-found")]
        print(f"{i}: {'caught' if r.returncode == 1 and vio else 'MISSED'} rc={r.returncode} violations={len(vio)} with input={len(found)} {time.time() - t0:.0f}s", flush=True)
        if "-v" in os.environ.get("V", ""): print(r.stdout[-1500:])
    finally: subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
shutil.rmtree(T)
