#!/usr/bin/env python3
"""Apply a group of behaviour-preserving edits to a scratch copy of /repo, run its tests and the checks. usage: tryrefac.py batch group [check ...] [--only index,index]"""
import sys, os, importlib.util, shutil, subprocess, tempfile, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
a = [x for x in sys.argv[1:] if not x.startswith("--")]; only = [x[7:] for x in sys.argv if x.startswith("--only=")]
spec = importlib.util.spec_from_file_location("b", f"{V}/tools/refactors/{a[0]}.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
T = tempfile.mkdtemp(prefix="refac"); R = T + "/repo"; shutil.copytree("/repo", R, symlinks=True)
for i, (f, old, new) in enumerate(m.R[a[1]]):
    if only and str(i) not in only[0].split(","): continue
    p = f"{R}/src/rigeo/{f}"; t = open(p).read()
    if t.count(old) < 1: print("edit", i, f, "does not apply"); continue
    open(p, "w").write(t.replace(old, new, 1))
if not only:
    import plant
    print("tests broken:", plant.tests(R))
checks = a[2:] or [f"C{i:02}" for i in range(1, 25)]
for c in checks:
    t0 = time.time(); r = subprocess.run(["timeout", "890", V + "/check", c, "--no-evidence"], capture_output=True, text=True, cwd=V, env=dict(os.environ, RIGEO_SRC=R + "/src"))
    print(c, r.returncode, f"{time.time() - t0:.0f}s", re.sub(r"\s+", " ", r.stdout[:140]), flush=True)
    for l in r.stdout.splitlines():
        if "failed:" in l or "VIOLATION" in l or ("bounded:" in l and not any(k in l for k in ("closest points [", "sampling a surface [", "optimisation and double", "is_triangular", "many rows"))): print("    " + l[:170], flush=True)
    if r.stderr: print(r.stderr[-300:])
shutil.rmtree(T)
