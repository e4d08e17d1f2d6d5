#!/usr/bin/env python3
"""Turn the bug specifications in tools/bugs/*.py into seeded/<id>/ after confirming each in a scratch copy of /repo.

A specification module defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)].
usage: plant.py [--force] [id substring ...]
"""
import sys, os, json, subprocess, shutil, importlib.util, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 iff the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
def tests(repo):
    x = os.path.join(repo, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "xdist.plugin", "-n", "4", "--timeout=300", "--tb=line", "--junitxml", x],
                   cwd=repo, env=dict(ENV, PYTHONPATH=repo + "/src", PYTHONHASHSEED="0"), capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc): ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    os.remove(x)
    return BASE - ok
def demo(d, repo):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, env={k: v for k, v in ENV.items()}, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; force = "--force" in sys.argv
    specs = []
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        sp = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        specs += m.BUGS
    for b in specs:
        out = f"{V}/seeded/{b['id']}"
        if args and not any(a in b["id"] for a in args): continue
        if os.path.exists(out) and not force: continue
        w = tempfile.mkdtemp(prefix="plant_"); repo = w + "/repo"
        try:
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            d = w + "/seed"; os.makedirs(d)
            open(d + "/demo.sh", "w").write(DEMO_SH); open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            bad = None
            rc, o = demo(d, repo)
            if rc: bad = f"demo fails on the unchanged tree: {o}"
            for f, old, new in b["edits"]:
                p = f"{repo}/src/rigeo/{f}"; t = open(p).read()
                if t.count(old) != 1: bad = bad or f"{f}: {t.count(old)} occurrences of {old!r}"; continue
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
            # lines removed must exist in the original repository
            if not bad:
                base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", capture_output=True, text=True).stdout.strip()
                rc, o = demo(d, repo)
                if rc == 0: bad = "demo passes with the change"
                else: print("   demo:", o.strip().splitlines()[-1][:200] if o.strip() else rc)
            if not bad:
                miss = tests(repo)
                if miss: bad = f"breaks stable tests: {sorted(miss)[:4]}"
            if bad: print(b["id"], "REJECTED:", bad); continue
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            for f in ("demo.sh", "demo.py"): shutil.copy(d + "/" + f, out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(b["id"], "kept")
        finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__": main()
