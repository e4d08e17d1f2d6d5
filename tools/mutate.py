#!/usr/bin/env python3
"""Mutation campaign: mechanical mutants of /repo/src/rigeo that survive the stable tests, run against the checks.
usage: mutate.py gen OUT.json [file substr ...] | tests IN OUT | checks IN OUT     (scratch copies only)"""
import ast, sys, os, json, subprocess, tempfile, shutil, re, time, random
from concurrent.futures import ThreadPoolExecutor
import threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = "/repo/src/rigeo/"
FILES = ["closest", "constraint", "inertial", "moment", "polydd", "random", "rigidbody", "spatial", "test_util", "util", "shape/base", "shape/box", "shape/capsule", "shape/cylinder", "shape/ellipsoid", "shape/poly"]
CHECKS = {"inertial": "C01 C03 C02 C04 C05 C24 C16 C23", "rigidbody": "C03 C05 C08 C10 C16 C17 C23", "moment": "C18 C16 C17 C23", "polydd": "C20 C06 C08 C23", "random": "C13 C12 C23", "spatial": "C05 C19 C23", "test_util": "C24",
  "util": "C19 C01 C05 C11 C15 C23", "constraint": "C17 C16 C19 C23", "closest": "C21 C23", "shape/base": "C14 C08 C24 C09 C10 C21 C16 C23", "shape/box": "C06 C07 C08 C11 C15 C14 C24 C10 C09 C17 C16 C12 C23",
  "shape/capsule": "C06 C08 C24 C09 C10 C12 C16 C23", "shape/cylinder": "C06 C08 C11 C15 C24 C09 C10 C17 C12 C16 C23", "shape/ellipsoid": "C06 C07 C08 C11 C15 C24 C09 C10 C17 C22 C16 C12 C23", "shape/poly": "C06 C08 C15 C24 C09 C10 C07 C20 C22 C16 C17 C12 C14 C23"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.MatMult: ("@", "*")}
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: (" is ", " is not "), ast.IsNot: (" is not ", " is ")}
def gen(sel):
    out = []
    for f in FILES:
        if sel and not any(x in f for x in sel): continue
        t = open(SRC + f + ".py").read(); tree = ast.parse(t); L = [0]
        for l in t.splitlines(True): L.append(L[-1] + len(l.encode()))
        b = t.encode(); pos = lambda ln, c: L[ln - 1] + c
        span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
        text = lambda n: b[slice(*span(n))].decode()
        def add(lo, hi, new, what, ln, fn): out.append(dict(file=f, lo=lo, hi=hi, new=new, old=b[lo:hi].decode(), what=what, line=ln, fn=fn))
        def rep(n, new, what, fn): 
            if new != text(n): add(*span(n), new, what, n.lineno, fn)
        def walk(n, fn, par=None):
            if isinstance(n, (ast.FunctionDef,)):
                fn = fn + "." + n.name
                if n.name in ("__str__", "__repr__"): return
            if isinstance(n, ast.ClassDef): fn = fn + "." + n.name
            if isinstance(n, (ast.Assert, ast.Import, ast.ImportFrom, ast.Raise)): return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                lo, hi = span(n.left)[1], span(n.right)[0]; seg = b[lo:hi].decode(); a, c = BIN[type(n.op)]
                if seg.count(a) == 1: add(lo, hi, seg.replace(a, c), f"{a} to {c}", n.lineno, fn)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow): rep(n, text(n.left), "power dropped", fn)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                lo, hi = span(n.left)[1], span(n.comparators[0])[0]; seg = b[lo:hi].decode(); a, c = CMP[type(n.ops[0])]
                if a.strip() in seg: add(lo, hi, seg.replace(a.strip(), c.strip(), 1), f"{a} to {c}", n.lineno, fn)
            if isinstance(n, ast.BoolOp):
                a, c = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and"); lo, hi = span(n.values[0])[1], span(n.values[1])[0]; seg = b[lo:hi].decode(); add(lo, hi, seg.replace(a, c), f"{a} to {c}", n.lineno, fn)
            if isinstance(n, ast.Constant):
                if n.value is True: rep(n, "False", "True to False", fn)
                elif n.value is False: rep(n, "True", "False to True", fn)
                elif isinstance(n.value, int): rep(n, str(n.value + 1), "constant + 1", fn); rep(n, str(n.value - 1), "constant - 1", fn)
                elif isinstance(n.value, float): rep(n, repr(n.value * 2), "constant doubled", fn)
            if isinstance(n, ast.Attribute) and n.attr == "T": rep(n, text(n.value), ".T dropped", fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): rep(n, text(n.operand), "sign or not dropped", fn)
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and k.arg not in ("dtype",):
                        lo = pos(k.lineno, k.col_offset); hi = span(k.value)[1]; m = re.match(rb"\s*,", b[hi:]); 
                        if m: add(lo, hi + m.end(), "", f"keyword {k.arg} dropped", k.value.lineno, fn)
                        else:
                            m = re.search(rb",\s*$", b[:lo]); lo = m.start() if m else lo; add(lo, hi, "", f"keyword {k.arg} dropped", k.value.lineno, fn)
                if len(n.args) >= 2: 
                    a, c = n.args[0], n.args[1]
                    if not isinstance(a, ast.Starred) and text(a) != text(c): add(span(a)[0], span(c)[1], text(c) + b[span(a)[1]:span(c)[0]].decode() + text(a), "arguments swapped", n.lineno, fn)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "any", "all", "min", "max", "abs", "sqrt", "sort", "unique", "atleast_2d", "asarray", "array", "squeeze"):
                    alt = {"any": "all", "all": "any", "min": "max", "max": "min"}.get(n.func.attr)
                    if alt: add(span(n.func)[1] - 3, span(n.func)[1], alt, f"{n.func.attr} to {alt}", n.lineno, fn)
                    elif n.func.attr == "copy" and not n.args: rep(n, text(n.func.value), "copy dropped", fn)
                    elif len(n.args) == 1: rep(n, text(n.args[0]), f"{n.func.attr} dropped", fn)
            if isinstance(n, ast.IfExp): rep(n, text(n.body), "conditional always true", fn); rep(n, text(n.orelse), "conditional always false", fn)
            if isinstance(n, (ast.If, ast.While)): rep(n.test, "False", "condition False", fn); rep(n.test, "True", "condition True", fn)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue)) and fn.count("."): rep(n, "pass", "statement dropped", fn)
            if isinstance(n, ast.Expr) and fn.count("."): rep(n, "pass", "statement dropped", fn)
            for c in ast.iter_child_nodes(n):
                if isinstance(n, ast.FunctionDef) and c in n.decorator_list: continue
                walk(c, fn, n)
        walk(tree, "")
    seen = set(); res = []
    for m in out:
        k = (m["file"], m["lo"], m["hi"], m["new"])
        if k not in seen: seen.add(k); res.append(m)
    return res
def pool(items, n, job, outf):
    q = queue.Queue(); lock = threading.Lock(); done = []
    for i in items: q.put(i)
    def worker():
        T = tempfile.mkdtemp(prefix="mut"); R = T + "/repo"; shutil.copytree("/repo", R, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f"{R}/src/rigeo/{m['file']}.py"; o = open(p, "rb").read()
            open(p, "wb").write(o[:m["lo"]] + m["new"].encode() + o[m["hi"]:])
            try: job(R, m)
            finally: open(p, "wb").write(o)
            with lock:
                done.append(m)
                if len(done) % 20 == 0 or q.empty(): json.dump(done, open(outf, "w"), indent=0)
        shutil.rmtree(T)
    ts = [threading.Thread(target=worker) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
STABLE = None
def tests(R, m):
    env = dict(os.environ, PYTHONPATH=R + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    try: ast.parse(open(f"{R}/src/rigeo/{m['file']}.py").read())
    except SyntaxError: m["tests"] = "syntax"; return
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--tb=no", *SEL], cwd=R, env=env, capture_output=True, text=True, timeout=120)
        m["tests"] = "pass" if r.returncode == 0 else "fail"
    except subprocess.TimeoutExpired: m["tests"] = "fail"
def checks(R, m):
    m["res"] = {}; m["caught"] = None
    for c in CHECKS[m["file"]].split():
        t0 = time.time()
        try: r = subprocess.run([V + "/check", c, "--no-evidence", "-j", "2"], capture_output=True, text=True, cwd=V, env=dict(os.environ, RIGEO_SRC=R + "/src"), timeout=800)
        except subprocess.TimeoutExpired: m["res"][c] = "timeout"; continue
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        m["res"][c] = [r.returncode, len(v), sum(not l.endswith("no-failing-input-found") for l in v), round(time.time() - t0)]
        if r.returncode == 1: m["caught"] = c; break
    with open("/tmp/mut.log", "a") as f: f.write(f"{m['file']}:{m['line']} {m['fn']} [{m['what']}] {m['old'][:60]!r} -> {m['new'][:60]!r}: {m['caught'] or 'SURVIVED'} {m['res']}\n")
if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms = gen(sys.argv[3:]); json.dump(ms, open(sys.argv[2], "w"), indent=0); print(len(ms))
    else:
        ms = json.load(open(sys.argv[2])); base = json.load(open("/opt/vp/BASELINE.json"))
        if sys.argv[1] == "tests":
            SEL = ["tests/" + x.split("::")[0].split(".", 1)[1].replace(".", "/") + ".py::" + x.split("::", 1)[1] for x in base["stable"]]; random.Random(1).shuffle(ms)
            pool(ms, 8, tests, sys.argv[3])
        else:
            ms = [m for m in ms if m["tests"] == "pass"]
            pool(ms, int(sys.argv[4]) if len(sys.argv) > 4 else 4, checks, sys.argv[3])
