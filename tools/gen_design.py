"""DESIGN.md = tools/design_head.md + tools/design_tail.md + table of planted bugs (tools/caught.txt: output of trybugs.py)."""
import os, json, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
res = {}
for l in open(T + "/caught.txt"):
    if ": " in l and "violations" in l:
        i, r = l.split(": ", 1); w = r.split()
        res[i] = ("caught" if w[0] == "caught" else "missed") + (", failing input found" if "input=0" not in r else ", failed obligation" if w[0] == "caught" else "")
out = "| bug | check | needs | result |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    out += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run yet')} |\n"
open(V + "/DESIGN.md", "w").write(open(T + "/design_head.md").read() + open(T + "/design_tail.md").read() + out)
