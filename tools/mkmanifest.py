#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, vf/props and the texts below"""
import collections, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C29": "a statement about rounding errors of numpy/LAPACK floating-point kernels; the contracts are discharged over exact real and complex arithmetic (machine arithmetic is treated as mathematical), so they cannot decide it",
}
NOTE = ("Weakest-precondition style obligations generated by executing the real functions of /repo's current tree on "
        "symbolic inputs (arbitrary reals/complex numbers, axes of arbitrary length), discharged by an exact ring normaliser and z3. "
        "Assumes exact arithmetic, contracts of NumPy/SciPy/Python primitives (shims, cross-checked against CPython on every run). "
        "Obligations not discharged are counted as undecided and only checked on sampled inputs; the evidence file lists both.")
sys.path[:0] = [R, os.path.join(R, "tools")]
from vf.levels import level, OTHER
from design_texts import P


def note(i):
    c = collections.Counter(json.load(open(os.path.join(R, "baseline", i + ".json"))).values())
    n = f"{c['proved']} of {sum(c.values())} obligations proved without bound, {c['proved-bounded']} for bounded sizes. "
    return n + (f"Bounded or assumed: {P[i][1]}. " if P[i][1] else "") + NOTE


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(R, "vf", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough",
                           "technique": "contract-based deductive verification: symbolic execution of the real functions, obligations discharged by ring normalisation and z3; counterexamples replayed on the real code",
                           "level": level(i), "level_note": note(i),
                           "evidence_file": f"evidence/{i}.json"})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    d = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(R, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
main()
