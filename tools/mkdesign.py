#!/usr/bin/env python3
"""refreshes the generated sections of DESIGN.md (between the BEGIN and END markers)"""
import collections, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, "tools")]
from design_texts import P, ALARMS, OBSERVED
from vf.levels import level


def counts(i):
    c = collections.Counter(json.load(open(f"{R}/baseline/{i}.json")).values())
    return c["proved"], c["proved-bounded"], sum(c.values())


def properties():
    out = ["| id | title | level | proved / bounded / all | under contract | bounded or assumed |", "|---|---|---|---|---|---|"]
    for l in open(R + "/properties.jsonl"):
        d = json.loads(l)
        i = d["id"]
        if i not in P:
            out.append(f"| {i} | {d['title']} | not applicable | | rounding of floating-point kernels: the contracts are over exact arithmetic and cannot express it | |")
            continue
        a, b, n = counts(i)
        out.append(f"| {i} | {d['title']} | {level(i)} | {a} / {b} / {n} | {P[i][0]} | {P[i][1]} |")
    return "\n".join(out)


def findings():
    d = json.load(open(R + "/known-findings.json"))
    out = ["Repaired in /repo (one `fix:` commit each; `known-findings.json` has the same list):", ""]
    out += ["* " + x[7:] for x in d["fixed"]]
    out += ["", "Recorded, not repaired:", ""]
    out += [f"* `{x['id']}` ({x['property']}): {x['what']}" for x in d["findings"]]
    out += ["", "Observed outside of the properties as stated (not reported by any check):", ""]
    out += ["* " + x for x in OBSERVED]
    return "\n".join(out)


def seeds():
    notes = json.load(open(R + "/tools/seed_notes.json"))
    out = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
    for n in sorted(os.listdir(R + "/seeded")):
        m = json.load(open(f"{R}/seeded/{n}/meta.json"))
        out.append(f"| {n} | {m['property']} | {m['needs']} | {notes.get(n, 'at once, with a concrete input')} |")
    return "\n".join(out)


def main():
    p = R + "/DESIGN.md"
    s = open(p).read()
    for name, text in (("PROPERTIES", properties()), ("FINDINGS", findings()), ("SEEDED", seeds()),
                       ("ALARMS", "\n".join("* " + x for x in ALARMS))):
        a, b = f"<!-- BEGIN {name} -->", f"<!-- END {name} -->"
        assert a in s, name
        s = s[:s.index(a) + len(a)] + "\n" + text + "\n" + s[s.index(b):]
    open(p, "w").write(s)


main()
