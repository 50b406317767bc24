#!/usr/bin/env python3
"""plant.py SPEC.py : confirm a planted bug in /repo's working tree (undone afterwards) and store it under seeded/.
SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source); option --check runs the property's check"""
import json, os, runpy, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    for spec in sys.argv[1:]:
        if spec.startswith("-"):
            continue
        m = runpy.run_path(spec)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        d = os.path.join(R, "seeded", m["ID"])
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.py", "w") as f:
            f.write(m["DEMO"].lstrip())
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo/src\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        ok = sh(f"bash {d}/demo.sh", cwd="/repo")
        try:
            for f, a, b in m["EDITS"]:
                p = "/repo/" + f
                s = open(p).read()
                assert s.count(a) == 1, (f, s.count(a))
                open(p, "w").write(s.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            bad = sh(f"bash {d}/demo.sh", cwd="/repo")
            print(m["ID"], "demo clean", ok.returncode, "patched", bad.returncode, (ok.stderr or "")[-300:], (bad.stderr or "")[-200:].replace("\n", " "))
            if "-t" in sys.argv:
                b = sh("bash /opt/vp/build.sh")
                out = "/tmp/plant_%d.json" % os.getpid()
                sh("bash /opt/vp/test.sh " + out)
                p = set(json.load(open(out))["passed"])
                st = json.load(open("/opt/vp/BASELINE.json"))
                st = st.get("stable") or st.get("passed") or st.get("tests")
                print("   build", b.returncode, "tests broken:", [t for t in st if t not in p])
            if "-c" in sys.argv:
                c = sh(f"cd {R} && ./check {m['PROPERTY']}")
                print("   check", c.returncode, [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:3], c.stdout[-400:] if c.returncode not in (0, 1) else "")
        finally:
            sh("git -C /repo checkout -- .")
main()
