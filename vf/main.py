"""./check <property> : decide one property on /repo's current tree."""
from __future__ import annotations
import argparse
import glob
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import levels

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    from . import engine
    importlib.import_module("vf.props." + prop.lower())
    return [h for h in engine.REG if h.prop == prop]


def worker(args):
    prop, idx, seed, tier, budget, memgb = args
    sys.setrecursionlimit(20000)
    from . import engine
    resource.setrlimit(resource.RLIMIT_AS, (memgb << 30, memgb << 30))
    h = load(prop)[idx]
    t0 = time.time()
    engine._DEADLINE[0] = t0 + budget

    def alarm(sig, frame):
        raise engine.Budget()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(budget) + 20)
    try:
        r = engine.verify(h, seed, tier, budget)
    except engine.Budget:
        r = {"harness": h.name, "prop": prop, "error": "time budget", "labels": {}, "violations": []}
    except MemoryError:
        r = {"harness": h.name, "prop": prop, "error": "memory", "labels": {}, "violations": []}
    except Exception:
        r = {"harness": h.name, "prop": prop, "error": traceback.format_exc()[-2000:], "labels": {}, "violations": []}
    finally:
        signal.alarm(0)
    r["wall"] = time.time() - t0
    return r


def _child(args, conn):
    r = worker(args)
    conn.send(r)
    conn.close()


def run_pool(jobs, nproc, limit):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = []
    out = []
    cut = None          # once a failing input is known the rest of the run is shortened
    while todo or live:
        if cut is not None and time.time() > cut:
            todo.clear()
        while todo and len(live) < nproc:
            a = todo.pop(0)
            p, c = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(a, c))
            pr.start()
            c.close()
            live.append((a, p, pr, time.time()))
        time.sleep(0.02)
        for it in list(live):
            a, p, pr, ts = it
            done = None
            if p.poll():
                try:
                    done = p.recv()
                except EOFError:
                    done = {"harness": f"#{a[1]}", "prop": a[0], "error": "worker died", "labels": {}, "violations": []}
                pr.join(5)
            elif not pr.is_alive():
                done = {"harness": f"#{a[1]}", "prop": a[0], "error": f"worker died ({pr.exitcode})", "labels": {}, "violations": []}
            elif time.time() - ts > a[4] + 60 or (cut is not None and time.time() > cut):
                done = {"harness": f"#{a[1]}", "prop": a[0], "error": "worker stopped (time)", "labels": {}, "violations": []}
            if done is not None:
                if pr.is_alive():
                    pr.kill()
                pr.join(5)
                p.close()
                live.remove(it)
                done["idx"] = a[1]
                if done.get("violations") and cut is None:
                    cut = time.time() + 60
                out.append(done)
    return sorted(out, key=lambda r: r["idx"])


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "7")))
    ap.add_argument("--baseline", action="store_true", help="rewrite baseline/<prop>.json from this run")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return do_replay(a.replay)
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    try:
        hs = load(prop)
    except Exception:
        # the code under test cannot be imported the way the contracts use it
        traceback.print_exc()
        hs = []
    total = 420 if tier == "quick" else 780
    jobs = []
    for i, h in enumerate(hs):
        if a.only and a.only not in h.name:
            continue
        jobs.append((prop, i, a.seed, tier, total, 8))
    jobs.sort(key=lambda j: -hs[j[1]].weight)
    rs = run_pool(jobs, a.jobs, total) if jobs else []
    return report(prop, tier, a, hs, rs, t0)


def baseline(prop):
    try:
        with open(os.path.join(ROOT, "baseline", prop + ".json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def report(prop, tier, a, hs, rs, t0):
    from . import findings
    base = baseline(prop)
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(f)
    viol = []
    newbase = {}
    obl = dis = bnd = und = 0
    vc = vcp = conc = 0
    undecided = []
    for r in rs:
        for v in r.get("violations", []):
            viol.append((v["harness"] + "/" + v["label"], v, True))
        for lab, o in r.get("labels", {}).items():
            if lab == "*":
                continue
            name = r["harness"] + "/" + lab
            obl += 1
            if o["status"] == "proved":
                dis += 1
                newbase[name] = "proved"
            elif o["status"] == "proved-bounded":
                bnd += 1
                newbase[name] = "bounded"
            else:
                und += 1
                undecided.append({"obligation": name, "status": o["status"], "reason": o.get("why")})
                if o["status"] == "open" and base.get(name) == "proved" and \
                        not any(x["label"] == lab for x in r.get("violations", [])):
                    viol.append((name, {"label": lab, "harness": r["harness"], "message": o.get("why"),
                                        "origin": "failed obligation", "sample": None}, False))
        vc += r.get("vc", 0)
        vcp += r.get("vc_proved", 0)
        conc += r.get("concrete", 0)
    known = findings.for_property(prop)
    lines = []
    for k in known:
        st = findings.still_fails(k)
        if st:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    seen = set()
    n = 0
    # failing inputs first
    viol.sort(key=lambda v: not v[2])
    any_input = any(v[2] for v in viol)
    for name, v, has in viol:
        if name in seen:
            continue
        seen.add(name)
        n += 1
        path = os.path.join("evidence", "replays", f"{prop}-{n}.json")
        with open(os.path.join(ROOT, path), "w") as f:
            json.dump(jsonable(dict(v, property=prop, obligation=name)), f, indent=1)
        print(f"  failed obligation {name}: {v['message']}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if has else " no-failing-input-found"))
    if any_input:
        lines = [l for l in lines if not l.endswith("no-failing-input-found")]
    if a.baseline:
        os.makedirs(os.path.join(ROOT, "baseline"), exist_ok=True)
        with open(os.path.join(ROOT, "baseline", prop + ".json"), "w") as f:
            json.dump(newbase, f, indent=0, sort_keys=True)
            f.write("\n")
    trusted = sorted({f"{k}: {v}" for r in rs for k, v in r.get("contracts", {}).items()})
    assumed = sorted({x for h in hs for x in h.trusted})
    funcs = sorted({x for r in rs for x in r.get("funcs", [])})
    import z3
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": levels.level(prop),
        "coverage": {
            "obligations": obl, "discharged": dis,
            **({"explanation": levels.EXPLAIN} if levels.level(prop) == "other" else {}),
            "checker_cmd": f"./check {prop}",
            "trusted_base": ["the VC generator: symbolic execution of the real code with vf/sym.py, vf/shims.py, vf/engine.py",
                             "the polynomial/exponential/radical normaliser vf/ring.py",
                             f"z3 {z3.get_version_string()}"] + trusted,
            "proved_for_bounded_lengths_only": bnd,
            "undecided": undecided,
            "verification_conditions": vc, "verification_conditions_discharged": vcp,
            "paths": sum(r.get("paths", 0) for r in rs),
            "functions_executed_under_contract": funcs,
            "bounded_check_evaluations": conc,
            "bounded_check_comparisons": sum(r.get("checks", 0) for r in rs),
            "smt_queries": sum(r.get("smt", {}).get("queries", 0) for r in rs),
            "solver_time_s": round(sum(r.get("smt", {}).get("time", 0) for r in rs), 2),
            "harnesses": [{"name": r["harness"], "paths": r.get("paths"), "wall_s": round(r.get("wall", 0), 2),
                           "obligations": {k: v["status"] for k, v in r.get("labels", {}).items()},
                           "concrete": r.get("concrete"), "notes": r.get("notes", [])[:12],
                           "engine_mismatch": r.get("mismatch", [])[:3],
                           **({"error": r["error"]} if r.get("error") else {})} for r in rs],
            "samples": [s for r in rs for s in r.get("samples", [])][:3],
        },
        "assumptions": ["real and complex numbers are mathematical (no rounding, overflow or NaN) in proved obligations; "
                        "the bounded evaluations run in double precision",
                        "quantities are compared where the formulas are defined (no division by zero)"] + assumed,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(seen),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for r in rs:
        c = {}
        for o in r.get("labels", {}).values():
            c[o["status"]] = c.get(o["status"], 0) + 1
        print(f"{r['harness']}: {c} paths={r.get('paths')} concrete={r.get('concrete')} {r.get('wall', 0):.1f}s"
              + (f" ERROR {r['error']}" if r.get("error") else ""))
        if a.v:
            for k, o in r.get("labels", {}).items():
                if not o["status"].startswith("proved"):
                    print("   ", k, o["status"], str(o.get("why"))[:300])
            for x in r.get("notes", [])[:6]:
                print("    note:", x[:300])
            for x in r.get("mismatch", [])[:3]:
                print("    mismatch:", x[:300])
    print(f"{prop}: {obl} obligations, {dis} proved, {bnd} proved for bounded lengths, {und} undecided; "
          f"{vc} conditions ({vcp} discharged), {conc} concrete evaluations, {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    if not hs or (obl == 0 and conc == 0):
        # the contracts could not even be evaluated: an API they rest on is gone
        if not seen:
            print("nothing was checked")
            return 3
    return 1 if seen else 0


def do_replay(path):
    from . import engine
    with open(path) as f:
        v = json.load(f)
    h = next(x for x in load(v["property"]) if x.name == v["harness"])
    if not v.get("sample"):
        print("no failing input recorded; failed obligation:", v["obligation"], v["message"])
        return 1
    st, fails, env = engine.run_concrete(h, engine.Sample.load(v["sample"]))
    print("input:", json.dumps(v["sample"], indent=1))
    for lab, m in fails:
        print("failed:", lab, m)
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
