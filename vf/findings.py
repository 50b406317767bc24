"""Known findings: genuine defects recorded and not repaired (known-findings.json)."""
from __future__ import annotations
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROBES = {}


def probe(fid):
    def deco(f):
        PROBES[fid] = f
        return f
    return deco


def for_property(prop):
    try:
        with open(os.path.join(ROOT, "known-findings.json")) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def still_fails(k):
    f = PROBES.get(k["id"])
    if f is None:
        return False
    import warnings
    import numpy as np
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return bool(f())
    except Exception:
        return False


@probe("bruggeman-lossless-metal")
def _bruggeman():
    import elli
    import numpy as np
    from .props.common import Given
    h = elli.IsotropicMaterial(Given(np.array([2.25 + 0j])))
    g = elli.IsotropicMaterial(Given(np.array([-4 + 0j])))
    return abs(elli.BruggemanEMA(h, g, 0).get_tensor(np.array([500.0]))[0, 0, 0] - 2.25) > 0.1


@probe("absorbing-front-branch")
def _absorbing_front():
    import elli
    import numpy as np
    m = [elli.IsotropicMaterial(elli.ConstantRefractiveIndex(n)) for n in (1.4 + 0.3j, 1.7 + 0.01j)]
    s = elli.Structure(m[0], [], m[1])
    r = [s.evaluate(np.array([400.0]), 50, solver=k).R[0] for k in (elli.Solver2x2, elli.Solver4x4)]
    return abs(r[0] - r[1]) > 0.1
