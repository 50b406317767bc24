"""C04 propagators"""
import numpy as np

import elli
from elli.solver4x4 import PropagatorLinear, PropagatorExpm, PropagatorEig
from ..engine import harness

LEMMA = "exp(sA)exp(tA) = exp((s+t)A), exp(A) = W exp(diag q) W^-1 if A W = W diag(q): theorems about the matrix exponential"
DB = ((-2.0, 2.0), (-2.0, 2.0))


def inputs(E, real=False):
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 200.0, 2000.0, axis=True)
    D = E.carray("Delta", (d, 4, 4), *DB)
    return d, lb, D


def arg(E, D, th, lb):
    """2 pi i d Delta / lambda"""
    return 2j * np.pi * th * D / lb[:, None, None]


def thickness(E, name="d"):
    return E.real(name, -40.0, 40.0, special=(0.0, 1.0, 20.0))


@harness("C04", n=60, trusted=[LEMMA])
def expm(E):
    d, lb, D = inputs(E)
    th = thickness(E)
    backend = E.choose("backend", ["default", "automatic", "torch", "scipy"])
    P = PropagatorExpm() if backend == "default" else PropagatorExpm(backend)
    p = P.calculate_propagation(D, th, lb)
    E.eq("exp(2 pi i d Delta / lambda)", p, E.m.expm(arg(E, D, th, lb)), rtol=1e-5)


@harness("C04", n=60, trusted=[LEMMA])
def expm_zero(E):
    d, lb, D = inputs(E)
    P = PropagatorExpm(E.choose("backend", ["automatic", "torch", "scipy"]))
    p = P.calculate_propagation(D, E.choose("zero", [0, 0.0, -0.0]), lb)
    E.eq("P(0) = 1", p, np.eye(4) + 0 * D, scale=1)


@harness("C04", n=60, trusted=[LEMMA], weight=3)
def eig(E):
    m = E.m
    d, lb, D = inputs(E)
    th = thickness(E)
    p = PropagatorEig().calculate_propagation(D, th, lb)
    if E.sym:
        # with any eigenvector matrix W of Delta: P W = W diag(exp(2 pi i d q / lambda))
        q, W = m.linalg_eig(D)
        ph = m.exp(2j * np.pi * th * q / lb[:, None])
        E.eq("exp(2 pi i d Delta / lambda)", m.matmul(p, W), W * ph[:, None, :])
    else:
        w = np.linalg.eig(D)[1]
        E.assume(np.max(np.linalg.cond(w)) < 1e4)
        E.eq("exp(2 pi i d Delta / lambda)", p, E.m.expm(arg(E, D, th, lb)), rtol=1e-5)


@harness("C04", n=30, weight=2)
def eig_zero(E):
    d, lb, D = inputs(E)
    p = PropagatorEig().calculate_propagation(D, E.choose("zero", [0, 0.0]), lb)
    if not E.sym:
        E.assume(np.max(np.linalg.cond(np.linalg.eig(D)[1])) < 1e4)
    E.eq("P(0) = 1", p, np.eye(4) + 0 * D, scale=1)


@harness("C04", n=60)
def linear(E):
    d, lb, D = inputs(E)
    th = thickness(E)
    p = PropagatorLinear().calculate_propagation(D, th, lb)
    E.eq("1 + 2 pi i d Delta / lambda", p, np.eye(4) + arg(E, D, th, lb), scale=1)


@harness("C04", n=80, sym=False, trusted=[LEMMA])
def laws(E):
    """the consequences, evaluated on samples (they follow from the proved identities by the trusted theorems)"""
    d, lb, D = inputs(E)
    which = E.choose("propagator", ["torch", "scipy", "eig"])
    P = PropagatorEig() if which == "eig" else PropagatorExpm(which)
    if which == "eig":
        E.assume(np.max(np.linalg.cond(np.linalg.eig(D)[1])) < 1e3)
    a, b = E.real("d1", 0.0, 30.0), E.real("d2", 0.0, 30.0)
    pa, pb = P.calculate_propagation(D, a, lb), P.calculate_propagation(D, b, lb)
    pab = P.calculate_propagation(D, a + b, lb)
    s = np.max(np.abs(pa), axis=(1, 2)) * np.max(np.abs(pb), axis=(1, 2))
    E.eq("thicknesses add", (pa @ pb) / s[:, None, None], pab / s[:, None, None], scale=1)
    pm = P.calculate_propagation(D, -a, lb)
    s = np.max(np.abs(pa), axis=(1, 2)) * np.max(np.abs(pm), axis=(1, 2))
    E.assume(np.max(s) < 1e6)
    E.eq("P(-d) inverts P(d)", pa @ pm, np.eye(4) + 0 * pa, atol=1e-6)


@harness("C04", n=80, sym=False, trusted=[LEMMA])
def thick(E):
    """thick layers, relative to the largest element"""
    d, lb, D = inputs(E)
    which = E.choose("propagator", ["torch", "scipy", "eig"])
    P = PropagatorEig() if which == "eig" else PropagatorExpm(which)
    if which == "eig":
        E.assume(np.max(np.linalg.cond(np.linalg.eig(D)[1])) < 1e3)
    th = E.real("d", -2000.0, 2000.0)
    A = arg(E, D, th, lb)
    growth = np.max(np.linalg.eigvals(A).real, axis=1)
    E.assume(np.max(growth) < 300)
    p, want = P.calculate_propagation(D, th, lb), E.m.expm(A)
    s = np.max(np.abs(want), axis=(1, 2))[:, None, None]
    E.eq("exp(2 pi i d Delta / lambda), thick layers", p / s, want / s, rtol=1e-5, scale=1)


@harness("C04", n=8)
def backend_rejected(E):
    bad = E.choose("bad", ["numpy", "", "Torch", "SciPy", "jax", "auto"])
    E.raises("unknown backend rejected", ValueError, lambda: PropagatorExpm(bad))
    E.raises("unknown backend rejected by keyword", ValueError, lambda: PropagatorExpm(backend=bad))
