"""C16 splitting a layer or inserting an empty one changes nothing"""
import numpy as np

import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorExpm, PropagatorEig
from ..engine import harness
from ..stack import Stack, Segment, AnyPropagator
from .c01 import index, medium
from .c02 import real_tensor
from .c03 import tensor
from .c14 import GivenMaterial

ADD = "P(d1+d2) = P(d1) P(d2) and P(0) = 1 for the exact propagators (C04)"


def same(E, a, b):
    for q in "rt":
        x, y = getattr(a, f"jones_matrix_{q}"), getattr(b, f"jones_matrix_{q}")
        if not E.sym:
            ok = np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e3
            if q == "r":
                E.assume(bool(ok))
            elif not ok:
                continue
        for i in range(2):
            for j in range(2):
                E.eq(f"{q}{i}{j}", x[:, i, j], y[:, i, j], scale=1)
    if E.sym:
        E.eq("power correction", a._power_correction, b._power_correction)


def setup(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th = E.real("theta", 0.0, 89.0, special=(0, 30, 45, 60))
    E.trig_atoms(E.m.deg2rad(th))
    nf = E.rarray("nf", (d,), 1.0, 4.0, special=(1, 1.5, 3))
    E.root_hint(nf)
    nb = index(E, "nb", d)
    F, B = medium(nf), medium(nb)

    def slice_(tag):
        t = tensor(E, "eps " + tag, d) if E.sym else real_tensor(E, "eps " + tag, d, E.choose("absorbing " + tag, [True, False]))
        return E.real("d " + tag, 0.0, 120.0, special=(0, 10)), t
    segs = [Segment(E, "first", d, slice_, fresh=True), Segment(E, "last", d, slice_, fresh=True)]
    kx = nf * m.sin(m.deg2rad(th))
    return m, d, lb, th, F, B, segs, slice_, kx


def solve(E, s, lb, th, prop):
    return s.evaluate(lb, th, solver=Solver4x4, propagator=prop)


def propagators(E, d, kx, lb, known):
    """known: list of (thickness, tensor, matrix)"""
    if not E.sym:
        return E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig()])

    def new(delta, t, l):
        for th, e, P in known:
            if AnyPropagator.same(E.run, t, -th) and AnyPropagator.same(E.run, delta, Solver4x4.build_delta_matrix(kx, e)):
                return P
        return None
    return AnyPropagator(E, d, new)


def finite(E, th, e, kx, lb):
    """samples: growing waves are limited, so that rounding errors do not show"""
    if not E.sym:
        D = Solver4x4.build_delta_matrix(kx, e)
        q = np.linalg.eigvals(D)
        E.assume(np.max(2 * np.pi * th / lb[:, None] * np.abs(q.imag)) < 6)
        E.assume(np.max(np.linalg.cond(np.linalg.eig(D)[1])) < 1e4)


@harness("C16", n=100, trusted=[ADD], maxpaths=60)
def split_4x4(E):
    m, d, lb, th, F, B, (sa, sb), slice_, kx = setup(E)
    d1, e = slice_("layer")
    d2 = E.real("d2", 0.0, 120.0, special=(0, 10))
    P1, P2 = (E.carray(f"P[{k}]", (d, 4, 4)) for k in "12") if E.sym else (None, None)
    prop = propagators(E, d, kx, lb, E.sym and [(d1, e, P1), (d2, e, P2), (d1 + d2, e, P1 @ P2)])
    for s in (sa, sb):
        s.prop, s.kx, s.lb = prop, kx, lb
        if not E.sym:
            for t, x in s.draw():
                finite(E, t, x, kx, lb)
    finite(E, d1 + d2, e, kx, lb)
    fb = (F, F.get_tensor(lb)), (B, B.get_tensor(lb))
    one = solve(E, Stack(*fb[0], [sa, (d1 + d2, e), sb], *fb[1]), lb, th, prop)
    two = solve(E, Stack(*fb[0], [sa, (d1, e), (d2, e), sb], *fb[1]), lb, th, prop)
    same(E, one, two)


@harness("C16", n=100, trusted=[ADD], maxpaths=60)
def empty_4x4(E):
    m, d, lb, th, F, B, (sa, sb), slice_, kx = setup(E)
    _, e = slice_("layer")
    z = E.choose("zero", [0, 0.0, -0.0])
    prop = propagators(E, d, kx, lb, E.sym and [(0, e, np.eye(4) + 0 * e[:, :1, :1])])
    for s in (sa, sb):
        s.prop, s.kx, s.lb = prop, kx, lb
        if not E.sym:
            for t, x in s.draw():
                finite(E, t, x, kx, lb)
    finite(E, 0, e, kx, lb)
    fb = (F, F.get_tensor(lb)), (B, B.get_tensor(lb))
    one = solve(E, Stack(*fb[0], [sa, sb], *fb[1]), lb, th, prop)
    two = solve(E, Stack(*fb[0], [sa, (z, e), sb], *fb[1]), lb, th, prop)
    same(E, one, two)


# ------------------------------------------------------------------------------------------------ 2x2 solver
def isotropic(E, L):
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th = E.real("theta", 0.0, 89.0, special=(0, 30, 45, 60))
    E.trig_atoms(E.m.deg2rad(th))
    nf = E.rarray("nf", (d,), 1.0, 4.0, special=(1, 1.5, 3))
    E.root_hint(nf)
    ns = [index(E, f"n{i}", d) for i in range(L)]
    ds = [E.real(f"d{i}", 0.0, 100.0, special=(0, 10)) for i in range(L)]
    nb = index(E, "nb", d)
    return d, lb, th, medium(nf), medium(nb), ns, ds


def solver(E):
    return {"solver": Solver2x2} if E.sym else E.choose("solver", [
        {"solver": Solver2x2}, {"solver": Solver4x4, "propagator": PropagatorExpm("torch")},
        {"solver": Solver4x4, "propagator": PropagatorExpm("scipy")}, {"solver": Solver4x4, "propagator": PropagatorEig()}])


def thin(E, ns, ds, lb):
    if not E.sym:
        E.assume(sum(np.max(2 * np.pi * t / lb * (n.imag + 3)) for n, t in zip(ns, ds)) < 12)


def diagonal(E, a, b):
    for q in "rt":
        x, y = getattr(a, f"jones_matrix_{q}"), getattr(b, f"jones_matrix_{q}")
        if not E.sym:
            E.assume(bool(np.all(np.isfinite(x))))
        for i in range(2):
            E.eq(f"{q}{i}{i}", x[:, i, i], y[:, i, i], scale=1)
    E.eq("power correction", a._power_correction, b._power_correction, scale=1)


@harness("C16", n=100, bounded="the split layer between at most one layer on each side")
def split_2x2(E):
    pos = E.choose("position", [(1, 0), (2, 0), (2, 1)] if E.sym else [(1, 0), (2, 0), (2, 1), (3, 1), (5, 2)])
    L, k = pos
    d, lb, th, F, B, ns, ds = isotropic(E, L)
    d2 = E.real("d2", 0.0, 100.0, special=(0, 10))
    thin(E, ns + [ns[k]], ds + [d2], lb)
    mats = [medium(n) for n in ns]
    kw = solver(E)
    one = [elli.Layer(x, t + d2 if i == k else t) for i, (x, t) in enumerate(zip(mats, ds))]
    two = [elli.Layer(x, t) for x, t in zip(mats, ds)]
    two.insert(k + 1, elli.Layer(mats[k], d2))
    diagonal(E, elli.Structure(F, one, B).evaluate(lb, th, **kw), elli.Structure(F, two, B).evaluate(lb, th, **kw))


@harness("C16", n=100, bounded="an empty layer in a stack of at most one other layer")
def empty_2x2(E):
    L, k = E.choose("position", [(1, 0)] if E.sym else [(1, 0), (2, 0), (2, 1), (3, 1), (5, 2)])
    d, lb, th, F, B, ns, ds = isotropic(E, L)
    ds[k] = E.choose("zero", [0, 0.0])
    thin(E, ns, ds, lb)
    mats = [medium(n) for n in ns]
    kw = solver(E)
    two = [elli.Layer(x, t) for x, t in zip(mats, ds)]
    one = two[:k] + two[k + 1:]
    diagonal(E, elli.Structure(F, one, B).evaluate(lb, th, **kw), elli.Structure(F, two, B).evaluate(lb, th, **kw))


@harness("C16", n=120, sym=False)
def periodic(E):
    """repeated layers against the stack written out"""
    L = E.choose("layers", [1, 2, 3])
    d, lb, th, F, B, ns, ds = isotropic(E, L)
    n = E.choose("n", [1, 2, 3, 5])
    before, after = E.choose("before", [0, 1, 2, 3]), E.choose("after", [0, 1, 2, 3])
    E.assume(before <= L and after <= L)
    lay = [elli.Layer(medium(x), t) for x, t in zip(ns, ds)]
    thin(E, ns, [t * (n + 1) for t in ds], lb)
    kw = solver(E)
    written = (lay[L - before:] if before else []) + lay * n + lay[:after]
    a = elli.Structure(F, [elli.RepeatedLayers(lay, n, before, after)], B).evaluate(lb, th, **kw)
    b = elli.Structure(F, written, B).evaluate(lb, th, **kw)
    diagonal(E, a, b)
