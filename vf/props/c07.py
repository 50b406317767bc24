"""C07 Jones and Stokes vectors of the incident light"""
import numpy as np

import elli
from ..engine import harness


def experiment(vec):
    air = elli.AIR
    s = elli.Structure(air, [], air)
    return elli.Experiment(s, 500, 60, vec)


def stokes_of(m, a, b):
    ab = a * m.conj(b)
    return [m.abs(a) ** 2 + m.abs(b) ** 2, m.abs(a) ** 2 - m.abs(b) ** 2, 2 * m.real(ab), -2 * m.imag(ab)]


@harness("C07", n=80)
def from_jones(E):
    m = E.m
    sp = (0, 1, -1, 1j, 0.5, -0.5j)
    a = E.cplx("a", (-3.0, 3.0), (-3.0, 3.0), special=sp)
    b = E.cplx("b", (-3.0, 3.0), (-3.0, 3.0), special=sp)
    how = E.choose("how", ["init", "set", "reset"])
    v = m.array([a, b])
    if how == "init":
        ex = experiment(v)
    elif how == "set":
        ex = experiment(None)
        ex.set_vector(v)
    else:
        ex = experiment([1, 0.2, 0.3, 0.1])
        ex.set_vector(v)
    s = stokes_of(m, a, b)
    for i in range(4):
        E.eq(f"stokes{i}", ex.stokes_vector[i], s[i], scale=1)
    E.eq("jones", ex.jones_vector, v)


@harness("C07", n=80)
def from_real_jones(E):
    m = E.m
    a = E.real("a", -3.0, 3.0, special=(0, 1, -1))
    b = E.real("b", -3.0, 3.0, special=(0, 1, -1))
    ex = experiment(m.array([a, b]))
    s = stokes_of(m, a, b)
    for i in range(4):
        E.eq(f"stokes{i}", ex.stokes_vector[i], s[i], scale=1)
    E.eq("jones", ex.jones_vector, m.array([a, b]))


def check_from_stokes(E, ex, S0, S1, S2, S3):
    m = E.m
    P = m.sqrt(S1 ** 2 + S2 ** 2 + S3 ** 2)
    a, b = ex.jones_vector[0], ex.jones_vector[1]
    s = stokes_of(m, a, b)
    E.eq("normalised", s[0], 1.0)
    E.eq("first component real", m.imag(a), 0.0, atol=1e-12)
    E.true("first component non-negative", m.real(a) >= 0)
    for i, x in ((1, S1), (2, S2), (3, S3)):
        E.eq(f"polarised part {i}", s[i], x / P, scale=1, atol=1e-6)
    for i, x in enumerate((S0, S1, S2, S3)):
        E.eq(f"stokes kept {i}", ex.stokes_vector[i], x)


@harness("C07", n=150)
def from_stokes(E):
    m = E.m
    sp = (0.0, 1.0, -1.0, 0.5)
    S0 = E.real("S0", 0.0, 8.0, special=(1.0,), lo_open=True)
    S1 = E.real("S1", -4.0, 4.0, special=sp)
    S2 = E.real("S2", -4.0, 4.0, special=sp)
    S3 = E.real("S3", -4.0, 4.0, special=sp)
    P2 = S1 ** 2 + S2 ** 2 + S3 ** 2
    E.assume(P2 > 1e-4)
    E.assume(S0 ** 2 >= P2 * (1 - 1e-9))   # physical light
    if not E.sym:
        near = 1 + S1 / np.sqrt(P2)
        E.assume(near == 0 or near > 1e-9)
    ex = experiment(m.array([S0, S1, S2, S3]))
    check_from_stokes(E, ex, S0, S1, S2, S3)


@harness("C07", n=40)
def from_stokes_vertical(E):
    m = E.m
    S0 = E.real("S0", 0.0, 4.0, special=(1.0,), lo_open=True)
    d = E.real("d", 0.0, 1.0, lo_open=True)
    S1 = -S0 * d
    z = 0.0 * S0
    ex = experiment(m.array([S0, S1, z, z]))
    if not E.sym:
        E.assume(abs(S1 / S0 + d) == 0)
    check_from_stokes(E, ex, S0, S1, z, z)


@harness("C07", n=8)
def default_is_diagonal(E):
    lb = E.real("lbda", 200.0, 2000.0)
    th = E.real("theta", 0.0, 89.0)
    air = elli.AIR
    how = E.choose("how", ["omitted", "None", "evaluate", "set None"])
    s = elli.Structure(air, [], air)
    if how == "omitted":
        ex = elli.Experiment(s, lb, th)
    elif how == "None":
        ex = elli.Experiment(s, lb, th, None)
    elif how == "set None":
        ex = elli.Experiment(s, lb, th, [1, 0])
        ex.set_vector(None)
    else:
        ex = s.evaluate(500, 60).experiment
    h = E.m.sqrt(0.5) if not E.sym else E.m.sqrt(E.m.array([0.5]))[0]
    E.eq("jones0", ex.jones_vector[0], h)
    E.eq("jones1", ex.jones_vector[1], h)
    for i, x in enumerate((1.0, 0.0, 1.0, 0.0)):
        E.eq(f"stokes{i}", ex.stokes_vector[i], x, atol=1e-12)
