"""C09 Mueller matrices"""
import numpy as np

import elli
from elli.result import Result
from ..engine import harness
from .common import result, JS, BOX, jones, bare_experiment


def stokes(m, a, b):
    """Stokes parameters of (arrays of) Jones vectors in the convention of C07"""
    ab = a * m.conj(b)
    return [m.abs(a) ** 2 + m.abs(b) ** 2, m.abs(a) ** 2 - m.abs(b) ** 2, 2 * m.real(ab), -2 * m.imag(ab)]


@harness("C09", n=60)
def maps_stokes_vectors(E):
    m = E.m
    r, Jr, Jt, _, ex = result(E)
    a = E.cplx("Ep", *BOX, special=JS)
    b = E.cplx("Es", *BOX, special=JS)
    M = r.mueller_matrix
    E.true("shape", M.shape[1:] == (4, 4))
    S = stokes(m, a, b)
    out = stokes(m, Jr[:, 0, 0] * a + Jr[:, 0, 1] * b, Jr[:, 1, 0] * a + Jr[:, 1, 1] * b)
    norm = (m.abs(Jr[:, 0, 0]) ** 2 + m.abs(Jr[:, 0, 1]) ** 2 + m.abs(Jr[:, 1, 0]) ** 2 + m.abs(Jr[:, 1, 1]) ** 2) / 2
    for i in range(4):
        got = M[:, i, 0] * S[0] + M[:, i, 1] * S[1] + M[:, i, 2] * S[2] + M[:, i, 3] * S[3]
        E.eq(f"S{i} of the reflected light", got * norm, out[i], scale=1)


@harness("C09", n=60)
def real_and_normalised(E):
    m = E.m
    r, Jr, Jt, _, ex = result(E)
    M = r.mueller_matrix
    E.eq("M11 = 1", M[:, 0, 0], 1.0)
    E.eq("real", m.imag(M), 0.0 * m.real(M), atol=1e-15)
    if not E.sym:
        E.true("real dtype", np.isrealobj(M))


@harness("C09", n=60)
def common_factor(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    J = jones(E, "Jr", d)
    c = E.carray("c", (d,), *BOX, special=(1, -1, 1j, 2, 0.5 - 0.5j))
    E.assume(m.abs(c) > 1e-2)
    ex = bare_experiment(lb)
    M1 = Result(ex, J, J).mueller_matrix
    M2 = Result(ex, c[:, None, None] * J, J).mueller_matrix
    for i in range(4):
        for j in range(4):
            E.eq(f"M{i + 1}{j + 1} unchanged", M2[:, i, j], M1[:, i, j], scale=1)


@harness("C09", n=40)
def closed_form(E):
    """all elements from the amplitudes (textbook formulas in the same Stokes convention)"""
    m = E.m
    r, J, Jt, _, ex = result(E)
    M = r.mueller_matrix
    pp, ps, sp, ss = J[:, 0, 0], J[:, 0, 1], J[:, 1, 0], J[:, 1, 1]
    A = lambda x: m.abs(x) ** 2
    c = m.conj
    n = (A(pp) + A(ps) + A(sp) + A(ss)) / 2
    W = {
        (0, 1): (A(pp) - A(ps) + A(sp) - A(ss)) / 2, (1, 0): (A(pp) + A(ps) - A(sp) - A(ss)) / 2,
        (1, 1): (A(pp) - A(ps) - A(sp) + A(ss)) / 2,
        (0, 2): m.real(pp * c(ps) + sp * c(ss)), (1, 2): m.real(pp * c(ps) - sp * c(ss)),
        (0, 3): m.imag(pp * c(ps) + sp * c(ss)), (1, 3): m.imag(pp * c(ps) - sp * c(ss)),
        (2, 0): m.real(pp * c(sp) + ps * c(ss)), (2, 1): m.real(pp * c(sp) - ps * c(ss)),
        (3, 0): -m.imag(pp * c(sp) + ps * c(ss)), (3, 1): -m.imag(pp * c(sp) - ps * c(ss)),
        (2, 2): m.real(pp * c(ss) + ps * c(sp)), (2, 3): m.imag(pp * c(ss) - ps * c(sp)),
        (3, 2): -m.imag(pp * c(ss) + ps * c(sp)), (3, 3): m.real(pp * c(ss) - ps * c(sp)),
    }
    for (i, j), w in W.items():
        E.eq(f"M{i + 1}{j + 1}", M[:, i, j] * n, w, scale=1)
