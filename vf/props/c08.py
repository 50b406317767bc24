"""C08 psi, delta and rho"""
import numpy as np

from elli.result import Result
from elli.utils import DeltaRange
from ..engine import harness
from .common import result, JS, BOX, jones, bare_experiment


def vector(E):
    a = E.cplx("Ep", *BOX, special=JS)
    b = E.cplx("Es", *BOX, special=JS)
    return a, b


def pick(E, r, J, side):
    return {"r": (r.rho, r.psi, r.delta), "t": (r.rho_t, r.psi_t, r.delta_t)}[side]


@harness("C08", n=60)
def rho_of_incident_vector(E):
    m = E.m
    a, b = vector(E)
    v = m.array([a, b])
    r, Jr, Jt, _, ex = result(E, vector=v)
    for side, J in (("r", Jr), ("t", Jt)):
        num = J[:, 0, 0] * a + J[:, 0, 1] * b
        den = J[:, 1, 0] * a + J[:, 1, 1] * b
        E.assume(m.abs(den) > 1e-2)
        rho = r.rho if side == "r" else r.rho_t
        E.eq(f"rho {side}", rho, num / den, scale=1)
    for side, J in (("r", Jr), ("t", Jt)):
        M = r.rho_matrix if side == "r" else r.rho_matrix_t
        for i in range(2):
            for j in range(2):
                E.eq(f"rho matrix {side}{i}{j}", M[:, i, j], J[:, i, j] / J[:, 1, 1], scale=1)


def ranges(E):
    k = E.choose("range", ["default", "set", "half"])
    return k


def use_range(E, r):
    k = E.choose("range", ["default", "set", "set twice"])
    if k == "default":
        return r, -180, 180
    lo = E.integer("lower", -360, 0)
    if k == "set":
        q = r.as_delta_range(lo, lo + 360)
    else:
        q = r.as_delta_range(0, 180).as_delta_range(lo, lo + 360)
    return q, lo, lo + 360


def check(E, tag, rho, psi, delta, lo, want):
    m = E.m
    E.eq(f"{tag}: tan(psi) exp(-i delta) = rho", m.tan(m.deg2rad(psi)) * m.exp(-1j * m.deg2rad(delta)), want,
         scale=1, rtol=1e-5)
    E.eq(f"{tag}: rho", rho, want, scale=1)
    E.true(f"{tag}: psi >= 0", psi >= 0)
    E.true(f"{tag}: psi <= 90", psi <= 90)
    if E.sym:
        E.true(f"{tag}: delta >= lower", delta >= lo)
        E.true(f"{tag}: delta < upper", delta < lo + 360)
    else:
        # rounding may carry a phase of -0 to the upper end
        E.true(f"{tag}: delta >= lower", delta >= lo - 1e-9)
        E.true(f"{tag}: delta < upper", delta < lo + 360 + 1e-9)


@harness("C08", n=60)
def psi_delta(E):
    m = E.m
    a, b = vector(E)
    side = E.choose("side", ["r", "t"])
    r, Jr, Jt, _, ex = result(E, vector=m.array([a, b]))
    J = Jr if side == "r" else Jt
    num = J[:, 0, 0] * a + J[:, 0, 1] * b
    den = J[:, 1, 0] * a + J[:, 1, 1] * b
    E.assume(m.abs(den) > 1e-2)
    r, lo, hi = use_range(E, r)
    rho, psi, delta = pick(E, r, J, side)
    check(E, side, rho, psi, delta, lo, num / den)


@harness("C08", n=60)
def psi_delta_matrices(E):
    m = E.m
    side = E.choose("side", ["r", "t"])
    r, Jr, Jt, _, ex = result(E)
    J = Jr if side == "r" else Jt
    r, lo, hi = use_range(E, r)
    M, P, D = ((r.rho_matrix, r.psi_matrix, r.delta_matrix) if side == "r"
               else (r.rho_matrix_t, r.psi_matrix_t, r.delta_matrix_t))
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
        check(E, f"{side}{i}{j}", M[:, i, j], P[:, i, j], D[:, i, j], lo, J[:, i, j] / J[:, 1, 1])


@harness("C08", n=60)
def folded(E):
    m = E.m
    a, b = vector(E)
    side = E.choose("side", ["r", "t"])
    r, Jr, Jt, _, ex = result(E, vector=m.array([a, b]))
    J = Jr if side == "r" else Jt
    num = J[:, 0, 0] * a + J[:, 0, 1] * b
    den = J[:, 1, 0] * a + J[:, 1, 1] * b
    E.assume(m.abs(den) > 1e-2)
    full = r.rho if side == "r" else r.rho_t
    dfull = r.delta if side == "r" else r.delta_t
    q = r.as_delta_range(0, 180)
    rho, psi, delta = pick(E, q, J, side)
    w = num / den
    E.eq("real part kept", m.real(rho), m.real(w), scale=1)
    E.eq("imaginary part folded", m.imag(rho), -m.abs(m.imag(w)), scale=1)
    E.eq("tan(psi) exp(-i delta) = rho", m.tan(m.deg2rad(psi)) * m.exp(-1j * m.deg2rad(delta)), rho,
         scale=1, rtol=1e-5)
    if E.sym:
        E.true("delta >= 0", delta >= 0)
        E.true("delta <= 180", delta <= 180)
    else:
        E.true("delta >= 0", delta >= -1e-9)
        E.true("delta <= 180", delta <= 180 + 1e-9)
    M, P, D = ((q.rho_matrix, q.psi_matrix, q.delta_matrix) if side == "r"
               else (q.rho_matrix_t, q.psi_matrix_t, q.delta_matrix_t))
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
        check(E, f"matrix not folded {i}{j}", M[:, i, j], P[:, i, j], D[:, i, j], 0, J[:, i, j] / J[:, 1, 1])
    E.eq("cos of folded delta", m.cos(m.deg2rad(delta)), m.cos(m.deg2rad(dfull)), scale=1)
    if not E.sym:
        near = np.abs(np.abs(np.angle(w))) > 1e-6
        E.true("delta is |delta|", np.all(np.abs(delta - np.abs(np.mod(dfull + 180, 360) - 180))[near] < 1e-6))


@harness("C08", n=40)
def range_rejected(E):
    lo = E.integer("lower", -800, 800)
    hi = E.integer("upper", -800, 800)
    r, Jr, Jt, _, ex = result(E)
    ok = E.choose("kind", ["ints", "types"])
    if ok == "types":
        bad = E.choose("bad", [(-180.0, 180), (-180, 180.0), ("a", 180), (None, 180), (-180, None), (-180.5, 180.5)])
        E.raises("non integers rejected", TypeError, lambda: r.as_delta_range(*bad))
        return
    if not E.sym:
        if not E.choose("free", [True, False]):
            hi = lo + E.choose("d", [0, 90, 180, 359, 361, 720])
    good360 = (hi - lo == 360) & (lo >= -360) & (lo <= 0)
    E.assume(~(hi - lo == 360) if E.sym else not (hi - lo == 360))
    E.assume(~((lo == 0) & (hi == 180)) if E.sym else not (lo == 0 and hi == 180))
    E.raises("neither 360 wide nor (0, 180)", ValueError, lambda: r.as_delta_range(lo, hi))
