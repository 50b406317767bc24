"""C10 named access"""
import numpy as np

from elli.result import Result
from ..engine import harness
from .common import result, JS, BOX, jones, bare_experiment

PS = {"p": 0, "s": 1}
LR = {"L": 0, "R": 1}


def both(E, label, r, name, want):
    E.eq(label, getattr(r, name), want, scale=1)
    E.eq(label + " by get()", r.get(name), want, scale=1)


@harness("C10", n=40)
def linear_elements(E):
    m = E.m
    r, Jr, Jt, pc, ex = result(E, power=True)
    for a, i in PS.items():
        for b, j in PS.items():
            both(E, f"r_{a}{b}", r, f"r_{a}{b}", Jr[:, i, j])
            both(E, f"t_{a}{b}", r, f"t_{a}{b}", Jt[:, i, j])
            both(E, f"R_{a}{b}", r, f"R_{a}{b}", m.abs(Jr[:, i, j]) ** 2)
            both(E, f"T_{a}{b}", r, f"T_{a}{b}", m.abs(Jt[:, i, j]) ** 2 * pc)
            E.eq(f"R_matrix {a}{b}", r.R_matrix[:, i, j], m.abs(Jr[:, i, j]) ** 2)
            E.eq(f"T_matrix {a}{b}", r.T_matrix[:, i, j], m.abs(Jt[:, i, j]) ** 2 * pc)
    both(E, "R", r, "R", (m.abs(Jr[:, 0, 0]) ** 2 + m.abs(Jr[:, 1, 1]) ** 2) / 2)
    both(E, "T", r, "T", (m.abs(Jt[:, 0, 0]) ** 2 + m.abs(Jt[:, 1, 1]) ** 2) / 2 * pc)
    E.eq("jones_matrix_r", r.jones_matrix_r, Jr)
    E.eq("jones_matrix_t", r.jones_matrix_t, Jt)
    both(E, "r", r, "r", Jr)
    both(E, "t", r, "t", Jt)


@harness("C10", n=40)
def power_default(E):
    """without a power correction T is |t|^2"""
    m = E.m
    r, Jr, Jt, pc, ex = result(E)
    for a, i in PS.items():
        for b, j in PS.items():
            both(E, f"T_{a}{b}", r, f"T_{a}{b}", m.abs(Jt[:, i, j]) ** 2)


@harness("C10", n=40)
def ellipsometric_elements(E):
    r, Jr, Jt, pc, ex = result(E)
    k = E.choose("range", ["default", "set"])
    if k == "set":
        lo = E.integer("lower", -360, 0)
        r = r.as_delta_range(lo, lo + 360)
    for q, greek in (("psi", "Ψ"), ("delta", "Δ"), ("rho", "ρ")):
        M = getattr(r, q + "_matrix")
        for a, i in PS.items():
            for b, j in PS.items():
                for nm in (q, greek):
                    both(E, f"{nm}_{a}{b}", r, f"{nm}_{a}{b}", M[:, i, j])
        both(E, greek, r, greek, getattr(r, q))


@harness("C10", n=40)
def matrix_names(E):
    """explicitly numbered or lettered elements of every matrix attribute"""
    r, Jr, Jt, pc, ex = result(E, power=True)
    for nm in ("mueller_matrix",):
        M = r.mueller_matrix
        for i in range(4):
            for j in range(4):
                both(E, f"{nm}_{i + 1}{j + 1}", r, f"{nm}_{i + 1}{j + 1}", M[:, i, j])
    for nm in ("rho_matrix", "psi_matrix_t", "delta_matrix_t", "rho_matrix_t", "R_matrix", "T_matrix", "jones_matrix_t"):
        M = getattr(r, nm)
        for a, i in PS.items():
            for b, j in PS.items():
                both(E, f"{nm}_{a}{b}", r, f"{nm}_{a}{b}", M[:, i, j])
                both(E, f"{nm}_{i + 1}{j + 1}", r, f"{nm}_{i + 1}{j + 1}", M[:, i, j])


@harness("C10", n=40)
def circular_elements(E):
    m = E.m
    r, Jr, Jt, pc, ex = result(E, power=True)
    h = 0.5
    # columns: the basis vectors (1, i)/sqrt2 and (1, -i)/sqrt2; the reflected basis is reversed
    for tag, J, sg in (("r", Jr, -1), ("t", Jt, 1)):
        pp, ps, sp, ss = J[:, 0, 0], J[:, 0, 1], J[:, 1, 0], J[:, 1, 1]
        W = {}
        for x, cx in (("L", 1j), ("R", -1j)):      # incoming
            op, os_ = pp + ps * cx, sp + ss * cx
            for y, cy in (("L", 1j), ("R", -1j)):  # outgoing amplitude along basis y
                W[y + x] = sg * h * (op + os_ / cy)
        M = r.jones_matrix_rc if tag == "r" else r.jones_matrix_tc
        P = r.Rc_matrix if tag == "r" else r.Tc_matrix
        for y, i in LR.items():
            for x, j in LR.items():
                w = W[y + x]
                both(E, f"{tag}c_{y}{x}", r, f"{tag}c_{y}{x}", w)
                E.eq(f"jones_matrix_{tag}c {y}{x}", M[:, i, j], w, scale=1)
                p = m.abs(w) ** 2 * (pc if tag == "t" else 1)
                both(E, f"{tag.upper()}c_{y}{x}", r, f"{tag.upper()}c_{y}{x}", p)
                E.eq(f"{tag.upper()}c_matrix {y}{x}", P[:, i, j], p, scale=1)


@harness("C10", n=6)
def unknown_names(E):
    r, Jr, Jt, pc, ex = result(E)
    for nm in ("q_pp", "x", "Q", "rx_pp", "foo_12", "Psi", "jones", "mueller", "psi_xy", "r_5p", "mueller_matrix_55",
               "rho_0p", "r_p", "r_pps", "T_ab", "rc_QL", "delta_matrix_zz"):
        E.raises(f"{nm} rejected", (AttributeError, ValueError, IndexError), lambda nm=nm: getattr(r, nm))
        E.raises(f"{nm} rejected by get()", (AttributeError, ValueError, IndexError), lambda nm=nm: r.get(nm))
