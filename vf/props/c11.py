"""C11 result lists"""
import numpy as np

import elli
from elli.result import Result, ResultList
from ..engine import harness
from ..sym import SymLen
from ..terms import Dim
from ..members import members as any_members
from .common import JS, BOX, jones, bare_experiment

NAMES = ["rho", "psi", "delta", "R", "T", "R_pp", "T_sp", "r_sp", "t_ss", "psi_pp", "delta_sp", "rho_ps", "rc_LR", "Tc_RL",
         "mueller_matrix", "jones_matrix_r", "psi_matrix", "R_matrix", "T_matrix", "rho_matrix_t", "psi_t", "delta_t",
         "rho_t", "Rc_matrix", "jones_matrix_tc", "mueller_matrix_23", "Ψ", "Δ_pp", "delta_matrix_t"]


def members(E, k, d):
    out = []
    for i in range(k):
        lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
        Jr = jones(E, f"Jr{i}", d)
        Jt = jones(E, f"Jt{i}", d)
        pc = E.rarray(f"pc{i}", (d,), 0.0, 4.0)
        # with the diagonal incident vector the denominator of rho must not vanish
        E.assume(E.m.abs(Jr[:, 1, 0] + Jr[:, 1, 1]) > 1e-2)
        E.assume(E.m.abs(Jt[:, 1, 0] + Jt[:, 1, 1]) > 1e-2)
        out.append(Result(bare_experiment(lb), Jr, Jt, pc))
    return out


def build(E, rs):
    how = E.choose("how", ["constructor", "append", "mixed"])
    if how == "constructor":
        return ResultList(list(rs))
    if how == "append":
        L = ResultList()
        for r in rs:
            L.append(r)
        return L
    L = ResultList(list(rs[:1]))
    for r in rs[1:]:
        L.append(r)
    return L


COUNT = "lists of 1, 2 and 3 members"


@harness("C11", n=60, bounded=COUNT)
def stacked(E):
    m = E.m
    k = E.choose("members", [1, 2, 3])
    d = E.dim("N")
    rs = members(E, k, d)
    L = build(E, rs)
    E.true("length", len(L) == k)
    for nm in NAMES:
        got = getattr(L, nm)
        want = m.squeeze(m.array([getattr(r, nm) for r in rs]))
        E.eq(nm, got, want, scale=1)


@harness("C11", n=60, bounded=COUNT)
def stacked_in_order(E):
    """member i of the stack is member i of the list (more than one wavelength)"""
    k = E.choose("members", [2, 3])
    d = E.dim("N", 2)
    rs = members(E, k, d)
    L = build(E, rs)
    for nm in NAMES:
        got = getattr(L, nm)
        for i, r in enumerate(rs):
            E.eq(f"{nm} member", got[i], getattr(r, nm), scale=1)
    for i, r in enumerate(rs):
        E.true("same member", L.results[i] is r)


@harness("C11", n=60, bounded=COUNT)
def averaged(E):
    k = E.choose("members", [1, 2, 3])
    d = E.dim("N")
    rs = members(E, k, d)
    L = build(E, rs)
    A = L.mean
    for nm in NAMES:
        got = getattr(A, nm)
        vals = [getattr(r, nm) for r in rs]
        s = vals[0]
        for v in vals[1:]:
            s = s + v
        E.eq(nm, got, s / k, scale=1)
        E.true(f"shape {nm}", got.shape == vals[0].shape)
    E.raises("a mean has no mean", ValueError, lambda: A.mean)
    E.true("list unchanged", len(L) == k)


@harness("C11", n=20, bounded=COUNT)
def lists_are_separate(E):
    d = E.dim("N", 2)
    rs = members(E, 2, d)
    A, B = ResultList(), ResultList()
    A.append(rs[0])
    E.true("a new list is empty", len(B) == 0 and len(ResultList()) == 0)
    B.append(rs[1])
    E.true("one member each", len(A) == 1 and len(B) == 1)
    E.true("members", A.results[0] is rs[0] and B.results[0] is rs[1])


@harness("C11", n=40, bounded=COUNT)
def grown_after_use(E):
    """a list that has been read, and averaged, before a member is appended"""
    m = E.m
    k = E.choose("members", [1, 2])
    d = E.dim("N", 2)
    rs = members(E, k + 1, d)
    L = build(E, rs[:k])
    nm = E.choose("name", ["rho", "psi", "delta", "R", "R_pp", "mueller_matrix", "rho_matrix_t"])
    getattr(L, nm)
    if E.choose("averaged before", [True, False]):
        getattr(L.mean, nm)
    L.append(rs[k])
    E.true("length", len(L) == k + 1)
    got = getattr(L, nm)
    for i, r in enumerate(rs):
        E.eq("stack member", got[i], getattr(r, nm), scale=1)
    s = getattr(rs[0], nm)
    for r in rs[1:]:
        s = s + getattr(r, nm)
    E.eq("mean", getattr(L.mean, nm), s / (k + 1), scale=1)


def many(E, minimum):
    """K members, K arbitrary"""
    m = E.m
    d = E.dim("N", minimum)
    full = {}

    def make(K, take):
        if not full:
            full["lb"] = E.rarray("lbda", (K, d), 150.0, 3000.0)
            for w in ("Jr", "Jt"):
                J = full[w] = E.carray(w, (K, d, 2, 2), *BOX, special=JS)
                E.assume(m.abs(J[:, :, 1, 1]) > 1e-2)
                E.assume(m.abs(J[:, :, 1, 0] + J[:, :, 1, 1]) > 1e-2)
            full["pc"] = E.rarray("pc", (K, d), 0.0, 4.0)
        return Result(bare_experiment(take(full["lb"])), take(full["Jr"]), take(full["Jt"]), take(full["pc"]))
    return any_members(E, "K", make, minimum)


def any_list(name, minimum, n):
    """the stack (more than one member and wavelength: nothing is squeezed away) and the mean for one quantity"""
    @harness("C11", name=f"many:{name}", n=n)
    def h(E):
        m = E.m
        K, rs = many(E, minimum)
        L = ResultList(rs)
        E.true("length", L.__len__() == (SymLen(K) if isinstance(K, Dim) else K))
        want = m.array([getattr(r, name) for r in rs])
        if minimum > 1:
            E.eq("stack", getattr(L, name), want, scale=1)
        A = L.mean
        E.eq("mean", getattr(A, name), m.mean(want, axis=0), scale=1)
        E.raises("a mean has no mean", ValueError, lambda: A.mean)
    return h


for _nm in NAMES:
    any_list(_nm, 2, 4)
