"""Contracts of the matrix exponential, the eigenvalue decomposition and sorting."""
from __future__ import annotations
import itertools

import numpy as np
import mpmath

from . import terms as T
from . import sym as S
from .sym import Sym, SymArray, Unsupported, parts, mk, vec
from . import shims


class Ctx:
    cur = None   # the engine's current run


# ---------------------------------------------------------------- matrix exponential
def _mm(A, B):
    n = len(A)
    return [[_sum(T.mul(A[i][k], B[k][j]) for k in range(n)) for j in range(n)] for i in range(n)]


def _sum(xs):
    r = T.ZERO
    for x in xs:
        r = T.add(r, x)
    return r


def expm(x):
    a, d, k, m = parts(x)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2] or d[-1] is not None or d[-2] is not None:
        raise Unsupported("matrix exponential of a non-square array")
    shims.used("matrix exponential (scipy.linalg.expm, torch.linalg.matrix_exp)",
               "returns sum A^k/k!; closed forms for A^2=sI and A^3=sA, otherwise uninterpreted")
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        E = _expm1([[a[b + (i, j)] for j in range(n)] for i in range(n)])
        for i in range(n):
            for j in range(n):
                out[b + (i, j)] = E[i][j]
        if Ctx.cur is not None:
            Ctx.cur.expm_calls.append(([[a[b + (i, j)] for j in range(n)] for i in range(n)], E))
    return mk(out, d, S.kmax(k, "f"))


def _expm1(A):
    n = len(A)
    R = range(n)
    if all(A[i][j] is T.ZERO for i in R for j in R):
        return [[T.ONE if i == j else T.ZERO for j in R] for i in R]
    if all(A[i][j] is T.ZERO for i in R for j in R if i != j):
        return [[T.fn("exp", A[i][i]) if i == j else T.ZERO for j in R] for i in R]
    zero = Ctx.cur.quick_zero if Ctx.cur is not None else (lambda n: n is T.ZERO)
    real = all(A[i][j].real for i in R for j in R)
    try:
        A2 = _mm(A, A)
        s = A2[0][0]
        if all(zero(A2[i][j]) for i in R for j in R if i != j) and \
                all(zero(T.sub(A2[i][i], s)) for i in R if i):
            c = T.fn("coshr", s, real=real or None)
            h = T.fn("sinhcr", s, real=real or None)
            return [[T.add(c if i == j else T.ZERO, T.mul(h, A[i][j])) for j in R] for i in R]
        A3 = _mm(A2, A)
        p = next(((i, j) for i in R for j in R if A[i][j] is not T.ZERO))
        s = T.div(A3[p[0]][p[1]], A[p[0]][p[1]])
        # for a skew matrix the divisor may vanish; use the trace instead: tr(A^2) = 2 s when A^3 = sA has rank two
        if n == 3:
            s = T.div(_sum(A2[i][i] for i in R), T.TWO)
        if all(zero(T.sub(A3[i][j], T.mul(s, A[i][j]))) for i in R for j in R):
            h = T.fn("sinhcr", s, real=real or None)
            c = T.fn("coshcr", s, real=real or None)
            return [[_sum([T.ONE if i == j else T.ZERO, T.mul(h, A[i][j]), T.mul(c, A2[i][j])]) for j in R] for i in R]
    except Unsupported:
        pass
    args = [A[i][j] for i in R for j in R]
    return [[T.fn("expm", *args, real=real or None, pl=(n, i, j)) for j in R] for i in R]


_cache = {}


def _mat(args, n):
    return mpmath.matrix([[args[i * n + j] for j in range(n)] for i in range(n)])


def _ev_expm(mp, pl, *args):
    n, i, j = pl
    key = ("e", mp.dps, tuple(args))
    E = _cache.get(key)
    if E is None:
        if len(_cache) > 200:
            _cache.clear()
        old = mpmath.mp.dps
        mpmath.mp.dps = mp.dps
        try:
            E = mpmath.expm(_mat(args, n))
        finally:
            mpmath.mp.dps = old
        _cache[key] = E
    return mp.mpc(E[i, j])


def _ev_eig(mp, args, n):
    key = ("w", mp.dps, tuple(args))
    E = _cache.get(key)
    if E is None:
        if len(_cache) > 200:
            _cache.clear()
        old = mpmath.mp.dps
        mpmath.mp.dps = mp.dps
        try:
            E = mpmath.eig(_mat(args, n))
        except Exception as e:
            raise T.EvalError(f"eig: {e}")
        finally:
            mpmath.mp.dps = old
        _cache[key] = E
    return E


def _ev_eigval(mp, pl, *args):
    n, k = pl
    return mp.mpc(_ev_eig(mp, args, n)[0][k])


def _ev_eigvec(mp, pl, *args):
    n, i, k = pl
    E, ER = _ev_eig(mp, args, n)
    nrm = mp.sqrt(sum(abs(ER[j, k]) ** 2 for j in range(n)))
    return mp.mpc(ER[i, k] / nrm)


def _sq(mp, s):
    return mp.sqrt(mp.mpc(s))


def _ev_sinhcr(mp, pl, s):
    if abs(s) < mp.mpf(10) ** (-mp.dps // 2):
        return mp.mpc(1) + s / 6
    r = _sq(mp, s)
    return mp.sinh(r) / r


def _ev_coshcr(mp, pl, s):
    if abs(s) < mp.mpf(10) ** (-mp.dps // 3):
        return mp.mpc(1) / 2 + s / 24 + s * s / 720
    return (mp.cosh(_sq(mp, s)) - 1) / s


T.SPECIAL.update({
    "expm": _ev_expm, "eigval": _ev_eigval, "eigvec": _ev_eigvec,
    "coshr": lambda mp, pl, s: mp.cosh(_sq(mp, s)),
    "sinhcr": _ev_sinhcr, "coshcr": _ev_coshcr,
    "asinsign": lambda mp, pl, x: mp.mpf(-1 if mp.im(x) == 0 and mp.re(x) > 1 else 1),
    "cosasin": lambda mp, pl, x: mp.cos(mp.asin(x)),
    "erf": lambda mp, pl, x: mp.mpc(mp.erf(x)),
})


# ---------------------------------------------------------------- eigenvalues
def eig(x):
    a, d, k, m = parts(x)
    if a.shape[-1] != a.shape[-2] or a.ndim < 2 or d[-1] is not None or d[-2] is not None:
        raise Unsupported("eig")
    shims.used("numpy.linalg.eig", "returns q, W with A W = W diag(q), W invertible (A diagonalisable); any order")
    n = a.shape[-1]
    q = np.empty(a.shape[:-1], dtype=object)
    w = np.empty(a.shape, dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        A = [[a[b + (i, j)] for j in range(n)] for i in range(n)]
        args = [A[i][j] for i in range(n) for j in range(n)]
        for kk in range(n):
            q[b + (kk,)] = T.fn("eigval", *args, pl=(n, kk))
            for i in range(n):
                w[b + (i, kk)] = T.fn("eigvec", *args, pl=(n, i, kk))
        if Ctx.cur is not None:
            Ctx.cur.eig_calls.append((A, [q[b + (kk,)] for kk in range(n)],
                                      [[w[b + (i, kk)] for kk in range(n)] for i in range(n)]))
    return mk(q, d[:-1], "c"), mk(w, d, "c")


def _le(p, q, later):
    """p sorts before q (p < q, or p == q and later)"""
    return T.bor(T.cmp("<", p, q), T.band(T.cmp("==", p, q), later))


def _sort(keys):
    """keys: list of object arrays (..., n), first = most significant; returns a SymArray of indices, forking"""
    arrs = [parts(k) for k in keys]
    a0, d0 = arrs[0][0], arrs[0][1]
    if d0[-1] is not None:
        raise Unsupported("sort along a symbolic axis")
    n = a0.shape[-1]
    if n > 4:
        raise Unsupported("sort of more than four symbolic keys")
    out = np.empty(a0.shape, dtype=object)
    shims.used("numpy.lexsort/argsort", "returns a permutation that sorts the keys in ascending order")
    for b in np.ndindex(*a0.shape[:-1]):
        perms = list(itertools.permutations(range(n)))
        p = perms[Ctx.cur.choose_index("sort", len(perms))]
        for i in range(n - 1):
            cond = T.TRUE
            for (a, _, _, _) in reversed(arrs):
                cond = _le(a[b + (p[i],)], a[b + (p[i + 1],)], cond)
            Ctx.cur.assume_node(cond)
        for i in range(n):
            out[b + (i,)] = T.const(p[i])
    return SymArray(out, d0, "i")


def lexsort(keys):
    if isinstance(keys, (SymArray, np.ndarray)):
        keys = [keys[i] for i in range(len(keys))]
    return _sort(list(reversed(list(keys))))


def argsort(x):
    return _sort([x])


def take_along_axis(x, idx, axis=-1):
    a, d, k, m = parts(x)
    ia, idd, ik, im_ = parts(idx)
    if a.ndim != ia.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    axis %= a.ndim
    if not all(n.op == "c" for n in ia.flat):
        raise Unsupported("take_along_axis with symbolic indices")
    if d[axis] is not None:
        raise Unsupported("take_along_axis on a symbolic axis")
    shape = []
    for i in range(a.ndim):
        if i == axis:
            shape.append(ia.shape[i])
        else:
            shape.append(max(a.shape[i], ia.shape[i]))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        j = tuple(0 if ia.shape[q] == 1 else i[q] for q in range(a.ndim))
        t = int(ia[j].pl[0])
        src = tuple(t if q == axis else (0 if a.shape[q] == 1 else i[q]) for q in range(a.ndim))
        out[i] = a[src]
    dims = tuple(d[q] if q == axis else (d[q] if d[q] is not None else idd[q]) for q in range(a.ndim))
    return mk(out, dims, k)
