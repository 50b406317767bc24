"""Contracts of the libraries the code calls (numpy, scipy, torch), used when an argument is symbolic.

`install()` replaces, in the namespaces of the elli modules, the numpy module by a proxy and library functions by
wrappers; with concrete arguments the real library function is called."""
from __future__ import annotations
import builtins
import functools
import numbers
import sys
import types
from contextlib import contextmanager

import numpy as np

from . import terms as T
from . import sym as S
from .sym import Sym, SymArray, SymLen, MaskIdx, PermIdx, is_sym, Unsupported, parts, mk, vec

CONTRACTS = {}     # library functions used through a contract in this run: name -> statement
EXPM_HOOK = [None]  # a harness may observe matrix exponentials
EIG = []           # eig contract instances


def used(name, text):
    CONTRACTS[name] = text


def _pd_like(x):
    try:
        import pandas as pd
    except ImportError:
        return False
    return isinstance(x, (pd.Series, pd.DataFrame, pd.Index))


# ---------------------------------------------------------------- numpy functions
NP = {}


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def _unary(name):
    def f(x, *a, **k):
        if a or any(v is not None and v is not True for kk, v in k.items() if kk not in ("dtype",)):
            raise Unsupported(f"np.{name} with extra arguments")
        r = S.unary(name, x)
        return S.cast(r, S.kind_of_dtype(k["dtype"])) if k.get("dtype") is not None else r
    return f


def _binary(name):
    def f(x, y, *a, **k):
        if a or any(v is not None and v is not True for v in k.values()):
            raise Unsupported(f"np.{name} with extra arguments")
        return S.binary(name, x, y)
    return f


for _n in S.UN:
    if _n not in ("dawsn", "digamma", "gamma", "erf"):
        NP[_n] = _unary(_n)
for _n in list(S.BIN) + list(S.LOGIC):
    NP[_n] = _binary(_n)


@reg("angle")
def _angle(z, deg=False):
    r = S.unary("angle", z)
    return S.unary("rad2deg", r) if deg else r


@reg("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray")
def _array(x, dtype=None, copy=True, **kw):
    k = S.kind_of_dtype(dtype) if dtype is not None and dtype is not object else None
    if isinstance(x, types.GeneratorType):
        raise Unsupported("np.array of a generator")
    if isinstance(x, SymLen):
        return Sym(T.fn("len", pl=x.dim.uid, real=True), "i")
    if isinstance(x, (list, tuple)) and not len(x):
        return np.array(x, dtype=dtype)
    return S.build(x, k)


def _asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray):
        k = S.kind_of_dtype(dtype) if dtype is not None else None
        return x if k in (None, x.kind) else S.cast(x, k)
    return _array(x, dtype)


NP["asarray"] = NP["asanyarray"] = NP["ascontiguousarray"] = _asarray


def _shape_of(shape):
    if isinstance(shape, (numbers.Integral, SymLen, Sym)):
        shape = (shape,)
    return tuple(shape)


def _filled(shape, node, kind):
    sh = _shape_of(shape)
    if len(sh) == 1 and hasattr(sh[0], "owner"):
        return sh[0].owner.const(Sym(node, kind), kind)
    if len(sh) == 1 and isinstance(sh[0], Sym):
        from .indexed import filled
        return filled(sh[0], Sym(node, kind), kind)
    dims, size = [], []
    for s in _shape_of(shape):
        if isinstance(s, SymLen):
            dims.append(s.dim)
            size.append(1)
        else:
            dims.append(None)
            size.append(int(s))
    a = np.empty(size, dtype=object)
    a[...] = node
    return mk(a, tuple(dims), kind)


def _filler(node):
    def f(shape, dtype=None, **kw):
        k = S.kind_of_dtype(dtype) or "f"
        return _filled(shape, node if k != "b" else (T.FALSE if node is T.ZERO else T.TRUE), k)
    return f


NP["zeros"] = NP["empty"] = _filler(T.ZERO)
NP["ones"] = _filler(T.ONE)


@reg("full")
def _full(shape, v, dtype=None, **kw):
    a, d, k, m = parts(v)
    kk = S.kind_of_dtype(dtype) or k
    if a.ndim:
        raise Unsupported("np.full with an array")
    return _filled(shape, a[()], kk)


def _like(node):
    def f(x, dtype=None, **kw):
        a, d, k, m = parts(x)
        k = S.kind_of_dtype(dtype) or k
        r = np.empty(a.shape, dtype=object)
        r[...] = node if k != "b" else (T.FALSE if node is T.ZERO else T.TRUE)
        return mk(r, d, k)
    return f


NP["zeros_like"] = NP["empty_like"] = _like(T.ZERO)
NP["ones_like"] = _like(T.ONE)


@reg("full_like")
def _full_like(x, v, dtype=None, **kw):
    a, d, k, m = parts(x)
    k = S.kind_of_dtype(dtype) or k
    va, vd, vk, vm = parts(v)
    r = np.empty(a.shape, dtype=object)
    r[...] = va[()]
    return mk(r, d, k)


@reg("tile")
def _tile(x, reps):
    a, d, k, m = parts(x)
    if isinstance(reps, (numbers.Integral, SymLen)):
        if a.ndim == 0:
            return _filled((reps,), a[()], k)
        if isinstance(reps, numbers.Integral) and all(q is None for q in d):
            return mk(np.tile(a, reps), d, k)
        raise Unsupported("np.tile")
    reps = tuple(reps)
    if a.ndim == 0:
        return _filled(reps, a[()], k)
    if a.ndim <= len(reps):
        a = a.reshape((1,) * (len(reps) - a.ndim) + a.shape)
        d = (None,) * (len(reps) - len(d)) + tuple(d)
        out_d = []
        size = []
        for s, dd, r in zip(a.shape, d, reps):
            if isinstance(r, SymLen):
                if s != 1 or dd is not None:
                    raise Unsupported("np.tile")
                out_d.append(r.dim)
                size.append(1)
            else:
                if dd is not None and r != 1:
                    raise Unsupported("np.tile of a symbolic axis")
                out_d.append(dd)
                size.append(int(r))
        return mk(np.tile(a, size), tuple(out_d), k)
    raise Unsupported("np.tile")


@reg("repeat")
def _repeat(x, n, axis=None):
    a, d, k, m = parts(x)
    if a.size == 1 and all(q is None for q in d) and (axis is None):
        return _filled((n,), a.reshape(-1)[0], k)
    if isinstance(n, numbers.Integral) and all(q is None for q in d):
        return mk(np.repeat(a, n, axis=axis), (None,) * (1 if axis is None else a.ndim), k)
    if axis is not None and d[axis] is None and a.shape[axis] == 1 and isinstance(n, SymLen):
        dd = list(d)
        dd[axis] = n.dim
        return mk(a.copy(), tuple(dd), k)
    raise Unsupported("np.repeat")


@reg("broadcast_to")
def _broadcast_to(x, shape):
    a, d, k, m = parts(x)
    shape = _shape_of(shape)
    out_d, size = [], []
    for s in shape:
        out_d.append(s.dim if isinstance(s, SymLen) else None)
        size.append(1 if isinstance(s, SymLen) else int(s))
    off = len(shape) - a.ndim
    for i in range(a.ndim):
        if d[i] is not None and d[i] is not out_d[i + off]:
            raise Unsupported("broadcast_to")
    return mk(np.broadcast_to(a, size).copy(), tuple(out_d), k)


@reg("arange")
def _arange(*a, **k):
    if a and not set(k) - {"dtype"} and not any(isinstance(v, (SymLen, SymArray)) for v in a):
        from .indexed import arange
        return arange(*a, **k)
    raise Unsupported("np.arange with symbolic bounds")


@reg("linspace")
def _linspace(lo, hi, num=50, endpoint=True, **kw):
    if isinstance(num, Sym) and not kw:
        from .indexed import linspace
        return linspace(lo, hi, num, endpoint)
    if not isinstance(num, numbers.Integral) or kw:
        raise Unsupported("np.linspace with a symbolic number of points")
    la, ld, lk, _ = parts(lo)
    ha, hd, hk, _ = parts(hi)
    if la.ndim or ha.ndim:
        raise Unsupported("np.linspace of arrays")
    lo, hi = la[()], ha[()]
    out = np.empty((num,), dtype=object)
    n = num - 1 if endpoint else num
    for i in range(num):
        if i == 0:
            out[i] = lo
        elif endpoint and i == n:
            out[i] = hi
        else:
            out[i] = T.add(lo, T.mul(T.const(i), T.div(T.sub(hi, lo), T.const(n))))
    return mk(out, (None,), S.kmax(lk, hk, "f"))


@reg("identity", "eye")
def _eye(n, *a, **k):
    raise Unsupported("np.identity of symbolic size")


@reg("vstack", "row_stack")
def _vstack(xs, **kw):
    from .indexed import Indexed, vstack
    if any(isinstance(x, Indexed) for x in xs):
        return vstack(list(xs))
    items = []
    for x in xs:
        a, d, k, m = parts(x)
        if a.ndim == 1:
            a, d = a[None, :], (None,) + tuple(d)
        if a.ndim == 0:
            a, d = a[None, None], (None, None)
        items.append(mk(a, d, k))
    return S.concatenate(items, 0)


@reg("hstack")
def _hstack(xs, **kw):
    if any(isinstance(x, PermIdx) for x in xs):
        raise Unsupported("hstack of permutations")
    xs = list(xs)
    if any(isinstance(x, Joined) for x in xs):
        return _concatenate(xs, 0)
    nd = parts(xs[0])[0].ndim
    return _concatenate(xs, 0 if nd == 1 else 1)


class Joined:
    """one-dimensional arrays of arbitrary length set one behind the other"""
    __array_ufunc__ = None
    _vf_split = True
    ndim = 1

    def __init__(self, pieces):
        self.pieces = pieces

    def _np(self, name, a, k):
        if name in ("concatenate", "hstack", "ravel", "asarray", "array"):
            return NP[name](*a, **k) if name == "concatenate" else self
        if name in ("abs", "absolute", "fabs", "sqrt", "square", "exp", "log", "sign", "real", "imag", "conj", "conjugate", "nan_to_num",
                    "maximum", "minimum", "clip", "where", "add", "subtract", "multiply", "divide", "true_divide",
                    "negative", "power", "isnan", "isfinite", "isinf", "logical_and", "logical_or", "logical_not",
                    "greater", "less", "greater_equal", "less_equal", "equal", "not_equal", "copy") \
                and not any(isinstance(v, Joined) for v in k.values()):
            return self._each(lambda *b: NP[name](*b, **k), *a)
        raise Unsupported(f"np.{name} of arrays of arbitrary length set one behind the other")

    @staticmethod
    def _each(f, *args):
        """f entry by entry: of several such arrays (cut at the same places) and of single numbers"""
        js = [x for x in args if isinstance(x, Joined)]
        for x in js[1:]:
            if [p.dims for p in x.pieces] != [p.dims for p in js[0].pieces]:
                raise Unsupported("arrays set one behind the other, cut at different places")
        for x in args:
            if not isinstance(x, Joined) and np.ndim(parts(x)[0]) > 0:
                raise Unsupported("an array with arrays set one behind the other")
        return Joined([f(*[x.pieces[i] if isinstance(x, Joined) else x for x in args]) for i in range(len(js[0].pieces))])

    def __neg__(self):
        return Joined([-p for p in self.pieces])

    def __abs__(self):
        return Joined([abs(p) for p in self.pieces])

    @property
    def real(self):
        return Joined([NP["real"](p) for p in self.pieces])

    @property
    def imag(self):
        return Joined([NP["imag"](p) for p in self.pieces])

    def copy(self):
        return Joined([p.copy() for p in self.pieces])

    def flatten(self):
        return self

    ravel = flatten

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{k} of arrays of arbitrary length set one behind the other")


def _joined_operators():
    import operator as op
    for n in ("add", "sub", "mul", "truediv", "pow", "and", "or", "lt", "le", "gt", "ge", "eq", "ne"):
        f = getattr(op, n + "_" if n in ("and", "or") else n)
        setattr(Joined, f"__{n}__", lambda x, y, f=f: Joined._each(f, x, y))
        if n in ("add", "sub", "mul", "truediv", "pow", "and", "or"):
            setattr(Joined, f"__r{n}__", lambda x, y, f=f: Joined._each(f, y, x))
    Joined.__hash__ = None


_joined_operators()


@reg("concatenate", "concat")
def _concatenate(xs, axis=0, **kw):
    xs = list(xs)
    if axis in (0, None) and any(isinstance(x, Joined) for x in xs) or (
            axis == 0 and len(xs) > 1 and all(is_sym(x) and isinstance(x, SymArray) and x.a.ndim == 1 and x.dims[0] is not None for x in xs)):
        return Joined([p for x in xs for p in (x.pieces if isinstance(x, Joined) else [x])])
    return S.concatenate(list(xs), axis)


@reg("append")
def _append(x, y, axis=None):
    a, d, k, m = parts(x)
    b, e, kk, m2 = parts(y)
    if axis is None:
        if any(q is not None for q in tuple(d) + tuple(e)):
            raise Unsupported("np.append")
        return S.concatenate([mk(a.reshape(-1), (None,), k) if a.ndim else mk(a.reshape(1), (None,), k),
                              mk(b.reshape(-1), (None,), kk)], 0)
    return S.concatenate([x, y], axis)


@reg("stack")
def _stack(xs, axis=0, **kw):
    return S.stack(list(xs), axis)


@reg("column_stack")
def _column_stack(xs):
    return S.stack(list(xs), 1)


@reg("moveaxis")
def _moveaxis(x, s, d):
    a, dims, k, m = parts(x)
    a2 = np.moveaxis(a, s, d)
    idx = np.moveaxis(np.arange(a.ndim).reshape([-1 if i == 0 else 1 for i in range(a.ndim)]) if False else np.empty(range(1, a.ndim + 1)), s, d).shape
    return mk(a2, tuple(dims[i - 1] for i in idx), k)


@reg("rollaxis")
def _rollaxis(x, ax, start=0):
    raise Unsupported("rollaxis")


@reg("transpose")
def _transpose(x, axes=None):
    x = x if isinstance(x, SymArray) else mk(*parts(x)[:3])
    return x.T if axes is None else x.transpose(*axes)


@reg("swapaxes")
def _swapaxes(x, i, j):
    return mk(*parts(x)[:3]).swapaxes(i, j)


@reg("reshape")
def _reshape(x, shape, **kw):
    return S.reshape(x, shape)


@reg("ravel")
def _ravel(x):
    return mk(*parts(x)[:3]).ravel()


@reg("squeeze")
def _squeeze(x, axis=None):
    return S.squeeze(x, axis)


@reg("expand_dims")
def _expand_dims(x, axis):
    a, d, k, m = parts(x)
    axis = axis % (a.ndim + 1)
    return mk(np.expand_dims(a, axis), tuple(d[:axis]) + (None,) + tuple(d[axis:]), k)


@reg("atleast_1d")
def _atleast_1d(x):
    a, d, k, m = parts(x)
    return x if a.ndim and isinstance(x, SymArray) else (mk(a, d, k) if a.ndim else mk(a.reshape(1), (None,), k))


@reg("shape")
def _shape(x):
    if isinstance(x, (SymArray, Sym)):
        return x.shape
    return mk(*parts(x)[:3]).shape


@reg("ndim")
def _ndim(x):
    return parts(x)[0].ndim


@reg("size")
def _size(x, axis=None):
    return mk(*parts(x)[:3]).size if axis is None else _shape(x)[axis]


@reg("copy")
def _copy(x, **k):
    return x.copy()


@reg("einsum")
def _einsum(*a, **k):
    k.pop("optimize", None)
    if k:
        raise Unsupported("einsum options")
    return S.einsum(*a)


@reg("matmul")
def _matmul(x, y, **k):
    return S.matmul(x, y)


@reg("dot")
def _dot(x, y):
    return S.dot(x, y)


@reg("vdot")
def _vdot(x, y):
    return S.dot(S.unary("conjugate", x), y)


@reg("inner")
def _inner(x, y):
    if parts(x)[0].ndim <= 1 and parts(y)[0].ndim <= 1:
        return S.dot(x, y)
    raise Unsupported("inner")


@reg("outer")
def _outer(x, y):
    return S.einsum("i,j->ij", x, y)


@reg("kron")
def _kron(x, y):
    a, d, k, _ = parts(x)
    b, e, l, _ = parts(y)
    if a.ndim != 2 or b.ndim != 2 or any(q is not None for q in tuple(d) + tuple(e)):
        raise Unsupported("kron")
    r = S.einsum("ij,kl->ikjl", x, y)
    return S.reshape(r, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


@reg("cross")
def _cross(x, y):
    a, d, k, _ = parts(x)
    b, e, l, _ = parts(y)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported("cross")
    out = np.empty(3, dtype=object)
    for i in range(3):
        j, m = (i + 1) % 3, (i + 2) % 3
        out[i] = T.sub(T.mul(a[j], b[m]), T.mul(a[m], b[j]))
    return mk(out, (None,), S.kmax(k, l))


@reg("trace")
def _trace(x, offset=0, axis1=0, axis2=1):
    return S.reduce_sum(mk(*parts(x)[:3]).diagonal(offset, axis1, axis2), -1)


@reg("diagonal")
def _diagonal(x, offset=0, axis1=0, axis2=1):
    return mk(*parts(x)[:3]).diagonal(offset, axis1, axis2)


@reg("diag")
def _diag(x, k=0):
    a, d, kk, _ = parts(x)
    if k:
        raise Unsupported("diag offset")
    if a.ndim == 1 and d[0] is None:
        out = np.empty((len(a), len(a)), dtype=object)
        out[...] = T.ZERO
        for i in range(len(a)):
            out[i, i] = a[i]
        return mk(out, (None, None), kk)
    if a.ndim == 2:
        return mk(*parts(x)[:3]).diagonal()
    raise Unsupported("diag")


@reg("sum")
def _sum(x, axis=None, **k):
    return S.reduce_sum(x, axis, **k)


@reg("nansum")
def _nansum(x, axis=None, **k):
    return S.reduce_sum(x, axis, **k)


@reg("mean", "average")
def _mean(x, axis=None, **k):
    if k:
        raise Unsupported("mean options")
    return S.reduce_mean(x, axis)


@reg("prod")
def _prod(x, axis=None):
    return mk(*parts(x)[:3]).prod(axis)


@reg("any")
def _any(x, axis=None, **k):
    return S.reduce_any(x, axis)


@reg("all")
def _all(x, axis=None, **k):
    return S.reduce_all(x, axis)


@reg("where")
def _where(c, *xy):
    if not xy:
        return MaskIdx(c)
    return S.where(c, *xy)


@reg("nonzero")
def _nonzero(c):
    a, d, k, m = parts(c)
    return MaskIdx(mk(vec(lambda n: S.n_bool(n, k), a), d, "b"))


@reg("flatnonzero", "argwhere")
def _fnz(c):
    raise Unsupported("positions of a symbolic condition")


@reg("diff")
def _diff(x, n=1, axis=-1, prepend=None, append=None):
    for extra, end in ((prepend, 0), (append, 1)):
        if extra is not None:
            ea, ed, ek, em = parts(extra)
            e = SymArray(np.asarray(ea, dtype=object).reshape(1), (None,), ek) if ea.ndim == 0 else extra
            x = S.concatenate([x, e] if end else [e, x], axis)
    a, d, k, m = parts(x)
    axis %= a.ndim
    if d[axis] is not None or n != 1:
        raise Unsupported("diff along a symbolic axis")
    sl1 = [slice(None)] * a.ndim
    sl2 = list(sl1)
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    return S.binary("subtract", mk(a[tuple(sl1)], d, k), mk(a[tuple(sl2)], d, k))


@reg("cumsum")
def _cumsum(x, axis=None):
    a, d, k, m = parts(x)
    if a.ndim != 1 or d[0] is not None:
        raise Unsupported("cumsum")
    out = a.copy()
    for i in range(1, len(out)):
        out[i] = T.add(out[i - 1], out[i])
    return mk(out, d, k)


@reg("flip")
def _flip(x, axis=None):
    a, d, k, m = parts(x)
    axes = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    for ax in axes:
        if d[ax] is not None:
            raise Unsupported("flip of a symbolic axis")
    return mk(np.flip(a, axis), d, k)


@reg("roll")
def _roll(x, n, axis=None):
    a, d, k, m = parts(x)
    if any(q is not None for q in d):
        raise Unsupported("roll")
    return mk(np.roll(a, n, axis), d, k)


@reg("split", "array_split")
def _split(x, n, axis=0):
    raise Unsupported("split")


@reg("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = S.binary("subtract", a, b)
    return S.binary("less_equal", S.unary("absolute", d),
                    S.binary("add", atol, S.binary("multiply", rtol, S.unary("absolute", b))))


@reg("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(S.reduce_all(_isclose(a, b, rtol, atol)))


@reg("array_equal")
def _array_equal(a, b):
    x, y = mk(*parts(a)[:3]), mk(*parts(b)[:3])
    if x.shape != y.shape:
        return False
    return bool(S.reduce_all(S.binary("equal", x, y)))


@reg("isin")
def _isin(x, y, **k):
    raise Unsupported("isin")


@reg("clip")
def _clip(x, lo, hi):
    r = x
    if lo is not None:
        r = S.binary("maximum", r, lo)
    if hi is not None:
        r = S.binary("minimum", r, hi)
    return r


@reg("isscalar")
def _isscalar(x):
    return isinstance(x, Sym)


@reg("iscomplexobj")
def _iscomplexobj(x):
    return parts(x)[2] == "c"


@reg("isrealobj")
def _isrealobj(x):
    return parts(x)[2] != "c"


@reg("nan_to_num")
def _nan_to_num(x, **k):
    return x.copy()


@reg("real_if_close")
def _real_if_close(x, **k):
    raise Unsupported("real_if_close")


@reg("result_type")
def _result_type(*xs):
    return np.result_type(*[x.dtype if isinstance(x, (Sym, SymArray)) else x for x in xs])


@reg("take_along_axis")
def _taa(x, idx, axis=-1):
    from . import eig
    return eig.take_along_axis(x, idx, axis)


@reg("lexsort")
def _lexsort(keys, axis=-1):
    from . import eig
    return eig.lexsort(keys)


@reg("argsort")
def _argsort(x, axis=-1, **k):
    from . import eig
    return eig.argsort(x)


@reg("sort", "unique", "searchsorted", "argmax", "argmin", "interp", "median",
     "count_nonzero", "apply_along_axis", "round", "around", "rint", "histogram", "polyfit",
     "gradient", "trapezoid", "convolve", "meshgrid", "nanmean", "delete", "insert", "piecewise")
def _unsupported(*a, **k):
    raise Unsupported("numpy function without a contract")


class _Vectorize:
    """np.vectorize(f, signature=...) of matrix functions whose contract is already stated matrix by matrix"""

    def __init__(self, pyfunc, *a, **k):
        self.f, self.a, self.k = pyfunc, a, k

    def __call__(self, *args, **kw):
        if not (any(is_sym(x) for x in args) or any(is_sym(x) for x in kw.values())):
            return np.vectorize(self.f, *self.a, **self.k)(*args, **kw)
        if self.k.get("signature", "").replace(" ", "") not in ("(n,n)->(n,n)", "(m,m)->(m,m)", "(i,i)->(i,i)") or \
                set(self.k) != {"signature"} or self.a or kw or len(args) != 1:
            raise Unsupported("np.vectorize of this function")
        if getattr(self.f, "__name__", "") not in ("expm", "inv"):
            raise Unsupported("np.vectorize of this function")
        return self.f(*args)


@reg("max", "amax", "nanmax")
def _max(x, axis=None, **k):
    return S.reduce_extreme(x, "maximum", axis, **k)


@reg("min", "amin", "nanmin")
def _min(x, axis=None, **k):
    return S.reduce_extreme(x, "minimum", axis, **k)


@reg("ptp")
def _ptp(x, axis=None):
    return S.binary("subtract", _max(x, axis), _min(x, axis))


@reg("select")
def _select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist) or not len(condlist):
        raise Unsupported("np.select with lists of different lengths")
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = S.where(c, x, r)
    return r


@reg("polyval")
def _polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


from . import frame as _frame
from .frame import SymFrame, SymIndex, SymSeries

_frame.USED[0] = used


# ---------------------------------------------------------------- linear algebra
LA = {}


def _inv(x):
    used("numpy.linalg.inv", "returns the inverse (adjugate over determinant); raises when singular")
    return S.inverse(x)


def _matrix_power(x, n):
    a, d, k, m = parts(x)
    if not isinstance(n, numbers.Integral):
        raise Unsupported("matrix power")
    if n < 0:
        x, n = _inv(x), -n
    if n == 0:
        e = np.empty(a.shape, dtype=object)
        e[...] = T.ZERO
        for i in range(a.shape[-1]):
            e[..., i, i] = T.ONE
        return mk(e, d, k)
    r = mk(a, d, k)
    for _ in range(n - 1):
        r = S.matmul(r, mk(a, d, k))
    return r


def _norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or k:
        raise Unsupported("norm")
    a, d, kk, m = parts(x)
    if a.ndim != 1 and axis is None:
        raise Unsupported("norm")
    sq = S.reduce_sum(S.binary("power", S.unary("absolute", x), 2), axis)
    return S.unary("sqrt", sq)


def _solve(x, y):
    return S.matmul(_inv(x), y)


def _eig(x):
    from . import eig
    return eig.eig(x)


LA.update(inv=_inv, matrix_power=_matrix_power, norm=_norm, solve=_solve, eig=_eig, det=S.det)


def scim_sqrt(x):
    """numpy.lib.scimath.sqrt: the principal square root, complex where needed"""
    a, d, k, m = parts(x)
    if k == "c":
        return S.unary("sqrt", x)
    # real input: principal root; complex kind because a negative element makes the result complex
    def f(n):
        if n.op == "c" and n.pl[0] < 0:
            return T.mul(T.I, T.fn("sqrt", T.neg(n), real=True))
        if n.op == "c" or known_nonneg(n):
            return T.fn("sqrt", n, real=True)
        return T.fn("sqrt", n)
    r = vec(f, a)
    k = "f" if all(q.real for q in r.flat) else "c"
    return mk(r, d, k, m)


NONNEG = [lambda n: False]


def known_nonneg(n):
    if n.op == "pow" and n.pl % 2 == 0 and n.args[0].real:
        return True
    if n.op == "fn" and n.pl[0] in ("abs",):
        return True
    if n.op == "pi":
        return True
    return NONNEG[0](n)


def scim_power(x, p):
    a, d, k, m = parts(x)
    b, e, kk, m2 = parts(p)
    if k != "c" and not all(known_nonneg(n) or (n.op == "c" and n.pl[0] >= 0) for n in a.flat):
        if not all(n.op == "c" and n.pl[0].denominator == 1 for n in b.flat):
            x = S.cast(x, "c")
    return S.binary("power", x, p)


def scim_arcsin(x):
    a, d, k, m = parts(x)
    return S.unary("arcsin", S.cast(x, "c"))


def scim_log(x):
    a, d, k, m = parts(x)
    if k != "c" and not all(known_nonneg(n) for n in a.flat):
        x = S.cast(x, "c")
    return S.unary("log", x)


def expm(x):
    from . import eig
    return eig.expm(x)


class SymTensor:
    """torch tensor view of a symbolic array"""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a

    def cpu(self):
        return self

    def detach(self):
        return self

    def resolve_conj(self):
        return self


def interp1d_factory(real):
    def interp1d(x, y, *a, **k):
        x, y = _frame.array(x), _frame.array(y)
        x, y = (NP["array"](v.to_list()) if _pd_like(v) and any(is_sym(e) for e in v) else v for v in (x, y))
        if _symbolic_axis(x) or _symbolic_axis(y):
            return TableInterp(x, y, *a, **k)
        if is_sym(x) or is_sym(y):
            return SymInterp(x, y, *a, **k)
        f = real(x, y, *a, **k)
        return MixedInterp(f, x, y, a, k)
    return interp1d


class TableInterp:
    """the same contract for a table of arbitrary length, inside its range: the sum of the values with the hat functions of their
    points as weights; at the points themselves the values"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        (xa, xd, xk, _), (ya, yd, yk, _) = parts(x), parts(y)
        if xa.ndim != 1 or ya.ndim != 1 or xd != yd or xd[0] is None:
            raise Unsupported("interp1d data")
        self.dim = xd[0]
        if kind not in ("linear", "slinear") and not (kind == "nearest" and bool(SymLen(self.dim) == 1)):
            raise Unsupported(f"interp1d kind {kind}")
        if assume_sorted or (bounds_error is not None and bounds_error is not True) or isinstance(fill_value, str) or not (
                fill_value is np.nan or fill_value != fill_value):
            raise Unsupported("interp1d options")
        used("scipy.interpolate.interp1d of a table of arbitrary length",
             "piecewise linear interpolation through the points in any order, evaluated inside of their range")
        self.x, self.y, self.yk = xa.reshape(-1)[0], ya.reshape(-1)[0], S.kmax(yk, "f")

    def __call__(self, p):
        p = _frame.array(p)
        a, d, k, m = parts(p)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            if self.dim in a[i].dims:
                if a[i] is not self.x:
                    raise Unsupported("interpolation at other points that belong to the rows")
                out[i] = self.y
            else:
                out[i] = T.bigsum(self.dim, T.mul(T.fn("hat", self.x, a[i], real=True), self.y))
        return mk(out, d, self.yk) if out.ndim else Sym(out[()], self.yk)


class MixedInterp:
    """a real interpolation object; symbolic evaluation points go through the contract"""

    def __init__(self, f, x, y, a, k):
        self.f, self.xy, self.ak = f, (x, y), (a, k)

    def __call__(self, p):
        if is_sym(p):
            return SymInterp(*self.xy, *self.ak[0], **self.ak[1])(p)
        return self.f(p)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.f, n)


class SymInterp:
    """contract of scipy.interpolate.interp1d for kind='linear': piecewise linear through the points, sorted by their
    abscissa unless they are said to be; raises ValueError outside."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.nodes_only = kind != "linear" and not (kind == "nearest" and len(parts(x)[0]) == 1)
        if self.nodes_only and kind not in ("cubic", "quadratic", "slinear"):
            raise Unsupported(f"interp1d kind {kind}")
        used("scipy.interpolate.interp1d(kind='linear')",
             "piecewise linear interpolation through the points; ValueError outside of them")
        if bounds_error is not None and bounds_error is not True:
            raise Unsupported("interp1d without bounds error")
        if isinstance(fill_value, str) or not (fill_value is np.nan or fill_value != fill_value):
            raise Unsupported("interp1d fill value")
        self.x = [Sym(n, parts(x)[2]) for n in parts(x)[0]]
        ya, yd, yk, _ = parts(y)
        if ya.ndim != 1 or yd[0] is not None or parts(x)[1][0] is not None:
            raise Unsupported("interp1d data")
        if len(self.x) != len(ya):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.y, self.yk = list(ya), S.kmax(yk, "f")
        if not assume_sorted:
            pts = []
            for p in zip(self.x, self.y):
                k = len(pts)
                while k and bool(p[0] < pts[k - 1][0]):
                    k -= 1
                pts.insert(k, p)
            self.x, self.y = [p[0] for p in pts], [p[1] for p in pts]
        if len(self.x) > 1:
            for p, q in zip(self.x, self.x[1:]):
                if not bool(p < q):
                    raise Unsupported("interp1d with unsorted or equal points")

    def __call__(self, p):
        a, d, k, m = parts(p)
        xs = [s.node for s in self.x]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            bad = T.bor(T.cmp("<", v, xs[0]), T.cmp("<", xs[-1], v))
            for q in d:
                if q is not None:
                    bad = T.exists(q, bad)
            if bool(Sym(bad, "b")):
                raise ValueError("A value in x_new is outside the interpolation range.")
            if len(xs) == 1:
                out[i] = self.y[0]
                continue
            if self.nodes_only:
                # a spline passes through its points; nothing is assumed in between
                at = [y for x, y in zip(xs, self.y) if x is v or bool(Sym(T.cmp("==", x, v), "b"))]
                if not at:
                    raise Unsupported("spline between its points")
                out[i] = at[0]
                continue
            r = None
            for j in range(len(xs) - 2, -1, -1):
                t = T.div(T.sub(v, xs[j]), T.sub(xs[j + 1], xs[j]))
                seg = T.add(self.y[j], T.mul(T.sub(self.y[j + 1], self.y[j]), t))
                r = seg if r is None else T.ite(T.cmp("<=", v, xs[j + 1]), seg, r)
            out[i] = r
        return mk(out, d, self.yk)


def wrap(real, shim, name):
    @functools.wraps(real)
    def f(*a, **k):
        if len(a) == 1 and not k and hasattr(type(a[0]), "_vf_index"):
            return a[0].each(shim)
        a = [_frame.array(x) if isinstance(x, (_frame.SymSeries, _frame.SymIndex)) else x for x in a]
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            return shim(*a, **k)
        if a and _pd_like(a[0]) and a[0].ndim == 1 and any(is_sym(x) for x in a[0]):
            # a pandas column of symbolic numbers, handed on as an array
            return shim(S.array(a[0].to_list()) if hasattr(S, "array") else NP["array"](a[0].to_list()), *a[1:], **k)
        return real(*a, **k)
    f._vf_real = real
    return f


# arrays made to be filled later are symbolic from the start
ALWAYS = {"zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like"}


class ModProxy(types.ModuleType):
    """a library module whose functions accept symbolic arguments"""

    def __init__(self, real, table, subs=()):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["_subs"] = dict(subs)
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in self._subs:
            return self._subs[name]
        v = getattr(self._real, name)
        if isinstance(v, types.ModuleType) or isinstance(v, type) or not callable(v):
            return v
        shim = self._table.get(name)
        w = self._wrap(v, shim, name)
        c[name] = w
        return w

    def _wrap(self, v, shim, name):
        always = name in ALWAYS and self._real is np

        @functools.wraps(v, updated=())
        def f(*a, **k):
            for x in a:
                if getattr(x, "_vf_split", False):
                    if self._real is not np and hasattr(type(x), "_vf_index"):
                        if len(a) != 1 or k:
                            raise Unsupported(f"{name} of an array of arbitrary length")
                        return x.each(shim)
                    if self._real is not np:
                        return shim(*[_frame.array(y) for y in a], **k)
                    return x._np(name, a, k)
            if always and not any(_pd_like(x) for x in a):
                try:
                    return shim(*a, **k)
                except Unsupported:
                    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                        raise
                    return v(*a, **k)
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                if any(_pd_like(x) for x in a):
                    return v(*a, **k)
                if shim is None:
                    raise Unsupported(f"no contract for {self._real.__name__}.{name}")
                if any(isinstance(x, np.ndarray) and x.dtype == object and x.ndim for x in a) and name in S.UN:
                    r = shim(*a, **k)
                    return r.objects() if isinstance(r, SymArray) else r
                return shim(*a, **k)
            return v(*a, **k)
        f._vf_real = v
        return f


# ---------------------------------------------------------------- builtins seen by the elli modules
def b_isinstance(x, t):
    if isinstance(x, (Sym, SymArray)):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if isinstance(q, tuple):
                if b_isinstance(x, q):
                    return True
                continue
            q = getattr(q, "_vf_real", q)
            if isinstance(x, SymArray):
                if q is np.ndarray or q is object:
                    return True
            else:
                if q is object:
                    return True
                if q is bool:
                    if x.kind == "b":
                        return True
                elif q is int or q is numbers.Integral:
                    if x.kind in ("b", "i"):
                        return True
                elif q is float:
                    if x.kind == "f":
                        return True
                elif q in (numbers.Real,):
                    if x.kind in "bif":
                        return True
                elif q in (complex,):
                    if x.kind == "c":
                        return True
                elif q in (numbers.Number, numbers.Complex):
                    return True
            if isinstance(x, q):
                return True
        return False
    if isinstance(t, tuple):
        t = tuple(getattr(q, "_vf_real", q) for q in t)
    return isinstance(x, getattr(t, "_vf_real", t))


def b_len(x):
    if isinstance(x, SymArray):
        return x.shape[0]
    if hasattr(x, "_vf_len"):
        return x._vf_len()
    if S.MEMBERS and type(x) is list and len(x) == 1 and is_sym(x[0]):
        from .members import loose
        dm = loose(x[0])
        if dm is not None:
            return SymLen(dm)
    if S.INDICES and type(x) in (list, tuple) and len(x) == 1:
        from .indexed import loose
        q = loose(x[0])
        if q is not None:
            return q.n
    return len(x)


def b_range(*a):
    if any(isinstance(x, (SymLen, Sym)) for x in a):
        from .indexed import b_range as f
        return f(*a)
    return range(*a)


def b_zip(*a, **k):
    from . import indexed
    if len(a) == 1 and isinstance(a[0], indexed.Star):
        return indexed.unzip(a[0])
    if indexed.any_generic(a):
        return indexed.b_zip(*a, **k)
    return zip(*a, **k)


def b_enumerate(x, *a, **k):
    from . import indexed
    if indexed.any_generic([x]):
        return indexed.b_enumerate(x, *a, **k)
    return enumerate(x, *a, **k)


def b_max(*a, **k):
    if any(isinstance(x, (Sym,)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = S.binary("maximum", r, x)
        return r
    return max(*a, **k)


def b_min(*a, **k):
    if any(isinstance(x, (Sym,)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = S.binary("minimum", r, x)
        return r
    return min(*a, **k)


class _NumType(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls._vf_real)

    def __eq__(cls, o):
        return o is cls or o is cls._vf_real

    def __hash__(cls):
        return hash(cls._vf_real)

    def __getattr__(cls, n):
        return getattr(cls._vf_real, n)

    def __getitem__(cls, x):
        return cls._vf_real[x]

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._vf_real)


def _numtype(real, kind):
    class N(metaclass=_NumType):
        _vf_real = real

        def __new__(cls, *a, **k):
            if a and isinstance(a[0], (Sym, SymArray)):
                if isinstance(a[0], SymArray) and a[0].a.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                x = a[0]
                if isinstance(x, SymArray):
                    x = x.item()
                if len(a) == 2:
                    return S.binary("add", x, S.binary("multiply", 1j, a[1]))
                if kind == "f" and x.kind == "c" and not x.node.real:
                    raise TypeError("float() argument must be a string or a real number, not 'complex'")
                return S.cast(x, kind)
            if len(a) == 2 and isinstance(a[1], Sym):
                return S.binary("add", a[0], S.binary("multiply", 1j, a[1]))
            return real(*a, **k)
    N.__name__ = real.__name__
    return N


def b_sum(it, *a, **k):
    from .fold import b_sum as f
    return f(it, *a, **k)


def _seqtype(real):
    class N(metaclass=_NumType):
        _vf_real = real

        def __new__(cls, *a, **k):
            from .indexed import Generic
            if a and isinstance(a[0], Generic):
                return real(a[0].items())
            return real(*a, **k)
    N.__name__ = real.__name__
    return N


BUILTINS = {"zip": b_zip, "enumerate": b_enumerate, "sum": b_sum, "isinstance": b_isinstance, "len": b_len, "range": b_range, "max": b_max, "min": b_min}


SEQTYPES = {"list": _seqtype(list), "tuple": _seqtype(tuple)}      # where arrays of arbitrary length become lists
SEQMODULES = {"elli.structure"}


class TorchLA(types.SimpleNamespace):
    pass


def make_torch(real):
    la = ModProxy(real.linalg, {"matrix_exp": lambda t: SymTensor(expm(t.a))})

    class Proxy(types.ModuleType):
        def __init__(self):
            super().__init__("torch")

        linalg = la

        def __getattr__(self, n):
            v = getattr(real, n)
            return v

        @staticmethod
        def from_numpy(x):
            if is_sym(x):
                return SymTensor(x)
            return real.from_numpy(x)

        @staticmethod
        def as_tensor(x, *a, **k):
            if is_sym(x):
                return SymTensor(x)
            return real.as_tensor(x, *a, **k)

        tensor = as_tensor

        @staticmethod
        def matrix_exp(t):
            if isinstance(t, SymTensor):
                return SymTensor(expm(t.a))
            return real.matrix_exp(t)
    _ = la

    class LA2(ModProxy):
        def __getattr__(self, name):
            if name == "matrix_exp":
                def f(t):
                    if isinstance(t, SymTensor):
                        return SymTensor(expm(t.a))
                    return self._real.matrix_exp(t)
                return f
            return getattr(self._real, name)
    Proxy.linalg = LA2(real.linalg, {})
    return Proxy()


def _symbolic_axis(x):
    return isinstance(x, SymArray) and any(d is not None for d in x.dims)


class _PdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._vf_real) or isinstance(x, cls._vf_sym)

    def __getattr__(cls, n):
        return getattr(cls._vf_real, n)


def _pandas(real):
    class DataFrame(metaclass=_PdMeta):
        _vf_real = real.DataFrame
        _vf_sym = SymFrame

        def __new__(cls, data=None, index=None, *a, **k):
            if isinstance(index, _frame.ProductIndex):
                columns = k.pop("columns", a[0] if len(a) == 1 else None)
                if (data is not None and len(data)) or columns is None or len(a) > 1 or set(k) - {"dtype"}:
                    raise Unsupported("DataFrame options")
                return _frame.ProductFrame(columns, index)
            if isinstance(index, SymIndex) or isinstance(data, (SymSeries, SymFrame)) or _symbolic_axis(data) or (
                    isinstance(data, dict) and any(_symbolic_axis(v) or isinstance(v, SymSeries) for v in data.values())):
                if k.get("dtype") in ("float64", float):
                    del k["dtype"]
                    if S.kind_of(data if not isinstance(data, SymSeries) else data.data) not in ("f", "i"):
                        raise Unsupported("complex numbers in a table of real numbers")
                columns = k.pop("columns", a[0] if len(a) == 1 else None)
                if len(a) > 1 or k:
                    raise Unsupported("DataFrame options")
                if isinstance(data, dict):
                    if columns is not None:
                        raise Unsupported("DataFrame options")
                    for v in data.values():
                        if isinstance(v, SymSeries) and index is not None and v.index is not index:
                            raise Unsupported("columns with different indices")
                    used("pandas.DataFrame(dict of arrays, index)", "holds the columns by position against the index")
                    if index is None:
                        ix = [v.index for v in data.values() if isinstance(v, SymSeries)]
                        if not ix or any(i is not ix[0] for i in ix):
                            raise Unsupported("a table without an index")
                        index = ix[0]
                    return SymFrame(data, index)
                return _frame.frame_of(data, index, columns)
            if isinstance(data, dict) and not data and k.get("dtype") == float:
                k["dtype"] = object     # cells to be filled with symbolic numbers
            if isinstance(data, dict):
                data = {c: v.objects() if isinstance(v, SymArray) else v for c, v in data.items()}
            return real.DataFrame(data, index, *a, **k)

    class Index(metaclass=_PdMeta):
        _vf_real = real.Index
        _vf_sym = SymIndex

        def __new__(cls, data=None, *a, **k):
            if _symbolic_axis(data):
                if a or set(k) - {"name"}:
                    raise Unsupported("Index options")
                return SymIndex(data, **k)
            if isinstance(data, SymArray):
                data = data.objects()
            return real.Index(data, *a, **k)

    class MultiIndex(metaclass=_PdMeta):
        _vf_real = real.MultiIndex
        _vf_sym = _frame.ProductIndex
        from_product = staticmethod(_frame.from_product(real.MultiIndex.from_product))

        def __new__(cls, *a, **k):
            return real.MultiIndex(*a, **k)

    class Series(metaclass=_PdMeta):
        _vf_real = real.Series
        _vf_sym = SymSeries

        def __new__(cls, data=None, index=None, *a, **k):
            if isinstance(data, SymSeries) or _symbolic_axis(data) or isinstance(index, SymIndex):
                if a or set(k) - {"name"}:
                    raise Unsupported("Series options")
                return SymSeries(_frame.array(data), index, k.get("name"))
            if isinstance(data, SymArray):
                data = data.objects()
            return real.Series(data, index, *a, **k)

    def concat(objs, *a, **k):
        seq = list(objs.values()) if isinstance(objs, dict) else list(objs)
        if any(isinstance(o, (SymFrame, SymSeries)) for o in seq):
            return _frame.concat(objs if isinstance(objs, dict) else seq, *a, **k)
        return real.concat(objs if isinstance(objs, dict) else seq, *a, **k)
    return {"DataFrame": DataFrame, "Index": Index, "MultiIndex": MultiIndex, "Series": Series, "concat": concat,
            "read_table": _frame.read(real.read_table, "\t"), "read_csv": _frame.read(real.read_csv, ",")}


_maps = None


def replacement_map():
    """id(real object) -> replacement"""
    global _maps
    if _maps is not None:
        return _maps
    import scipy
    import scipy.linalg
    import scipy.special
    import scipy.interpolate
    from numpy.lib import scimath
    m = {}
    keep = []

    def put(real, rep):
        keep.append(real)
        m[id(real)] = rep

    la = ModProxy(np.linalg, LA)
    sm_table = {"sqrt": scim_sqrt, "power": scim_power, "arcsin": scim_arcsin, "log": scim_log}
    smp = ModProxy(scimath, sm_table)
    lib = ModProxy(np.lib, {}, {"scimath": smp})
    npx = ModProxy(np, NP, {"linalg": la, "lib": lib, "emath": smp, "vectorize": _Vectorize})
    put(np.vectorize, _Vectorize)
    put(np, npx)
    put(np.linalg, la)
    put(scimath, smp)
    for n in ("sqrt", "power", "arcsin", "log"):
        put(getattr(scimath, n), wrap(getattr(scimath, n), sm_table[n], n))
    for n in LA:
        put(getattr(np.linalg, n), wrap(getattr(np.linalg, n), LA[n], n))
    sl = ModProxy(scipy.linalg, {"expm": expm, "inv": _inv})
    put(scipy.linalg, sl)
    put(scipy.linalg.expm, wrap(scipy.linalg.expm, expm, "expm"))
    spec = {n: _unary(n) for n in ("dawsn", "digamma", "gamma", "erf")}
    sp = ModProxy(scipy.special, spec)
    put(scipy.special, sp)
    for n in spec:
        put(getattr(scipy.special, n), wrap(getattr(scipy.special, n), spec[n], n))
    i1 = interp1d_factory(scipy.interpolate.interp1d)
    put(scipy.interpolate.interp1d, i1)
    si = ModProxy(scipy.interpolate, {}, {"interp1d": i1})
    put(scipy.interpolate, si)
    scx = ModProxy(scipy, {}, {"linalg": sl, "special": sp, "interpolate": si, "constants": __import__("scipy.constants").constants})
    put(scipy, scx)
    for n, f in NP.items():
        try:
            r = getattr(np, n)
        except AttributeError:
            continue
        if callable(r) and not isinstance(r, type):
            put(r, getattr(npx, n))
    from . import fitui
    fitui.USED[0] = used
    fitui.replacements(put)
    import pandas as pd
    pdc = _pandas(pd)
    put(pd, ModProxy(pd, {}, pdc))
    import io
    put(io, ModProxy(io, {}, {"StringIO": _frame.string_io(io.StringIO)}))
    for n in pdc:
        put(getattr(pd, n), pdc[n])
    try:
        import torch
        put(torch, make_torch(torch))
    except ImportError:
        pass
    m["_keep"] = keep
    _maps = m
    return m


# pure Python code of dependencies that is executed symbolically too (no contract is assumed for it)
ALSO = {"lmfit.parameter"}


def elli_modules():
    return [mod for name, mod in list(sys.modules.items())
            if (name == "elli" or name.startswith("elli.") or name in ALSO) and isinstance(mod, types.ModuleType)]


@contextmanager
def installed():
    m = replacement_map()
    saved = []
    nt = {"float": _numtype(float, "f"), "complex": _numtype(complex, "c"), "int": _numtype(int, "i")}
    seen = set()
    for mod in elli_modules():
        d = mod.__dict__
        for k, v in list(d.items()):
            r = m.get(id(v))
            if r is not None:
                saved.append((d, k, v))
                d[k] = r
        for k, v in list(BUILTINS.items()) + list(nt.items()) + (list(SEQTYPES.items()) if mod.__name__ in SEQMODULES else []):
            if k not in d:
                saved.append((d, k, None))
                d[k] = v
        # library functions held by class attributes, default arguments and default instances
        for v in list(d.values()):
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("elli") and id(v) not in seen:
                seen.add(id(v))
                for kk, vv in list(vars(v).items()):
                    f = vv.__func__ if isinstance(vv, (staticmethod, classmethod)) else vv
                    if isinstance(f, types.FunctionType):
                        for df in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                            if type(df).__module__.startswith("elli") and hasattr(df, "__dict__") and not isinstance(df, type):
                                for a, b in list(vars(df).items()):
                                    r = m.get(id(b))
                                    if r is not None:
                                        saved.append((df.__dict__, a, b))
                                        df.__dict__[a] = r
                                    elif isinstance(b, types.FunctionType) and b.__module__.startswith("elli"):
                                        pass
    lp = sys.modules.get("lmfit.parameter")
    if lp is not None:
        # the value lmfit uses inside its minimisers; it has no effect on the value a user sees
        internal = lp.Parameter.setup_bounds

        def setup_bounds(self):
            if not is_sym(self._val):
                return internal(self)
            used("lmfit Parameter.setup_bounds", "does not change the parameter's value, bounds or settings")
            return self._val
        lp.Parameter.setup_bounds = setup_bounds
    try:
        yield
    finally:
        if lp is not None:
            lp.Parameter.setup_bounds = internal
        for d, k, v in reversed(saved):
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
