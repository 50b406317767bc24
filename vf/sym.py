"""Symbolic scalars and arrays that the real code of /repo computes with.

A `SymArray` is an array of terms.  An axis may be symbolic (a `Dim`): it then has one generic element, which
stands for every index of an axis of arbitrary length."""
from __future__ import annotations
import numbers
from fractions import Fraction

import numpy as np

from . import terms as T
from .ring import Unsupported

KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


class Hooks:
    """set by the engine: how a branch on a symbolic condition is decided"""
    decide = None
    notes = None
    run = None
    loop = None       # rule for loops of arbitrary length that carry variables (vf/indexed.py)


def kmax(*ks):
    return max(ks, key=KORD.__getitem__)


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt is complex:
        return "c"
    if dt is float:
        return "f"
    if dt is int:
        return "i"
    if dt is bool:
        return "b"
    k = np.dtype(dt).kind
    if k == "u":
        k = "i"
    if k not in KORD:
        raise Unsupported(f"dtype {dt}")
    return k


MEMBERS = []        # member axes of the run (vf/members.py)
INDICES = []        # arbitrary indices of the run (vf/indexed.py)


class SymLen:
    """the length of a symbolic axis"""

    def __init__(self, dim):
        self.dim = dim

    @property
    def value(self):
        return Sym(self.dim.node, "i")

    def _o(self, o):
        if isinstance(o, SymLen):
            return o.value
        if isinstance(o, (numbers.Real, Sym)):
            return o
        raise Unsupported(f"comparison of a symbolic length with {type(o).__name__}")

    def __eq__(self, o):
        if isinstance(o, SymLen) and o.dim is self.dim:
            return True
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        if isinstance(o, numbers.Integral) and o < self.dim.minimum:
            return False
        return bool(self.value == self._o(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dim)

    def __bool__(self):
        return self > 0

    def __gt__(self, o):
        if isinstance(o, numbers.Integral) and o < self.dim.minimum:
            return True
        return bool(self.value > self._o(o))

    def __ge__(self, o):
        if isinstance(o, numbers.Integral) and o <= self.dim.minimum:
            return True
        return bool(self.value >= self._o(o))

    def __lt__(self, o):
        return not self >= o

    def __le__(self, o):
        return not self > o

    def __index__(self):
        raise Unsupported("symbolic length used as an integer")

    __int__ = __index__

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            return SymArray(np.array([T.lift(o[0])], dtype=object), (self.dim,), kind_of(o[0]))
        if isinstance(o, (numbers.Number, Sym, SymArray)):
            return o * self.value
        raise Unsupported("product with a symbolic length")

    __mul__ = __rmul__

    def __add__(self, o):
        return self.value + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.value - o

    def __rsub__(self, o):
        return o - self.value

    def __truediv__(self, o):
        return self.value / o

    def __rtruediv__(self, o):
        return o / self.value

    def __mod__(self, o):
        return self.value % o

    def __floordiv__(self, o):
        return self.value // o


def kind_of(x):
    if isinstance(x, (Sym, SymArray)):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, numbers.Integral):
        return "i"
    if isinstance(x, numbers.Real):
        return "f"
    if isinstance(x, numbers.Complex):
        return "c"
    raise Unsupported(f"kind of {type(x).__name__}")


def is_num(x):
    return isinstance(x, (numbers.Number, np.bool_)) and not isinstance(x, (Sym,))


# ---------------------------------------------------------------- node level operations with numpy meaning
def n_pow(a, b, ka, kb):
    """a ** b ; returns node"""
    if b.op == "c" and b.real:
        e = b.pl[0]
        if e.denominator == 1:
            return T.powi(a, int(e))
        if e == Fraction(1, 2):
            return T.fn("sqrt", a, real=(ka != "c" and kb != "c") or None)
    if b.op == "mul" and b.args[0].op == "c" and b.args[0].real and b.args[0].pl[0] < 0:
        # a^-b = 1 / a^b, on the principal branch as well
        return T.div(T.ONE, n_pow(a, T.neg(b), ka, kb))
    real = (ka != "c" and kb != "c") or None
    if a.op == "mul" and ka != "c":
        # (c x)^b = c^b x^b for a positive number c
        c = [x for x in a.args if x.op == "c" and x.real and x.pl[0] > 0]
        if len(c) == 1 and len(a.args) == 2:
            x = a.args[0] if a.args[1] is c[0] else a.args[1]
            f = c[0].pl[0]
            r = n_pow(x, b, ka, kb)
            if f.numerator != 1:
                r = T.mul(n_pow(T.const(f.numerator), b, "f", kb), r)
            if f.denominator != 1:
                r = T.div(r, n_pow(T.const(f.denominator), b, "f", kb))
            return r
    return T.fn("powr", a, b, real=real)


def n_abs(a):
    if a.op == "c" and a.real:
        return T.const(abs(a.pl[0]))
    return T.fn("abs", a)


def n_floor(a):
    if a.op == "c" and a.real:
        return T.const(a.pl[0].numerator // a.pl[0].denominator)
    return T.fn("floor", a)


def n_mod(a, m):
    """numpy/python mod: result has the sign of m"""
    return T.sub(a, T.mul(m, n_floor(T.div(a, m))))


def n_deg2rad(a):
    return T.mul(T.div(T.PI, T.const(180)), a) if a is not T.ZERO else T.ZERO


def n_rad2deg(a):
    return T.mul(T.mul(T.const(180), a), T.div(T.ONE, T.PI)) if a is not T.ZERO else T.ZERO


def n_heaviside(x, h):
    return T.ite(T.cmp("<", x, T.ZERO), T.ZERO, T.ite(T.cmp("==", x, T.ZERO), h, T.ONE))


def n_sign(x):
    return T.ite(T.cmp("<", x, T.ZERO), T.MONE, T.ite(T.cmp("==", x, T.ZERO), T.ZERO, T.ONE))


def n_max(a, b):
    return T.ite(T.cmp("<", a, b), b, a)


def n_min(a, b):
    return T.ite(T.cmp("<", b, a), b, a)


def n_angle(a):
    return T.fn("angle", a)


def n_trunc(a):
    f = n_floor(a)
    return T.ite(T.cmp("<", a, T.ZERO), T.neg(n_floor(T.neg(a))), f)


def n_bool(a, k):
    """truth value of a numeric node"""
    if k == "b":
        return a
    return T.bnot(T.cmp("==", a, T.ZERO))


def n_num(a, k):
    """numeric value of a node of kind k (booleans count as 0/1)"""
    if k == "b":
        return T.ite(a, T.ONE, T.ZERO)
    return a


def n_fn(name):
    def f(a, k):
        return T.fn(name, a, real=True if k != "c" else None)
    return f


UN = {  # name -> (node function(a, kind), result kind function)
    "sqrt": (n_fn("sqrt"), lambda k: kmax(k, "f")),
    "cbrt": (n_fn("cbrt"), lambda k: kmax(k, "f")),
    "exp": (n_fn("exp"), lambda k: kmax(k, "f")),
    "log": (n_fn("log"), lambda k: kmax(k, "f")),
    "sin": (n_fn("sin"), lambda k: kmax(k, "f")),
    "cos": (n_fn("cos"), lambda k: kmax(k, "f")),
    "tan": (n_fn("tan"), lambda k: kmax(k, "f")),
    "arcsin": (n_fn("arcsin"), lambda k: kmax(k, "f")),
    "arccos": (lambda a, k: T.sub(T.div(T.PI, T.TWO), T.fn("arcsin", a, real=True if k != "c" else None)),
               lambda k: kmax(k, "f")),
    "arctan": (n_fn("arctan"), lambda k: kmax(k, "f")),
    "sinh": (lambda a, k: T.div(T.sub(T.fn("exp", a), T.fn("exp", T.neg(a))), T.TWO), lambda k: kmax(k, "f")),
    "cosh": (lambda a, k: T.div(T.add(T.fn("exp", a), T.fn("exp", T.neg(a))), T.TWO), lambda k: kmax(k, "f")),
    "tanh": (lambda a, k: T.div(T.sub(T.fn("exp", a), T.fn("exp", T.neg(a))),
                                T.add(T.fn("exp", a), T.fn("exp", T.neg(a)))), lambda k: kmax(k, "f")),
    "expm1": (lambda a, k: T.sub(T.fn("exp", a), T.ONE), lambda k: kmax(k, "f")),
    "log1p": (lambda a, k: T.fn("log", T.add(T.ONE, a), real=True if k != "c" else None), lambda k: kmax(k, "f")),
    "log10": (lambda a, k: T.div(T.fn("log", a, real=True if k != "c" else None), T.fn("log", T.const(10), real=True)),
              lambda k: kmax(k, "f")),
    "log2": (lambda a, k: T.div(T.fn("log", a, real=True if k != "c" else None), T.fn("log", T.const(2), real=True)),
             lambda k: kmax(k, "f")),
    "dawsn": (n_fn("dawsn"), lambda k: kmax(k, "f")),
    "erf": (n_fn("erf"), lambda k: kmax(k, "f")),
    "digamma": (n_fn("digamma"), lambda k: kmax(k, "f")),
    "gamma": (n_fn("gamma"), lambda k: kmax(k, "f")),
    "absolute": (lambda a, k: n_abs(a), lambda k: "f" if k == "c" else k),
    "angle": (lambda a, k: n_angle(a), lambda k: "f"),
    "real": (lambda a, k: T.re(a), lambda k: "f" if k == "c" else k),
    "imag": (lambda a, k: T.im(a), lambda k: "f" if k == "c" else k),
    "conjugate": (lambda a, k: T.conj(a), lambda k: k),
    "negative": (lambda a, k: T.neg(a), lambda k: k),
    "positive": (lambda a, k: a, lambda k: k),
    "square": (lambda a, k: T.powi(a, 2), lambda k: k),
    "reciprocal": (lambda a, k: T.ndiv(T.ONE, a), lambda k: kmax(k, "f")),
    "deg2rad": (lambda a, k: n_deg2rad(a), lambda k: kmax(k, "f")),
    "rad2deg": (lambda a, k: n_rad2deg(a), lambda k: kmax(k, "f")),
    "floor": (lambda a, k: n_floor(a), lambda k: "f"),
    "ceil": (lambda a, k: T.neg(n_floor(T.neg(a))), lambda k: "f"),
    "trunc": (lambda a, k: n_trunc(a), lambda k: "f"),
    "sign": (lambda a, k: n_sign(a), lambda k: k),
    "logical_not": (lambda a, k: T.bnot(n_bool(a, k)), lambda k: "b"),
    "invert": (lambda a, k: T.bnot(a) if k == "b" else _uns("invert of numbers"), lambda k: "b"),
    "isnan": (lambda a, k: T.FALSE, lambda k: "b"),
    "isinf": (lambda a, k: T.FALSE, lambda k: "b"),
    "isfinite": (lambda a, k: T.TRUE, lambda k: "b"),
    "isreal": (lambda a, k: T.cmp("==", T.im(a), T.ZERO), lambda k: "b"),
    "iscomplex": (lambda a, k: T.bnot(T.cmp("==", T.im(a), T.ZERO)), lambda k: "b"),
}
UN["abs"] = UN["fabs"] = UN["absolute"]
UN["conj"] = UN["conjugate"]
UN["radians"] = UN["deg2rad"]
UN["degrees"] = UN["rad2deg"]


def _uns(msg):
    raise Unsupported(msg)


def _fdiv(k1, k2):
    return kmax(k1, k2, "f")


def _k2(k1, k2):
    k = kmax(k1, k2)
    return "i" if k == "b" else k


def _lex(op, strict):
    def f(a, b, k1, k2):
        if "c" in (k1, k2):
            if a.real and b.real:
                pass
            else:
                raise Unsupported("ordering of complex numbers")
        if op == "<":
            return T.cmp("<", a, b)
        return T.cmp("<=", a, b)
    return f


BIN = {
    "add": (lambda a, b, k1, k2: T.add(a, b), _k2),
    "subtract": (lambda a, b, k1, k2: T.sub(a, b), _k2),
    "multiply": (lambda a, b, k1, k2: T.mul(a, b), _k2),
    "divide": (lambda a, b, k1, k2: T.ndiv(a, b), _fdiv),
    "true_divide": (lambda a, b, k1, k2: T.ndiv(a, b), _fdiv),
    "floor_divide": (lambda a, b, k1, k2: n_floor(T.div(a, b)), _k2),
    "mod": (lambda a, b, k1, k2: n_mod(a, b), _k2),
    "remainder": (lambda a, b, k1, k2: n_mod(a, b), _k2),
    "fmod": (lambda a, b, k1, k2: T.sub(a, T.mul(b, n_trunc(T.div(a, b)))), _k2),
    "power": (lambda a, b, k1, k2: n_pow(a, b, k1, k2), _k2),
    "float_power": (lambda a, b, k1, k2: n_pow(a, b, k1, k2), _fdiv),
    "arctan2": (lambda a, b, k1, k2: T.fn("angle", T.add(b, T.mul(T.I, a))), lambda a, b: "f"),
    "hypot": (lambda a, b, k1, k2: T.fn("sqrt", T.add(T.powi(a, 2), T.powi(b, 2)), real=True), lambda a, b: "f"),
    "heaviside": (lambda a, b, k1, k2: n_heaviside(a, b), lambda a, b: "f"),
    "maximum": (lambda a, b, k1, k2: n_max(a, b), _k2),
    "minimum": (lambda a, b, k1, k2: n_min(a, b), _k2),
    "fmax": (lambda a, b, k1, k2: n_max(a, b), _k2),
    "fmin": (lambda a, b, k1, k2: n_min(a, b), _k2),
    "equal": (lambda a, b, k1, k2: T.cmp("==", a, b), lambda a, b: "b"),
    "not_equal": (lambda a, b, k1, k2: T.bnot(T.cmp("==", a, b)), lambda a, b: "b"),
    "less": (_lex("<", 1), lambda a, b: "b"),
    "less_equal": (_lex("<=", 0), lambda a, b: "b"),
    "greater": (lambda a, b, k1, k2: _lex("<", 1)(b, a, k2, k1), lambda a, b: "b"),
    "greater_equal": (lambda a, b, k1, k2: _lex("<=", 0)(b, a, k2, k1), lambda a, b: "b"),
}
LOGIC = {
    "logical_and": lambda a, b: T.band(a, b),
    "logical_or": lambda a, b: T.bor(a, b),
    "logical_xor": lambda a, b: T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b)),
}


def mk(a, dims, kind, mask=None):
    """wrap: scalars become Sym"""
    if not isinstance(a, np.ndarray):
        return Sym(a, kind)
    if a.ndim == 0:
        return Sym(a[()], kind)
    r = SymArray(a, dims, kind)
    r.mask = mask
    return r


def parts(x):
    """(object ndarray of nodes, dims, kind, mask) of anything array-like"""
    if isinstance(x, SymLen):
        x = x.value
    if isinstance(x, SymArray):
        return x.a, x.dims, x.kind, x.mask
    if isinstance(x, Sym):
        return x._arr(), (), x.kind, None
    if isinstance(x, (bool, np.bool_)):
        a = np.empty((), dtype=object)
        a[()] = T.TRUE if x else T.FALSE
        return a, (), "b", None
    if isinstance(x, numbers.Number):
        a = np.empty((), dtype=object)
        a[()] = T.lift(x)
        return a, (), kind_of(x), None
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            s = from_obj(x)
            return s.a, s.dims, s.kind, None
        k = kind_of_dtype(x.dtype)
        a = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            a[i] = (T.TRUE if x[i] else T.FALSE) if k == "b" else T.lift(x[i].item())
        return a, (None,) * x.ndim, k, None
    if isinstance(x, (list, tuple)):
        s = build(x)
        if isinstance(s, Sym):
            return s._arr(), (), s.kind, None
        if isinstance(s, SymArray):
            return s.a, s.dims, s.kind, None
        return parts(s)
    try:
        import pandas as pd
        if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
            return parts(x.to_numpy())
    except ImportError:
        pass
    if hasattr(x, "__array__") and not isinstance(x, (str, bytes, type)):
        return parts(np.asarray(x))
    raise Unsupported(f"operand of type {type(x).__name__}")


def from_obj(x):
    """an object ndarray holding Sym scalars or numbers"""
    a = np.empty(x.shape, dtype=object)
    k = "b"
    ks = set()
    for i in np.ndindex(*x.shape):
        v = x[i]
        ks.add(kind_of(v))
        a[i] = v.node if isinstance(v, Sym) else T.lift(v)
    for q in ks:
        k = kmax(k, q)
    return SymArray(a, (None,) * x.ndim, k)


def broadcast_dims(xs):
    """xs: list of (a, dims) -> broadcast arrays and dims"""
    nd = max(a.ndim for a, d in xs)
    out_d = [None] * nd
    size = [1] * nd
    for a, d in xs:
        off = nd - a.ndim
        for i in range(a.ndim):
            j = i + off
            if d[i] is not None:
                if out_d[j] is not None and out_d[j] is not d[i]:
                    raise Unsupported("broadcast of two different symbolic axes")
                out_d[j] = d[i]
            elif a.shape[i] != 1:
                if size[j] not in (1, a.shape[i]):
                    raise ValueError("operands could not be broadcast together")
                size[j] = a.shape[i]
    for j in range(nd):
        if out_d[j] is not None and size[j] != 1:
            raise Unsupported("broadcast of a symbolic axis with a concrete one")
    return tuple(size), tuple(out_d)


def vec(f, *arrs):
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    out = np.empty(shape, dtype=object)
    bs = [np.broadcast_to(a, shape) for a in arrs]
    for i in np.ndindex(*shape):
        out[i] = f(*[b[i] for b in bs])
    return out


def unary(name, x):
    f, kf = UN[name]
    a, d, k, m = parts(x)
    kk = k
    if k == "b" and name not in ("logical_not", "invert"):
        a = vec(lambda n: n_num(n, "b"), a)
        kk = "i"
    return mk(vec(lambda n: f(n, kk), a), d, kf(k), m)


def binary(name, x, y):
    xa, xd, xk, xm = parts(x)
    ya, yd, yk, ym = parts(y)
    m = xm if xm is not None else ym
    if xm is not None and ym is not None and xm is not ym:
        if xm.key() != ym.key():
            raise Unsupported("operands selected by different masks")
    if m is not None and (xm is None and xa.ndim or ym is None and ya.ndim):
        raise Unsupported("masked and unmasked operands")
    _, d = broadcast_dims([(xa, xd), (ya, yd)])
    if name in LOGIC:
        g = LOGIC[name]
        return mk(vec(lambda p, q: g(n_bool(p, xk), n_bool(q, yk)), xa, ya), d, "b", m)
    f, kf = BIN[name]
    if xk == "b" and yk == "b" and name in ("equal", "not_equal"):
        def g(p, q):
            e = T.bor(T.band(p, q), T.band(T.bnot(p), T.bnot(q)))
            return e if name == "equal" else T.bnot(e)
        return mk(vec(g, xa, ya), d, "b", m)
    if xk == "b" and yk == "b" and name in ("add", "multiply"):
        return mk(vec(T.bor if name == "add" else T.band, xa, ya), d, "b", m)
    if xk == "b":
        xa = vec(lambda n: n_num(n, "b"), xa)
    if yk == "b":
        ya = vec(lambda n: n_num(n, "b"), ya)
    if name == "power" and xk == "i" and yk == "i":
        pass
    return mk(vec(lambda p, q: f(p, q, xk, yk), xa, ya), d, kf(xk, yk), m)


def is_sym(x, depth=3):
    if isinstance(x, (Sym, SymArray, SymLen, MaskIdx, PermIdx)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(is_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(is_sym(y, depth - 1) for y in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, Sym) for y in x.flat)
    return False


class _Ops:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __add__(self, o):
        return _tryop("add", self, o)

    def __radd__(self, o):
        return _tryop("add", o, self)

    def __sub__(self, o):
        return _tryop("subtract", self, o)

    def __rsub__(self, o):
        return _tryop("subtract", o, self)

    def __mul__(self, o):
        return _tryop("multiply", self, o)

    def __rmul__(self, o):
        return _tryop("multiply", o, self)

    def __truediv__(self, o):
        return _tryop("divide", self, o)

    def __rtruediv__(self, o):
        return _tryop("divide", o, self)

    def __floordiv__(self, o):
        return _tryop("floor_divide", self, o)

    def __rfloordiv__(self, o):
        return _tryop("floor_divide", o, self)

    def __mod__(self, o):
        return _tryop("mod", self, o)

    def __rmod__(self, o):
        return _tryop("mod", o, self)

    def __pow__(self, o, mod=None):
        return _tryop("power", self, o)

    def __rpow__(self, o):
        return _tryop("power", o, self)

    def __neg__(self):
        return unary("negative", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unary("absolute", self)

    def __invert__(self):
        return unary("invert", self)

    def __lt__(self, o):
        return _tryop("less", self, o)

    def __le__(self, o):
        return _tryop("less_equal", self, o)

    def __gt__(self, o):
        return _tryop("greater", self, o)

    def __ge__(self, o):
        return _tryop("greater_equal", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return _tryop("equal", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return True
        return _tryop("not_equal", self, o)

    def __and__(self, o):
        return _logic("logical_and", self, o)

    def __rand__(self, o):
        return _logic("logical_and", o, self)

    def __or__(self, o):
        return _logic("logical_or", self, o)

    def __ror__(self, o):
        return _logic("logical_or", o, self)

    def __xor__(self, o):
        return _logic("logical_xor", self, o)

    def __hash__(self):
        return id(self)

    def __float__(self):
        raise Unsupported("conversion of a symbolic value to float")

    def __int__(self):
        raise Unsupported("conversion of a symbolic value to int")

    def __complex__(self):
        raise Unsupported("conversion of a symbolic value to complex")

    def __index__(self):
        raise Unsupported("symbolic value used as an index")

    def __array__(self, *a, **k):
        raise Unsupported("symbolic value handed to an unmodelled numpy function")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()


for _name in ("sqrt", "exp", "log", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "conjugate", "conj",
              "deg2rad", "rad2deg", "radians", "degrees", "square", "cbrt", "sinh", "cosh", "tanh",
              "log10", "floor", "isnan"):
    def _f(self, _name=_name):
        return unary(_name, self)
    setattr(_Ops, _name, _f)


def _tryop(name, x, y):
    for z in (x, y):
        if z is None or isinstance(z, (str, bytes, dict, set, type)) or not (
                isinstance(z, (_Ops, numbers.Number, np.ndarray, np.generic, list, tuple)) or hasattr(z, "__array__")):
            return NotImplemented
    try:
        import pandas as pd
        if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)) or isinstance(y, (pd.Series, pd.DataFrame, pd.Index)):
            if isinstance(x, SymArray):
                x = x.objects()
                return getattr(np, name)(x, y)
            if isinstance(y, SymArray):
                return getattr(np, name)(x, y.objects())
            # a scalar with every cell
            if isinstance(x, Sym) and not isinstance(y, pd.Index):
                return y.astype(object).map(lambda v: binary(name, x, v))
            if isinstance(y, Sym) and not isinstance(x, pd.Index):
                return x.astype(object).map(lambda v: binary(name, v, y))
            return NotImplemented
    except ImportError:
        pass
    return binary(name, x, y)


def _logic(name, x, y):
    for z in (x, y):
        if kind_of(z) != "b":
            return NotImplemented
    return binary(name, x, y)


class Sym(_Ops):
    __slots__ = ("node", "kind")

    def __init__(self, node, kind):
        self.node = node
        self.kind = kind

    def _arr(self):
        a = np.empty((), dtype=object)
        a[()] = self.node
        return a

    def __repr__(self):
        return f"Sym({T.show(self.node, 4)})"

    def __bool__(self):
        n = n_bool(self.node, self.kind)
        if n is T.TRUE:
            return True
        if n is T.FALSE:
            return False
        return Hooks.decide(n)

    def __float__(self):
        n = self.node
        if n.op == "c" and n.real:
            return float(n.pl[0])
        raise Unsupported("conversion of a symbolic value to float")

    @property
    def real(self):
        return unary("real", self)

    @property
    def imag(self):
        return unary("imag", self)

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": int, "f": float, "c": complex}[self.kind])

    def copy(self):
        return self

    def item(self):
        return self

    def round(self, *a):
        raise Unsupported("round")

    __round__ = round

    def is_integer(self):
        raise Unsupported("is_integer")

    def astype(self, dt, copy=True):
        return cast(self, kind_of_dtype(dt))

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        return SymArray(self._arr(), (), self.kind)[i]

    # numpy object-array discovery must treat a Sym as a scalar
    def __len__(self):
        raise TypeError("len() of unsized object")

    def __iter__(self):
        raise TypeError("iteration over a 0-d array")


class Pos:
    """an arbitrary position on a symbolic axis"""

    def __init__(self, key):
        self.key = key


class MaskIdx:
    """np.nonzero of a symbolic condition: a set of positions described by the condition itself"""

    def __init__(self, cond):
        self.cond = cond  # SymArray of kind 'b'

    def key(self):
        return tuple(n.id for n in self.cond.a.flat)

    def __len__(self):
        return self.cond.a.ndim

    def __iter__(self):
        raise Unsupported("iteration over symbolic positions")

    def __getitem__(self, i):
        return MaskIdxComp(self, i)


class MaskIdxComp:
    def __init__(self, m, i):
        self.m, self.i = m, i


class PermIdx:
    """a sorting permutation of the last axis of symbolic keys"""

    def __init__(self, token, n, dims):
        self.token, self.n, self.dims = token, n, dims


def cast(x, k):
    a, d, k0, m = parts(x)
    if k is None or k == k0:
        return mk(a.copy(), d, k0, m)
    if k0 == "b":
        a = vec(lambda n: n_num(n, "b"), a)
    if k == "b":
        return mk(vec(lambda n: n_bool(n, k0), a), d, "b", m)
    if KORD[k] >= KORD[k0]:
        return mk(a.copy(), d, k, m)
    if k0 == "c":
        if all(n.real for n in a.flat):
            pass
        else:
            a = vec(T.re, a)
        k0 = "f"
    if k == "f":
        return mk(a, d, "f", m)
    if k == "i":
        if all(n.op == "c" and n.pl[0].denominator == 1 for n in a.flat):
            return mk(a, d, "i", m)
        return mk(vec(n_trunc, a), d, "i", m)
    raise Unsupported(f"cast {k0} to {k}")


class SymArray(_Ops):
    __slots__ = ("a", "dims", "kind", "mask", "tag", "__weakref__")

    def __init__(self, a, dims, kind):
        assert a.ndim == len(dims), (a.shape, dims)
        self.a = a
        self.dims = tuple(dims)
        self.kind = kind
        self.mask = None
        self.tag = None

    def __repr__(self):
        return f"SymArray{self.shape}{self.kind}"

    @property
    def shape(self):
        return tuple(SymLen(d) if d is not None else s for s, d in zip(self.a.shape, self.dims))

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        if any(d is not None for d in self.dims):
            ds = [d for d in self.dims if d is not None]
            if len(ds) == 1 and self.a.size == 1:
                return SymLen(ds[0])
            raise Unsupported("size of an array with a symbolic axis")
        return self.a.size

    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": int, "f": float, "c": complex}[self.kind])

    @property
    def T(self):
        return SymArray(self.a.T, self.dims[::-1], self.kind)

    @property
    def real(self):
        return unary("real", self)

    @real.setter
    def real(self, v):
        v = cast(v, "f")
        new = binary("add", v, binary("multiply", 1j, self.imag))
        self[...] = new

    @property
    def imag(self):
        return unary("imag", self)

    @imag.setter
    def imag(self, v):
        if self.kind != "c":
            raise TypeError("array does not have imaginary part to set")
        self[...] = binary("add", self.real, binary("multiply", 1j, cast(v, "f")))

    @property
    def flat(self):
        return iter(self.ravel())

    def objects(self):
        """concrete object ndarray of Sym scalars"""
        if any(d is not None for d in self.dims):
            raise Unsupported("symbolic axis in pandas data")
        out = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            out[i] = Sym(self.a[i], self.kind)
        return out

    def copy(self, *a):
        r = SymArray(self.a.copy(), self.dims, self.kind)
        r.mask = self.mask
        return r

    def astype(self, dt, copy=True):
        return cast(self, kind_of_dtype(dt))

    def __len__(self):
        if not self.a.ndim:
            raise TypeError("len() of unsized object")
        if self.dims[0] is not None:
            raise Unsupported("len() of a symbolic axis")
        return self.a.shape[0]

    def __bool__(self):
        if self.a.size == 1 and all(d is None for d in self.dims):
            return bool(Sym(self.a.flat[0], self.kind))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        if self.dims[0] is not None:
            raise Unsupported("iteration over a symbolic axis")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __contains__(self, v):
        raise Unsupported("membership in a symbolic array")

    # ---- indexing
    def _norm_index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if Ellipsis in [i for i in idx if i is Ellipsis]:
            p = [k for k, i in enumerate(idx) if i is Ellipsis][0]
            idx = idx[:p] + (slice(None),) * (self.a.ndim - n) + idx[p + 1:]
        else:
            idx = idx + (slice(None),) * (self.a.ndim - n)
        return idx

    def __getitem__(self, idx):
        if isinstance(idx, MaskIdx):
            r = self.copy()
            r.mask = idx
            return r
        if isinstance(idx, SymArray) and idx.kind == "b":
            if idx.a.ndim != self.a.ndim:
                raise Unsupported("boolean mask of lower rank")
            r = self.copy()
            r.mask = MaskIdx(idx)
            return r
        if isinstance(idx, (SymArray, Sym, PermIdx)):
            raise Unsupported("indexing with a symbolic array")
        idx = self._norm_index(idx)
        out_dims, real_idx, ax = [], [], 0
        sub = []
        adv = False
        for i in idx:
            if i is None:
                out_dims.append(None)
                real_idx.append(None)
                continue
            d = self.dims[ax]
            if isinstance(i, slice):
                if d is not None:
                    if i != slice(None):
                        if i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                            pass
                        elif i.start is None and i.stop is None and i.step == -1:
                            raise Unsupported("reversal of a symbolic axis")
                        else:
                            raise Unsupported("slice of a symbolic axis")
                    real_idx.append(slice(None))
                else:
                    real_idx.append(i)
                out_dims.append(d)
            elif isinstance(i, (numbers.Integral, np.integer)):
                if d is not None:
                    sub.append((d, int(i)))
                    real_idx.append(0)
                else:
                    real_idx.append(int(i))
            elif isinstance(i, Pos):
                if d is None:
                    raise Unsupported("position on a concrete axis")
                sub.append((d, i.key))
                real_idx.append(0)
            elif isinstance(i, (list, np.ndarray)):
                if d is not None:
                    raise Unsupported("list index on a symbolic axis")
                i = np.asarray(i)
                if i.ndim != 1:
                    raise Unsupported("fancy index")
                real_idx.append(i)
                out_dims.append(None)
                adv = True
            elif isinstance(i, (Sym, SymArray)):
                raise Unsupported("symbolic index")
            elif isinstance(i, SymLen):
                raise Unsupported("symbolic length as index")
            else:
                raise Unsupported(f"index {type(i).__name__}")
            ax += 1
        if adv and sum(isinstance(i, (np.ndarray, int)) for i in real_idx) > 1 and \
                sum(isinstance(i, np.ndarray) for i in real_idx) + sum(isinstance(i, int) for i in real_idx) > 1:
            raise Unsupported("mixed fancy index")
        a = self.a[tuple(real_idx)]
        if not isinstance(a, np.ndarray):
            node = a
            for d, i in sub:
                node = T.reindex(node, d, i)
            return Sym(node, self.kind)
        if sub:
            def f(n):
                for d, i in sub:
                    n = T.reindex(n, d, i)
                return n
            a = vec(f, a)
        if a.ndim != len(out_dims):
            raise Unsupported("index result")
        r = SymArray(a, out_dims, self.kind)
        r.mask = None
        return r

    def __setitem__(self, idx, value):
        if isinstance(idx, (MaskIdx, SymArray)):
            cond = idx.cond if isinstance(idx, MaskIdx) else idx
            va, vd, vk, vm = parts(value)
            if vm is None and va.ndim:
                raise Unsupported("masked assignment from an unmasked array")
            if vm is not None and vm.key() != tuple(n.id for n in cond.a.flat):
                raise Unsupported("masked assignment from another mask")
            self._check_kind(vk, va)
            va = vec(lambda n: n_num(n, vk) if self.kind != "b" else n, va)
            self.a[...] = vec(lambda c, v, o: T.ite(c, v, o), cond.a, np.broadcast_to(va, self.a.shape), self.a)
            return
        full = self._norm_index(idx)
        lists = [k for k, i in enumerate(full) if isinstance(i, (list, np.ndarray))]
        if len(lists) == 1 and None not in [i for i in full if i is None] and \
                all(isinstance(i, slice) for k, i in enumerate(full) if k not in lists):
            # a list of positions on one axis: one assignment per position
            k = lists[0]
            pos = np.asarray(full[k])
            if pos.ndim == 1 and pos.dtype != bool and self.dims[k] is None:
                va, vd, vk, vm = parts(value)
                if vm is not None or va.ndim != self.a.ndim or va.shape[k] not in (1, len(pos)) or vd[k] is not None:
                    raise Unsupported("assignment index")
                val = mk(va.copy(), vd, vk)
                for j, q in enumerate(pos):
                    one = [slice(None)] * self.a.ndim
                    one[k] = 0 if va.shape[k] == 1 else j
                    self[tuple(full[:k]) + (int(q),) + tuple(full[k + 1:])] = val[tuple(one)]
                return
        view = self._view(idx)
        va, vd, vk, vm = parts(value)
        if vm is not None:
            raise Unsupported("assignment from a masked selection")
        self._check_kind(vk, va)
        if isinstance(view, tuple):  # single element
            arr, pos = view
            if va.ndim and va.size == 1:
                va = va.reshape(())
            elif va.ndim:
                raise ValueError("setting an array element with a sequence.")
            arr[pos] = n_num(va[()], vk) if self.kind != "b" else va[()]
            return
        # dims compatibility
        off = view.a.ndim - va.ndim
        if off < 0:
            if all(s == 1 for s in va.shape[:-off]) and all(d is None for d in vd[:-off]):
                va = va.reshape(va.shape[-off:])
                vd = vd[-off:]
                off = 0
            else:
                raise ValueError("could not broadcast input array")
        for i in range(va.ndim):
            td, sd = view.dims[i + off], vd[i]
            if sd is not None and sd is not td:
                if td is None and view.a.shape[i + off] == 1:
                    raise Unsupported("assignment of a symbolic axis into a concrete one")
                raise Unsupported("assignment between different axes")
            if td is not None and sd is None and va.shape[i] != 1:
                raise Unsupported("assignment of a concrete axis into a symbolic one")
        va = np.broadcast_to(va, view.a.shape)
        va = va.copy()
        if self.kind != "b" and vk == "b":
            va = vec(lambda n: n_num(n, "b"), va)
        view.a[...] = va

    def _check_kind(self, vk, va):
        if KORD[vk] > KORD[self.kind]:
            if self.kind == "i" and vk == "f" and all(n.op == "c" and n.pl[0].denominator == 1 for n in va.flat):
                return
            if self.kind == "f" and vk == "c":
                raise Unsupported("complex value assigned into a real array")
            raise Unsupported("value assigned into an array of a lower kind")

    def _view(self, idx):
        if isinstance(idx, (Sym, PermIdx)):
            raise Unsupported("symbolic index")
        idx = self._norm_index(idx)
        out_dims, real_idx, ax = [], [], 0
        for i in idx:
            if i is None:
                out_dims.append(None)
                real_idx.append(None)
                continue
            d = self.dims[ax]
            if isinstance(i, slice):
                if d is not None and i != slice(None):
                    raise Unsupported("slice of a symbolic axis")
                real_idx.append(i)
                out_dims.append(d)
            elif isinstance(i, (numbers.Integral, np.integer)):
                if d is not None:
                    raise Unsupported("assignment to one element of a symbolic axis")
                real_idx.append(int(i))
            else:
                raise Unsupported("assignment index")
            ax += 1
        if all(isinstance(i, int) for i in real_idx):
            return (self.a, tuple(real_idx))
        return SymArray(self.a[tuple(real_idx)], out_dims, self.kind)

    def _inplace(self, name, o):
        r = binary(name, self, o)
        if KORD[r.kind] > KORD[self.kind]:
            raise TypeError(f"Cannot cast ufunc '{name}' output")
        if r.a.shape != self.a.shape:
            raise ValueError("non-broadcastable output operand")
        self.a[...] = r.a
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("subtract", o)

    def __imul__(self, o):
        return self._inplace("multiply", o)

    def __itruediv__(self, o):
        return self._inplace("divide", o)

    def __ipow__(self, o):
        return self._inplace("power", o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # ---- methods
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        if any(d is not None for d in self.dims):
            if self.a.size == 1 and sum(d is not None for d in self.dims) == 1:
                return SymArray(self.a.reshape(1), tuple(d for d in self.dims if d is not None), self.kind)
            raise Unsupported("ravel of a symbolic axis")
        return SymArray(self.a.reshape(-1), (None,), self.kind)

    flatten = ravel

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return SymArray(self.a.transpose(axes), tuple(self.dims[i] for i in axes), self.kind)

    def swapaxes(self, i, j):
        d = list(self.dims)
        d[i], d[j] = d[j], d[i]
        return SymArray(self.a.swapaxes(i, j), d, self.kind)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def sum(self, axis=None, **kw):
        return reduce_sum(self, axis, **kw)

    def mean(self, axis=None, **kw):
        return reduce_mean(self, axis, **kw)

    def prod(self, axis=None):
        if any(d is not None for d in self.dims) or axis is not None:
            raise Unsupported("prod")
        r = T.ONE
        for n in self.a.flat:
            r = T.mul(r, n_num(n, self.kind))
        return Sym(r, self.kind)

    def any(self, axis=None, **kw):
        return reduce_any(self, axis)

    def all(self, axis=None, **kw):
        return reduce_all(self, axis)

    def dot(self, o):
        return dot(self, o)

    def tolist(self):
        if any(d is not None for d in self.dims):
            raise Unsupported("tolist of a symbolic axis")
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def item(self):
        if self.a.size == 1 and all(d is None for d in self.dims):
            return Sym(self.a.flat[0], self.kind)
        raise Unsupported("item")

    def fill(self, v):
        self[...] = v

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return SymArray(self.a.diagonal(offset, axis1, axis2).copy(),
                        tuple(d for i, d in enumerate(self.dims) if i not in (axis1 % self.a.ndim, axis2 % self.a.ndim)) + (None,),
                        self.kind)

    def repeat(self, n, axis=None):
        raise Unsupported("repeat")

    def min(self, axis=None, **k):
        return reduce_extreme(self, "minimum", axis, **k)

    def max(self, axis=None, **k):
        return reduce_extreme(self, "maximum", axis, **k)


# ---------------------------------------------------------------- structural functions
def reshape(x, shape):
    a, d, k, m = parts(x)
    if m is not None:
        raise Unsupported("reshape of a masked selection")
    if isinstance(shape, (numbers.Integral, SymLen)):
        shape = (shape,)
    shape = tuple(shape)
    out_d, size = [], []
    for s in shape:
        if isinstance(s, SymLen):
            out_d.append(s.dim)
            size.append(1)
        else:
            out_d.append(None)
            size.append(int(s))
    src = [x_ for x_ in d if x_ is not None]
    dst = [x_ for x_ in out_d if x_ is not None]
    if src != dst:
        # allow -1 to stand for a single symbolic axis
        if len(src) == 1 and not dst and -1 in size:
            p = size.index(-1)
            rest = [s for s in size if s != -1]
            if int(np.prod(rest or [1])) == a.size:
                out_d[p] = src[0]
                size[p] = 1
            else:
                raise Unsupported("reshape of a symbolic axis")
        else:
            raise Unsupported("reshape of a symbolic axis")
    # the symbolic axis must keep its position relative to the data order: only sound when every axis before it
    # contributes the same product on both sides
    if src:
        def pos(dd, sh):
            i = [x_ is not None for x_ in dd].index(True)
            return int(np.prod([s for s in sh[:i]] or [1]))
        na = a
        tgt = np.empty(0)
        try:
            new = a.reshape(size)
        except ValueError:
            raise
        if pos(d, a.shape) != pos(out_d, new.shape):
            raise Unsupported("reshape moves a symbolic axis")
        return SymArray(new, out_d, k)
    return mk(a.reshape(size), out_d, k) if len(size) else mk(a.reshape(()), (), k)


def squeeze(x, axis=None):
    a, d, k, m = parts(x)
    if axis is None:
        axes = [i for i in range(a.ndim) if a.shape[i] == 1 and d[i] is None]
        # a symbolic axis of length one would be squeezed too: handled by the caller through its minimum length
        for i in range(a.ndim):
            if d[i] is not None and d[i].minimum < 2:
                raise Unsupported("squeeze of a symbolic axis that may have length one")
    else:
        axes = [axis] if isinstance(axis, numbers.Integral) else list(axis)
        axes = [i % a.ndim for i in axes]
        for i in axes:
            if d[i] is not None or a.shape[i] != 1:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return mk(a.reshape([s for i, s in enumerate(a.shape) if i not in axes]),
              tuple(s for i, s in enumerate(d) if i not in axes), k)


def build(x, kind=None):
    """np.array of nested sequences"""
    if isinstance(x, (Sym, SymArray)):
        return cast(x, kind) if kind else x.copy()
    if isinstance(x, (list, tuple)):
        items = [build(y) if isinstance(y, (list, tuple)) else y for y in x]
        if not items:
            return SymArray(np.empty((0,), dtype=object), (None,), "f")
        r = stack(items)
        if kind and not isinstance(r, SymArray):
            return r.astype({"b": bool, "i": int, "f": float, "c": complex}[kind])
        return cast(r, kind) if kind else r
    a, d, k, m = parts(x)
    return cast(mk(a.copy(), d, k), kind)


def stack(items, axis=0):
    ps = [parts(i) for i in items]
    if MEMBERS:
        from .members import loose
        dm = [q for q in map(loose, items) if q is not None]
        if dm:
            if len(ps) != 1 or ps[0][3] is not None:
                raise Unsupported("values of a member of an arbitrary list among others")
            a, d, k, _ = ps[0]
            axis = axis % (a.ndim + 1)
            return SymArray(np.expand_dims(a, axis).copy(), d[:axis] + (dm[0],) + d[axis:], k)
    if INDICES and len(items) == 1:
        from .indexed import from_item
        r = from_item(items[0])
        if r is not None:
            if axis:
                raise Unsupported("an array of arbitrarily many elements along a later axis")
            return r
    nd = {p[0].ndim for p in ps}
    if len(nd) != 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    dims = ps[0][1]
    for p in ps:
        if p[3] is not None:
            raise Unsupported("stack of masked selections")
        if p[1] != dims or p[0].shape != ps[0][0].shape:
            if p[0].shape != ps[0][0].shape and all(a is None for a in p[1]) and all(a is None for a in dims):
                raise ValueError("inhomogeneous shape")
            if p[0].shape != ps[0][0].shape or not all(
                    (a is b) for a, b in zip(p[1], dims)):
                raise Unsupported("stack of arrays with different symbolic axes")
    k = kmax(*[p[2] for p in ps])
    arrs = [vec(lambda n: n_num(n, "b"), p[0]) if p[2] == "b" and k != "b" else p[0] for p in ps]
    nd = next(iter(nd))
    axis = axis % (nd + 1)
    out = np.empty((len(arrs),) + arrs[0].shape, dtype=object)
    for i, a in enumerate(arrs):
        out[i, ...] = a
    out = np.moveaxis(out, 0, axis)
    d = dims[:axis] + (None,) + dims[axis:]
    return SymArray(out.copy(), d, k)


def concatenate(items, axis=0):
    items = list(items)
    ps = [parts(i) for i in items]
    nd = ps[0][0].ndim
    axis = axis % nd
    dims = ps[0][1]
    for p in ps:
        if p[1] != dims:
            raise Unsupported("concatenation of arrays with different symbolic axes")
        if p[3] is not None:
            raise Unsupported("concatenation of masked selections")
    if dims[axis] is not None:
        raise Unsupported("concatenation along a symbolic axis")
    k = kmax(*[p[2] for p in ps])
    return SymArray(np.concatenate([p[0] for p in ps], axis=axis), dims, k)


def matmul(x, y):
    xa, xd, xk, xm = parts(x)
    ya, yd, yk, ym = parts(y)
    if xm is not None or ym is not None:
        raise Unsupported("matmul of masked selections")
    if not xa.ndim or not ya.ndim:
        raise ValueError("matmul: operand does not have enough dimensions")
    sx = sy = False
    if xa.ndim == 1:
        xa, xd, sx = xa[None, :], (None,) + xd, True
    if ya.ndim == 1:
        ya, yd, sy = ya[:, None], yd + (None,), True
    if xd[-1] is not None or yd[-2] is not None:
        raise Unsupported("matmul over a symbolic axis")
    if xa.shape[-1] != ya.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    _, bd = broadcast_dims([(xa[..., 0, 0], xd[:-2]), (ya[..., 0, 0], yd[:-2])])
    bshape = np.broadcast_shapes(xa.shape[:-2], ya.shape[:-2])
    n, m, p = xa.shape[-2], xa.shape[-1], ya.shape[-1]
    X = np.broadcast_to(xa, bshape + (n, m))
    Y = np.broadcast_to(ya, bshape + (m, p))
    out = np.empty(bshape + (n, p), dtype=object)
    for b in np.ndindex(*bshape):
        for i in range(n):
            for j in range(p):
                s = T.ZERO
                for q in range(m):
                    s = T.add(s, T.mul(X[b + (i, q)], Y[b + (q, j)]))
                out[b + (i, j)] = s
    d = bd + (xd[-2], yd[-1])
    if sx:
        out, d = out[..., 0, :], d[:-2] + d[-1:]
    if sy:
        out, d = out[..., 0], d[:-1]
    return mk(out, d, kmax(xk, yk))


def dot(x, y):
    xa, xd, xk, _ = parts(x)
    ya, yd, yk, _ = parts(y)
    if not xa.ndim or not ya.ndim:
        return binary("multiply", x, y)
    if ya.ndim == 1:
        if xd[-1] is not None or yd[0] is not None:
            if xd[-1] is yd[0] and xa.ndim == 1:
                return Sym(T.bigsum(xd[-1], T.mul(xa[0], ya[0])), kmax(xk, yk))
            raise Unsupported("dot over a symbolic axis")
        return matmul(x, y)
    if xa.ndim <= 2 and ya.ndim == 2:
        return matmul(x, y)
    lx = "abcdefg"[: xa.ndim - 1]
    ly = list("hijklmn"[: ya.ndim])
    ly[-2] = "z"
    return einsum(lx + "z," + "".join(ly) + "->" + lx + "".join(c for c in ly if c != "z"), x, y)


def einsum(sub, *ops, **kw):
    sub = sub.replace(" ", "")
    ps = [parts(o) for o in ops]
    if any(p[3] is not None for p in ps):
        raise Unsupported("einsum of masked selections")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins, out = sub, None
    ins = ins.split(",")
    if len(ins) != len(ps):
        raise ValueError("einsum: number of operands")
    nell = max([p[0].ndim - len(i.replace("...", "")) for i, p in zip(ins, ps) if "..." in i] or [0])
    ell = "".join(chr(0x410 + i) for i in range(nell))
    full = []
    for i, p in zip(ins, ps):
        if "..." in i:
            n = p[0].ndim - len(i.replace("...", ""))
            i = i.replace("...", ell[nell - n:])
        if len(i) != p[0].ndim:
            raise ValueError("einsum: operand has the wrong number of dimensions")
        full.append(i)
    if out is None:
        letters = "".join(full)
        out = ("" if not nell else ell) + "".join(sorted(c for c in set(letters) if letters.count(c) == 1 and c not in ell))
    else:
        out = out.replace("...", ell)
    size, dim = {}, {}
    for i, p in zip(full, ps):
        for c, s, d in zip(i, p[0].shape, p[1]):
            if d is not None:
                if c in dim and dim[c] is not d:
                    raise Unsupported("einsum of two different symbolic axes")
                dim[c] = d
            elif s != 1 or c not in size:
                if size.get(c, 1) not in (1, s) and s != 1:
                    raise ValueError("einsum: dimension mismatch")
                size[c] = max(size.get(c, 1), s)
    for c in dim:
        if size.get(c, 1) != 1:
            raise Unsupported("einsum of a symbolic with a concrete axis")
        size[c] = 1
    letters = list(out) + [c for c in size if c not in out]
    summed = [c for c in size if c not in out]
    osize = [size[c] for c in out]
    res = np.empty(osize, dtype=object)
    ssize = [size[c] for c in summed]
    arrs = [vec(lambda n: n_num(n, p[2]), p[0]) for p in ps]
    for o in np.ndindex(*osize):
        tot = T.ZERO
        val = dict(zip(out, o))
        for s in np.ndindex(*ssize):
            val.update(zip(summed, s))
            t = T.ONE
            for i, a in zip(full, arrs):
                t = T.mul(t, a[tuple(val[c] if a.shape[q] != 1 else 0 for q, c in enumerate(i))])
                if t is T.ZERO:
                    break
            tot = T.add(tot, t)
        for c in summed:
            if c in dim:
                tot = T.bigsum(dim[c], tot)
        res[o] = tot
    return mk(res, tuple(dim.get(c) for c in out), _k2(*( [kmax(*[p[2] for p in ps])] * 2)))


def reduce_sum(x, axis=None, **kw):
    a, d, k, m = parts(x)
    if m is not None:
        raise Unsupported("sum of a masked selection")
    if kw.get("keepdims"):
        raise Unsupported("keepdims")
    a = vec(lambda n: n_num(n, k), a)
    axes = range(a.ndim) if axis is None else ([axis] if isinstance(axis, numbers.Integral) else axis)
    axes = sorted({i % a.ndim for i in axes}, reverse=True)
    d = list(d)
    for ax in axes:
        if d[ax] is not None:
            dm = d[ax]
            a = vec(lambda n: T.bigsum(dm, n) if dm in n.dims else T.mul(dm.node, n), a.take(0, axis=ax) if a.ndim > 1 else np.asarray(a[0], dtype=object))
        else:
            parts_ = [np.asarray(a.take(i, axis=ax), dtype=object) for i in range(a.shape[ax])]
            if not parts_:
                acc = vec(lambda: T.ZERO) if a.ndim == 1 else None
                if acc is None:
                    raise Unsupported("empty sum")
            else:
                acc = parts_[0]
                for q in parts_[1:]:
                    acc = vec(T.add, acc, q)
            a = acc
        if not isinstance(a, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = a
            a = t
        del d[ax]
    return mk(a, tuple(d), "i" if k == "b" else k)


def reduce_mean(x, axis=None, **kw):
    a, d, k, m = parts(x)
    axes = range(a.ndim) if axis is None else ([axis] if isinstance(axis, numbers.Integral) else axis)
    n = T.ONE
    for ax in axes:
        ax %= a.ndim
        n = T.mul(n, d[ax].node if d[ax] is not None else T.const(a.shape[ax]))
    s = reduce_sum(x, axis)
    return binary("divide", s, Sym(n, "i"))


def _along(x, axis):
    """the slices of x along axes of definite length (axis None: the scalars of an array without arbitrary axes)"""
    a, d, k, m = parts(x)
    if m is not None:
        raise Unsupported("reduction of a masked selection")
    if axis is None:
        if any(q is not None for q in d):
            raise Unsupported("extreme value along an axis of arbitrary length")
        return [Sym(n, k) for n in a.flat]
    if not isinstance(axis, numbers.Integral) or not -a.ndim <= axis < a.ndim:
        raise Unsupported("reduction along several axes")
    axis = int(axis) % a.ndim
    if d[axis] is not None:
        raise Unsupported("extreme value along an axis of arbitrary length")
    rest = d[:axis] + d[axis + 1:]
    return [mk(np.take(a, i, axis=axis), rest, k) for i in range(a.shape[axis])]


def reduce_extreme(x, name, axis=None, keepdims=False, **k):
    if keepdims or any(v is not None for v in k.values()):
        raise Unsupported("extreme value with extra arguments")
    if parts(x)[2] == "c":
        raise Unsupported("order of complex numbers")
    xs = _along(x, axis)
    if not xs:
        raise ValueError("zero-size array to reduction operation which has no identity")
    r = xs[0]
    for y in xs[1:]:
        r = binary(name, r, y)
    return r


def reduce_any(x, axis=None):
    if axis is not None:
        r = False
        for y in _along(x, axis):
            r = _logic("logical_or", r, y)
        return r
    a, d, k, m = parts(x)
    if m is not None:
        raise Unsupported("any of a masked selection")
    r = T.bor(*[n_bool(n, k) for n in a.flat]) if a.size else T.FALSE
    for dm in d:
        if dm is not None:
            r = T.exists(dm, r)
    return Sym(r, "b")


def reduce_all(x, axis=None):
    if axis is not None:
        r = True
        for y in _along(x, axis):
            r = _logic("logical_and", r, y)
        return r
    a, d, k, m = parts(x)
    if m is not None:
        raise Unsupported("all of a masked selection")
    r = T.band(*[n_bool(n, k) for n in a.flat]) if a.size else T.TRUE
    r = T.bnot(r)
    for dm in d:
        if dm is not None:
            r = T.exists(dm, r)
    return Sym(T.bnot(r), "b")


def where(c, x, y):
    ca, cd, ck, _ = parts(c)
    xa, xd, xk, _ = parts(x)
    ya, yd, yk, _ = parts(y)
    _, d = broadcast_dims([(ca, cd), (xa, xd), (ya, yd)])
    k = kmax(xk, yk)
    if k != "b":
        xa = vec(lambda n: n_num(n, xk), xa)
        ya = vec(lambda n: n_num(n, yk), ya)
    return mk(vec(lambda p, q, r: T.ite(n_bool(p, ck), q, r), ca, xa, ya), d, k)


def inverse(x):
    a, d, k, m = parts(x)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2] or d[-1] is not None or d[-2] is not None:
        raise Unsupported("inverse")
    out = np.empty(a.shape, dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        out[b] = _inverse(a[b])
    return SymArray(out, d, kmax(k, "f"))


def _inverse(M):
    """adjugate over determinant, block by block where the matrix decouples"""
    n = M.shape[0]
    out = np.empty(M.shape, dtype=object)
    out[...] = T.ZERO
    left = set(range(n))
    while left:
        comp, todo = set(), [min(left)]
        while todo:
            i = todo.pop()
            if i in comp:
                continue
            comp.add(i)
            todo += [j for j in left if j not in comp and (M[i, j] is not T.ZERO or M[j, i] is not T.ZERO)]
        left -= comp
        _inverse_block(M, sorted(comp), out)
    return out


def _inverse_block(M, idx, out):
    if len(idx) == 1:
        i = idx[0]
        if M[i, i] is T.ZERO:
            raise np.linalg.LinAlgError("Singular matrix")
        out[i, i] = T.div(T.ONE, M[i, i])
        return
    dets = {}

    def minor(rows, cols):
        key = (rows, cols)
        r = dets.get(key)
        if r is None:
            if len(rows) == 1:
                r = M[rows[0], cols[0]]
            else:
                r = T.ZERO
                for j, c in enumerate(cols):
                    e = M[rows[0], c]
                    if e is T.ZERO:
                        continue
                    t = T.mul(e, minor(rows[1:], cols[:j] + cols[j + 1:]))
                    r = T.add(r, t if j % 2 == 0 else T.neg(t))
            dets[key] = r
        return r
    allr = tuple(idx)
    det = minor(allr, allr)
    if det is T.ZERO:
        raise np.linalg.LinAlgError("Singular matrix")
    for i in idx:
        for j in idx:
            rows = tuple(r for r in allr if r != j)
            cols = tuple(c for c in allr if c != i)
            mm = minor(rows, cols)
            p = idx.index(i) + idx.index(j)
            out[i, j] = T.div(mm if p % 2 == 0 else T.neg(mm), det)


def det(x):
    a, d, k, m = parts(x)
    n = a.shape[-1]

    def dd(M):
        if len(M) == 1:
            return M[0][0]
        r = T.ZERO
        for j in range(len(M)):
            t = T.mul(M[0][j], dd([row[:j] + row[j + 1:] for row in M[1:]]))
            r = T.add(r, t if j % 2 == 0 else T.neg(t))
        return r
    out = np.empty(a.shape[:-2], dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        out[b] = dd([list(r) for r in a[b]])
    return mk(out, d[:-2], k)
