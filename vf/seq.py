"""One-dimensional arrays of arbitrary length n >= 2 seen through their even and odd positions.

A Split holds the generic element of the even and of the odd positions, each on an axis of arbitrary length of its own (ceil(n/2)
and floor(n/2) in NumPy), and optionally a function of the index k that gives the element there (needed for neighbours:
x[k-1], x[0], x[1]).  a[0::2] and a[1::2] are ordinary symbolic arrays; everything else is elementwise or not supported."""
import numbers

from . import sym as S
from . import terms as T
from .sym import Sym, SymArray, SymLen, Unsupported, parts


class SplitLen(SymLen):
    def __init__(self, owner):
        super().__init__(owner.dim)
        self.owner = owner


class Axis:
    """the index set 0..n-1"""

    def __init__(self, E, name):
        self.E = E
        self.dim = E.dim(name, minimum=2)
        self.de, self.do = E.dim(name + "[0::2]"), E.dim(name + "[1::2]")
        # the position of the generic element
        self.je = E.rarray(f"{name} even position", (self.de,), 0, None)
        self.jo = E.rarray(f"{name} odd position", (self.do,), 0, None)
        self.je, self.jo = S.cast(self.je, "f"), S.cast(self.jo, "f")

    def array(self, even, odd, at=None):
        return Split(self, even, odd, at)

    def function(self, at):
        return Split(self, at(2 * self.je), at(2 * self.jo + 1), at)

    def const(self, v, kind="f"):
        z = S.mk(S.vec(lambda n: T.lift(getattr(v, "node", v)), self.je.a), self.je.dims, kind)
        w = S.mk(S.vec(lambda n: T.lift(getattr(v, "node", v)), self.jo.a), self.jo.dims, kind)
        return Split(self, z, w, lambda k: v)


EVEN = [(a, None, 2) for a in (None, 0)]
ODD = [(1, None, 2)]


class Split:
    _vf_split = True
    __array_ufunc__ = None
    __hash__ = None
    ndim = 1

    def __init__(self, axis, even, odd, at=None):
        self.axis, self.even, self.odd, self.at = axis, even, odd, at

    def _vf_len(self):
        return SplitLen(self.axis)

    @property
    def shape(self):
        return (SplitLen(self.axis),)

    @property
    def size(self):
        return SplitLen(self.axis)

    @property
    def kind(self):
        return S.kmax(self.even.kind, self.odd.kind)

    @property
    def dtype(self):
        return self.even.dtype

    @property
    def T(self):
        return self

    def copy(self, *a):
        return Split(self.axis, self.even.copy(), self.odd.copy(), self.at)

    def astype(self, dt, copy=True):
        return self.map(lambda v: v.astype(dt))

    def __deepcopy__(self, memo):
        return self.copy()

    def map(self, f):
        return Split(self.axis, f(self.even), f(self.odd), (lambda k: f(self.at(k))) if self.at else None)

    def zip(self, o, f):
        if isinstance(o, Split):
            if o.axis is not self.axis:
                raise ValueError("operands could not be broadcast together")
            return Split(self.axis, f(self.even, o.even), f(self.odd, o.odd),
                         (lambda k: f(self.at(k), o.at(k))) if self.at and o.at else None)
        if isinstance(o, (Sym, numbers.Number)):
            return self.map(lambda v: f(v, o))
        return NotImplemented

    def _parity(self, i):
        if isinstance(i, slice):
            k = (i.start, i.stop, i.step)
            if k in EVEN:
                return 0
            if k in ODD:
                return 1
        return None

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if idx.count(None) != len(idx) - 1:
            raise Unsupported("index of an array of arbitrary length")
        i = [q for q in idx if q is not None][0]
        p = self._parity(i)
        if p is not None:
            v = self.odd if p else self.even
            return v[tuple(None if q is None else slice(None) for q in idx)]
        if isinstance(i, numbers.Integral) and 0 <= i < 2 and len(idx) == 1 and self.at:
            return self.at(int(i))
        if i == slice(None) and len(idx) == 1:
            return self
        raise Unsupported("index of an array of arbitrary length")

    def __setitem__(self, idx, v):
        p = self._parity(idx)
        if p is None:
            raise Unsupported("assignment to an array of arbitrary length")
        old = self.odd if p else self.even
        new = old.copy()
        new[...] = v
        if p:
            self.odd = new
        else:
            self.even = new
        self.at = None

    def __iter__(self):
        raise Unsupported("loop over an array of arbitrary length")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def _np(self, name, a, k):
        if name == "diff" and a and a[0] is self and len(a) == 1 and set(k) <= {"prepend"} and self.at:
            pre = k.get("prepend")
            if pre is None:
                raise Unsupported("diff of an array of arbitrary length")
            at = self.at

            def first(kk):
                return S.where(S.binary("equal", kk, 0), S.binary("subtract", at(kk), pre),
                               S.binary("subtract", at(kk), at(S.binary("subtract", kk, 1))))
            return self.axis.function(first)
        if name in ("zeros_like", "empty_like", "ones_like") and a[0] is self:
            return self.axis.const(1 if name == "ones_like" else 0, S.kind_of_dtype(k.get("dtype")) or self.kind)
        if name in ("asarray", "array", "asanyarray", "ascontiguousarray", "copy") and not k:
            return self.copy()
        if name in S.UN and len(a) == 1 and not k:
            return self.map(lambda v: S.unary(name, v))
        if name in S.BIN and len(a) == 2 and not k:
            x, y = a
            return x.zip(y, lambda p, q: S.binary(name, p, q)) if isinstance(x, Split) else y.zip(x, lambda p, q: S.binary(name, q, p))
        if name in ("shape",):
            return self.shape
        if name in ("size",):
            return self.size
        if name in ("ndim",):
            return 1
        raise Unsupported(f"np.{name} of an array of arbitrary length")


def _op(name):
    return (lambda s, o: s.zip(o, lambda p, q: S.binary(name, p, q))), (lambda s, o: s.zip(o, lambda p, q: S.binary(name, q, p)))


for _m, _n in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power")):
    _f, _r = _op(_n)
    setattr(Split, f"__{_m}__", _f)
    setattr(Split, f"__r{_m}__", _r)
Split.__neg__ = lambda s: s.map(lambda v: S.unary("negative", v))
