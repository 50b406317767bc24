"""A Python list of arbitrary length as a concatenation of unknown stretches base[lo:hi] and known elements.

Lengths are symbolic integers; slices and positions are located by case distinctions that the engine decides."""
import numbers

from . import indexed as I
from .sym import Sym, Unsupported


class Stretch:
    """base[lo:hi] of an unknown list"""

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    @property
    def n(self):
        return self.hi - self.lo


def size(s):
    return s.n if isinstance(s, Stretch) else 1


class AnyList(list):
    def __init__(self, segs):
        super().__init__()
        self.segs = list(segs)

    def _vf_len(self):
        n = 0
        for s in self.segs:
            n = n + size(s)
        return n

    def __len__(self):
        raise Unsupported("length of a list of arbitrary length")

    def __bool__(self):
        return I.less(0, self._vf_len())

    def _bound(self, v, default):
        n = self._vf_len()
        if v is None:
            return default
        if not isinstance(v, (numbers.Integral, Sym)):
            raise Unsupported("slice bound")
        if I.less(v, 0):
            v = n + v
            return 0 if I.less(v, 0) else v
        return n if I.less(n, v) else v

    def _from(self, at):
        """segments from position at on, and those before"""
        left, pos = [], 0
        for k, s in enumerate(self.segs):
            if I.decide('<=', at, pos):
                return left, self.segs[k:]
            end = pos + size(s)
            if I.decide('<=', end, at):
                left.append(s)
                pos = end
                continue
            cut = s.lo + (at - pos)
            return left + [Stretch(s.base, s.lo, cut)], [Stretch(s.base, cut, s.hi)] + self.segs[k + 1:]
        return left, []

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("stride over a list of arbitrary length")
            n = self._vf_len()
            a, b = self._bound(i.start, 0), self._bound(i.stop, n)
            if I.decide('<=', b, a):
                return AnyList([])
            head, _ = self._from(b)
            return AnyList(AnyList(head)._from(a)[1])
        return self._find(i)[1]

    def _find(self, i):
        if not isinstance(i, (numbers.Integral, Sym)):
            raise Unsupported("list index")
        if I.less(i, 0):
            i = self._vf_len() + i
            if I.less(i, 0):
                raise IndexError("list index out of range")
        pos = 0
        for k, s in enumerate(self.segs):
            if isinstance(s, Stretch):
                if I.less(i, pos + s.n):
                    raise Unsupported("element of an unknown stretch")
            elif I.eq(i, pos):
                return k, s
            pos = pos + size(s)
        raise IndexError("list index out of range")

    def append(self, x):
        self.segs.append(x)

    def pop(self, i=-1):
        n = self._vf_len()
        if I.decide('<=', n, 0):
            raise IndexError("pop from empty list")
        if isinstance(i, int) and i == 0 and isinstance(self.segs[0], Stretch):
            self.segs = self[1:].segs
            return None
        k, x = self._find(i)
        del self.segs[k]
        return x

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b = self._bound(i.start, 0), self._bound(i.stop, self._vf_len())
            if i.step not in (None, 1) or I.less(b, a):
                raise Unsupported("deletion")
            head = self._from(a)[0]
            tail = self._from(b)[1]
            self.segs = head + tail
            return
        self.pop(i)

    def copy(self):
        return AnyList(self.segs)

    def __deepcopy__(self, memo):
        raise Unsupported("copy of a list of arbitrary length")

    def __add__(self, o):
        return AnyList(self.segs + (o.segs if isinstance(o, AnyList) else list(o)))

    def clear(self):
        self.segs = []

    def _no(self, *a, **k):
        raise Unsupported("operation on a list of arbitrary length")

    __iter__ = __reversed__ = __contains__ = __eq__ = insert = extend = remove = index = sort = reverse = __setitem__ = __iadd__ = _no
    __hash__ = None
