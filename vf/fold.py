"""Sums over arbitrarily many parameter sets, by induction over the list.

AnyList stands for a list of n >= 0 parameter sets (or other summands), followed by one more arbitrary set when `last` is set.  A call
sum(<generator over the list>) in code of /repo returns the value of the sum over the n sets - arbitrary, but the same
for the same (k-th) sum of the function - plus the term of the last set when it is there.  A contract proves the step
  f(list + [c]) = f(list) + term(c)      for all lists and all c,
and, with an empty list, the base; together they give f = base + sum of the terms for lists of every length.
Any other use of the list is not supported (undecided, never an alarm)."""
import types

from . import sym as S
from .sym import Sym, SymArray, Unsupported, parts


class FoldIter:
    def __init__(self, owner):
        self.owner, self.active, self.left = owner, False, 1

    def __iter__(self):
        return self

    def __next__(self):
        if not self.active:
            raise Unsupported("a list of arbitrary length is not used in sum(...)")
        if not self.left:
            raise StopIteration
        self.left = 0
        e = self.owner.element
        return dict(e) if isinstance(e, dict) else e


class AnyList(list):
    def __init__(self, E, name, element):
        super().__init__([None])
        self.E, self.name, self.element = E, name, element
        self.last = False
        self.calls = 0
        self.ghosts = {}

    def phase(self, last):
        self.last, self.calls = last, 0
        return self

    def __iter__(self):
        return FoldIter(self)

    def _no(self, *a, **k):
        raise Unsupported("a list of arbitrary length is not used in sum(...)")

    __len__ = __getitem__ = __reversed__ = __contains__ = __add__ = __bool__ = copy = index = _no

    def __deepcopy__(self, memo):
        return self

    def total(self, gen, start):
        terms = list(gen)
        if len(terms) != 1 or not S.is_sym(terms[0]):
            raise Unsupported("sum over a list of arbitrary length: terms that are not always there")
        t = terms[0]
        k = self.calls
        self.calls += 1
        a, d, kind, m = parts(t)
        if m is not None:
            raise Unsupported("masked terms")
        g = self.ghosts.get(k)
        if g is None:
            shape = tuple(x if q is None else q for x, q in zip(a.shape, d))
            mkr = self.E.carray if kind == "c" else self.E.rarray
            g = self.ghosts[k] = (mkr(f"sum{k}[{self.name}]", shape), kind)
        if g[1] != kind:
            raise Unsupported("sum of another kind")
        g = g[0]
        r = S.binary("add", start, g)
        return S.binary("add", r, t) if self.last else r


def b_sum(it, *a, **k):
    if isinstance(it, types.GeneratorType) and it.gi_frame is not None:
        src = it.gi_frame.f_locals.get(".0")
        if isinstance(src, FoldIter):
            src.active = True
            return src.owner.total(it, a[0] if a else k.get("start", 0))
    if S.MEMBERS and type(it) is list and len(it) == 1 and S.is_sym(it[0]):
        from .members import loose
        if loose(it[0]) is not None:
            return S.binary("add", a[0] if a else k.get("start", 0), S.reduce_sum(S.stack(it), 0))
    return sum(it, *a, **k)
