"""Lists of arbitrarily many members that code maps a function over.

Members is a list of K >= 1 members, K arbitrary, of which the code sees one, the k-th for an arbitrary k.  Its values
depend on k without having an axis for it (they are "loose").  A loop or comprehension over the list runs its body once, for that k;
this is the rule for a loop that carries nothing from one round to the next, so a loop whose byte code carries a variable is
not supported.  A one-element list of loose values is what such a loop leaves behind: made into an array, its first
axis is the K members (vf/sym.py, stack).  A loose value in an obligation is refused (vf/engine.py, goal_eq), and so is
every other use of the list: undecided, never an alarm."""
import sys

import numpy as np

from . import sym as S
from .sym import SymArray, SymLen, Unsupported, mk, parts


class Members(list):
    def __init__(self, dim, element):
        super().__init__([element])
        self.dim = dim

    def _vf_len(self):
        return SymLen(self.dim)

    def __bool__(self):
        return True

    def __iter__(self):
        from .stack import loop_body
        for v in loop_body(sys._getframe(1)):
            raise Unsupported(f"the loop over the members carries {v} from round to round")
        return super().__iter__()

    def _no(self, *a, **k):
        raise Unsupported("operation on a list of arbitrarily many members")

    __len__ = __getitem__ = __reversed__ = __contains__ = __add__ = __iadd__ = __mul__ = copy = index = append = \
        extend = insert = pop = remove = sort = reverse = __setitem__ = __delitem__ = __eq__ = _no
    __hash__ = None


def loose(x):
    """the member axis on which x depends without having it (None: it depends on none)"""
    if isinstance(x, (list, tuple)):
        return None
    a, d, k, m = parts(x)
    for n in a.flat:
        for dm in getattr(n, "dims", ()):
            if getattr(dm, "member", False) and dm not in d:
                return dm
    return None


def members(E, name, make, minimum=1, sizes=(1, 2, 3, 5)):
    """-> (number of members, list): make(K, take) builds one member out of arrays with a first axis K, through take(array)"""
    K = E.dim(name, minimum, list(sizes))
    if isinstance(K, (int, np.integer)):
        return K, [make(K, lambda a, i=i: a[i]) for i in range(K)]
    K.member = True
    S.MEMBERS.append(K)
    return K, Members(K, make(K, lambda a: mk(a.a[0].copy() if a.a.ndim > 1 else _zero(a.a[0]), tuple(a.dims[1:]), a.kind)))


def _zero(n):
    t = np.empty((), dtype=object)
    t[()] = n
    return t
